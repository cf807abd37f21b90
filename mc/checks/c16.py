"""C16: a crash during a query loses nothing and blocks nothing.

Every file operation of the query is a crash point. Killing: the process is really killed before every operation
that changes the disk, before every lock operation, and in the middle of every write. Losing power: a model of the disk, bound to the real disk by comparing it at every kill point,
yields every disk that a power loss at that point can leave; each is written out and used.
"""
import itertools
import os
import shutil

from mc import core, disaster, shim, sut
from mc import history as H
from mc.core import Outcome, new_dir

ID = "C16"
SHIM = True
RULE = "one evaluation per history; transitions count the crash points (kills and power losses) that were carried out, states the distinct disks after them"
ASSUMPTIONS = [
    "names reach the disk in the order of the operations, at the latest with the next fsync of a folder; the data of a file in any state since its last fsync, at the latest with an fsync of that file",
    "a write is torn at most once, at the half, in the model of a power loss, and at the first byte, the half and the last byte when the process is killed",
]
_S = [None]


def area():
    if _S[0] is None:
        _S[0] = shim.Shim()
    return _S[0]


def arms(S, folder, plan, text, g):
    """Runs the query armed, in a fork: (status, result, log)."""

    def work():
        S.arm(folder, plan)
        try:
            return sut.query(text, g)
        finally:
            S.off()

    status, res = shim.in_child(work, timeout=30)
    S.off()
    return status, res, S.log()


def points(log):
    """(number of an operation, tear or None): the kill points of a run."""
    res = []
    for i, r in enumerate(log):
        if r.op == shim.WRITE:
            n = len(r.data)
            res.append((r.no, None))
            for k in sorted({1, n // 2, n - 1}):
                if 0 < k < n:
                    res.append((r.no, k))
        elif r.changes() or r.op in (shim.SYNC, shim.LOCK, shim.UNLOCK):
            res.append((r.no, None))
    # after the last change
    for r in reversed(log):
        if r.op == shim.CLOSE:
            res.append((r.no, None))
            break
    return sorted(set(res), key=lambda t: (t[0], t[1] or 0))


def judge(o, folder, before, used, inflight, must, what, seen, deep=True, name=disaster.NAME):
    """Checks a disk. Disks with the same content are used once."""
    key = (tuple(sorted(shim.read_tree(folder).items(), key=lambda t: t[0])), tuple(must or ()))
    if key in seen:
        return seen[key]
    bad, db, opt = disaster.check_state(folder, before, used, inflight, must, name)
    if not bad and deep:
        bad = disaster.check_after(folder, db, used, name=name)
    seen[key] = (db, opt)
    o.states.add(core.h64(tuple((k, v if not k.endswith(".json") else core.h64(v)) for k, v in key[0])))
    o.distinct.add((opt, bool(bad)))
    if bad:
        o.bad(f"{what}: {bad[0]}")
    return seen[key]


def run(scn):
    if scn.get("kind") == "life":
        return run_life(scn)
    o = Outcome()
    S = area()
    top, st = disaster.template(scn["hist"])
    disaster.warm()
    before = st.dbs[disaster.NAME]["last"]
    used = st.dbs[disaster.NAME]["used"]
    seen = {}
    crash(o, S, top, before, used, [], (), [H.QUERIES[q] for q in scn["queries"]], seen, scn.get("power", True), [], scn)
    shutil.rmtree(top, ignore_errors=True)
    return o


def crash(o, S, top, before, used, inflight, must, queries, seen, power, path, scn):
    """Crashes queries[0] at every point, and what comes after it, if there is more, in every resulting state."""
    kind, text, patterns = queries[0]
    base = disaster.clone(top)
    g = H.paths(base, disaster.NAME)
    status, res, log = arms(S, base, [], text, g)
    o.transitions += 1
    if status:
        o.bad(f"{path}: the query {text!r} ends the process: {status}")
        return
    ok = res[0]
    if ok != (kind != "bad"):
        o.bad(f"{path}: {text!r} is {'accepted' if ok else 'refused: ' + str(res[1])}")
        return
    done = inflight + [patterns]
    kills = points(log)
    disk = shim.Disk.of(str(top))
    disk.root = str(base)
    losses = {}
    snaps = {}
    # the model of the disk, at every operation
    for r in log:
        snaps[r.no] = disk.current()
        if power:
            for tree in disk.losses():
                losses.setdefault(core.h64(sorted(tree.items(), key=lambda t: t[0])), (r.no, False, tree))
        disk.apply(r)
    if disk.current() != shim.read_tree(base):
        raise core.HarnessError(f"the model of the disk differs from the disk after {log}")
    o.validated += 1
    final = len(must) + 0
    mustdone = tuple(must) + (len(done) - 1,)
    finals = [t for t in disk.losses()] if power else []
    judge(o, base, before, used, done, mustdone if ok else must, f"{path} after {text!r}", {}, True)
    if o.violations:
        return
    results = []
    for no, tear in kills:
        d = disaster.clone(top)
        gd = H.paths(d, disaster.NAME)
        plan = [(no, shim.KILL, 0, 0)] if tear is None else [(no, shim.TORN, tear, 0)]
        status, res, klog = arms(S, d, plan, text, gd)
        o.transitions += 1
        if status != -9:
            # the run did something else than the run before: nondeterminism of the code under test
            raise core.HarnessError(f"the kill point {no} was not reached: {status} {res}")
        where = f"{path} killed {'before' if tear is None else 'in'} operation {log[no]} of {text!r}"
        if tear is None and klog_matches(klog, log):
            if shim.read_tree(d) != relocate(snaps[no]):
                if stable(snaps[no], shim.read_tree(d)):
                    raise core.HarnessError(f"the model of the disk differs from the disk at {log[no]}")
            o.validated += 1
        keep = disaster.clone(d) if len(queries) > 1 else None
        db, opt = judge(o, d, before, used, done, must, where, seen)
        if o.violations:
            return
        results.append((keep, where))
        shutil.rmtree(d, ignore_errors=True)
    for key, (no, end, tree) in losses.items():
        d = new_dir()
        shim.write_tree(tree, d)
        o.transitions += 1
        where = f"{path} power lost before operation {log[no]} of {text!r}"
        keep = None
        judge(o, d, before, used, done, must, where, seen)
        if o.violations:
            return
        shutil.rmtree(d, ignore_errors=True)
    for tree in finals:
        d = new_dir()
        shim.write_tree(tree, d)
        o.transitions += 1
        judge(o, d, before, used, done, mustdone if ok else must, f"{path} power lost after {text!r} had returned", seen)
        if o.violations:
            return
        shutil.rmtree(d, ignore_errors=True)
    shutil.rmtree(base, ignore_errors=True)
    if len(queries) > 1:
        once = set()
        for d, where in results:
            key = core.h64(sorted(shim.read_tree(d).items(), key=lambda t: t[0]))
            # contents differ between runs in the times only: the shape decides
            shape = tuple(sorted((k, None if v is None else disaster.shape_of(v)) for k, v in shim.read_tree(d).items()))
            if shape not in once:
                once.add(shape)
                if "part" in scn and len(once) % scn["part"][1] != scn["part"][0]:
                    continue
                bad, db, opt = disaster.check_state(d, before, used, done, must)
                if bad:
                    o.bad(f"{where}: {bad[0]}")
                    return
                crash(o, S, d, db, used | set(db.nodes) | set(db.rels), [], (), queries[1:], seen, power, path + [where], {})
                if o.violations:
                    return
            shutil.rmtree(d, ignore_errors=True)


def klog_matches(a, b):
    return all(x.op == y.op and os.path.basename(x.p1) == os.path.basename(y.p1) for x, y in zip(a, b))


def relocate(tree):
    return tree


def stable(a, b):
    """Whether the two trees differ in more than the creation times."""
    if set(a) != set(b):
        return True
    return any((a[k] is None) != (b[k] is None) or (a[k] is not None and disaster.shape_of(a[k]) != disaster.shape_of(b[k])) for k in a)


def run_life(scn):
    """Creates a database and runs queries, all of it logged; the power is lost at every point of it."""
    o = Outcome()
    S = area()
    top = new_dir()
    queries = [H.QUERIES[q] for q in scn["queries"]]

    def work():
        S.arm(top, [])
        marks = []
        try:
            g = sut.create(disaster.NAME, top)
            marks.append(S.nops)
            for kind, text, patterns in queries:
                ok, err, out = sut.query(text, g)
                if ok != (kind != "bad"):
                    raise AssertionError(f"{text}: {err}")
                marks.append(S.nops)
        finally:
            S.off()
        return marks

    disk = shim.Disk.of(str(top))
    status, marks = shim.in_child(work)
    S.off()
    if status:
        o.bad(f"the process ended: {status}")
        return o
    log = S.log()
    seen = {}
    empty = sut.Db(raw=("{}", '{"node_relationships": {}, "node_labels": [], "relationship_names": []}', "0"))
    for i in range(len(log) + 1):
        if i >= marks[0]:
            n = sum(1 for m in marks[1:] if m <= i)  # queries that have returned
            inflight = [q[2] for q in queries[: n + 1]]
            for tree in disk.losses():
                d = new_dir()
                shim.write_tree(tree, d)
                o.transitions += 1
                if n == 0 and disaster.NAME not in tree:
                    # nothing was stored yet: that the database is lost is not the query's doing
                    shutil.rmtree(d, ignore_errors=True)
                    continue
                judge(o, d, empty, set(), inflight, tuple(range(n)), f"power lost before operation {log[i] if i < len(log) else 'none'} of the life {scn['queries']}", seen)
                if o.violations:
                    return o
                shutil.rmtree(d, ignore_errors=True)
        if i < len(log):
            disk.apply(log[i])
    if disk.current() != shim.read_tree(top):
        raise core.HarnessError("the model of the disk differs from the disk")
    o.validated += 1
    shutil.rmtree(top, ignore_errors=True)
    return o


def explore(ctx):
    q = ctx.quick
    hists = [[], [["q", "p", "c"]], [["q", "p", "m"], ["q", "p", "bad"]], [["fill", "p", 9], ["q", "p", "w"]]]
    if not q:
        hists += [[["fill", "p", 98], ["q", "p", "t"], ["q", "p", "find"]], [["fill", "p", 400]], [["q", "p", "m"], ["restart"], ["q", "p", "o"]]]
    names = list(H.QUERIES)

    def single():
        for h in hists:
            for n in names:
                yield {"hist": h, "queries": [n]}

    ctx.run_all("single", single, batch=1, bounds=f"every crash point of each of {len(names)} queries after each of {len(hists)} histories, killed and with the power lost")

    def double():
        firsts = ["r", "m"] if q else ["n", "r", "c", "m", "w", "makefind"]
        seconds = ["n"] if q else ["n", "l", "t", "find"]
        for h in hists[:1] if q else hists[:4]:
            for a in firsts:
                for b in seconds:
                    for i in range(8):
                        yield {"hist": h, "queries": [a, b], "power": not q, "part": [i, 8]}

    ctx.run_all("double", double, batch=1, bounds="two crashes one after the other, every point of the second query in every state after the first crash")

    def life():
        ops = ["r", "find", "m", "bad"] if q else ["n", "r", "find", "m", "bad", "c", "makefind"]
        for n in (1, 2) if q else (1, 2, 3):
            for t in itertools.product(ops, repeat=n):
                yield {"kind": "life", "queries": list(t)}

    ctx.run_all("life", life, batch=1, bounds="the power lost at every point of every history of queries that begins with the creation of the database")

    def large():
        for h in ([["fill", "p", 300]], [["q", "p", "text9000"]]) if q else ([], [["fill", "p", 300]], [["q", "p", "text9000"]], [["fill", "p", 2000]], [["q", "p", "text70000"]], [["q", "p", "wide300"]]):
            for n in ["n", "wide40", "text80000"] if q else ["n", "r", "find", "bad", "nodes300", "wide40", "wide300", "text4096", "text8192", "text80000", "text1000000"]:
                yield {"hist": h, "queries": [n]}
        if q:
            yield {"hist": [["q", "p", "r"]], "queries": ["text270000"]}
        for a, b in [("wide40", "n")] if q else itertools.product(["wide40", "text9000", "text70000"], ["n", "find"]):
            for i in range(8):
                yield {"hist": [], "queries": [a, b], "power": not q, "part": [i, 8]}

    ctx.run_all("large", large, batch=1, bounds="every crash point of queries and databases from 4 kilobytes to a megabyte, also followed by a crash of a small one")
