"""C22: creating and deleting databases survives crashes, faults and other shells.

Kills before every operation, power losses (model of the disk), failing operations, and interleavings with other
processes, all enumerated. After each: every other database is as it was, listing and selecting work, what can be
selected can be used, and the name can be used again.
"""
import builtins
import io
import itertools
import os
import shutil

from mc import core, disaster, sched, shim, sut
from mc import history as H
from mc.checks import c16, c20
from mc.core import Outcome, new_dir

ID = "C22"
SHIM = True
RULE = "one evaluation per operation, set of other databases and kind of disaster; transitions count the disasters and schedules, states the distinct disks after them"
ASSUMPTIONS = c16.ASSUMPTIONS + c20.ASSUMPTIONS + ["processes interleave at file operations, locks and sleeps"]


class TooManyPrompts(Exception):
    pass


def select(folder, answers):
    it = iter(answers)

    def ask(prompt=""):
        try:
            return next(it)
        except StopIteration:
            raise TooManyPrompts()

    old = builtins.input
    builtins.input = ask
    try:
        with sut.captured(io.StringIO()):
            return sut.S.get_existing_gdbms(folder)
    finally:
        builtins.input = old


def world(scn):
    top = new_dir()
    for name in scn["others"]:
        g = sut.create(name, top)
        for q in ("m", "c"):
            sut.query(H.QUERIES[q][1], g)
    if scn["op"] != "create" or scn.get("there"):
        g = sut.create(scn["name"], top)
        for q in scn.get("content", ["c"]):
            sut.query(H.QUERIES[q][1], g)
    return top


def act(op, name, folder):
    try:
        with sut.captured(io.StringIO()):
            if op == "create":
                return True, None, sut.S.get_new_gdbms_file_paths(name, folder)
            return True, None, sut.S.delete_gdbms(name, folder)
    except Exception as e:
        return False, f"{type(e).__name__}: {e}", None


def judge(o, d, scn, before, what, must=None, seen=None):
    """must: "there", "gone" or None."""
    name, op = scn["name"], scn["op"]
    tree = shim.read_tree(d)
    key = (core.h64(sorted((k, v) for k, v in tree.items() if v is not None) + sorted(k for k in tree)), must)
    if seen is not None:
        if key in seen:
            return True
        seen.add(key)
    o.states.add(key[0])
    bad = _judge(d, scn, before, tree, must, o)
    if bad:
        o.bad(f"{what}: {bad}")
        return False
    return True


def _judge(d, scn, before, tree, must, o):
    name, op = scn["name"], scn["op"]
    for k, v in before.items():
        if k != name and not k.startswith(name + "/") and tree.get(k, 0) != v:
            return f"{k} of another database is changed or lost"
    for k in tree:
        if k.split("/")[0] not in {name, *scn["others"]}:
            return f"{k} is left behind"
    exists = name in tree
    if must == "there" and not exists:
        return "the database is missing"
    if must == "gone" and exists:
        return f"the database is still there: {sorted(k for k in tree if k.startswith(name))}"
    for n in scn["others"]:
        try:
            db = sut.Db(H.paths(d, n))
        except (FileNotFoundError, sut.Corrupt) as e:
            return f"database {n}: {e}"
    try:
        with sut.captured(io.StringIO()):
            listed = sut.S.list_existing_dbms(path_to_dbms_dir=d)
    except Exception as e:
        return f"listing fails: {type(e).__name__} {e}"
    if listed != sorted(scn["others"] + ([name] if exists else [])):
        return f"listed are {listed}"
    kind = "gone"
    if listed:
        # every letter: the database, or the next question
        for i, n in enumerate(listed):
            try:
                g = select(d, [chr(65 + i)])
            except TooManyPrompts:
                g = None
            except Exception as e:
                return f"selecting {n} fails: {type(e).__name__} {e}"
            if n in scn["others"] and (g is None or g != H.paths(d, n)):
                return f"selecting {n} gives {g}"
            if n != name:
                continue
            kind = "partial" if g is None else "whole"
            if g is None and must == "there":
                return "the database cannot be selected"
            if g is not None:
                try:
                    db = sut.Db(g)
                except (sut.Corrupt, OSError) as e:
                    return f"the database can be selected, but not used: {e}"
                if op == "create" and not scn.get("there") and not scn.get("filled") and (db.nodes or db.rels or db.next or db.ix_labels or db.ix_names or db.ix_rels):
                    return f"the new database is not empty: {db.raw}"
                if op == "delete" or scn.get("there"):
                    for k, v in before.items():
                        if k.startswith(name + "/") and H.DOCUMENTED.fullmatch(os.path.basename(k)) and tree.get(k, 0) != v:
                            return f"{k} is changed, but the database can be selected"
                bad = disaster.check_after(d, db, set(), name=name)
                if bad:
                    return f"the database can be selected, but: {bad[0]}"
    # other databases work
    for n in scn["others"]:
        g = H.paths(d, n)
        db = sut.Db(g)
        bad = disaster.check_after(d, db, set(), name=n)
        if bad:
            return f"database {n}: {bad[0]}"
    # the name can be used again
    if exists:
        ok, err, _ = act("delete", name, d)
        if not ok:
            return f"the {kind} database cannot be deleted: {err}"
        if os.path.exists(os.path.join(d, name)):
            return f"the {kind} database is not deleted"
    ok, err, g = act("create", name, d)
    if not ok:
        return f"the name cannot be used again: {err}"
    db = sut.Db(g)
    if db.nodes or db.rels or db.next or db.ix_labels or db.ix_names or db.ix_rels:
        return f"the new database is not empty: {db.raw}"
    bad = disaster.check_after(d, db, set(), name=name)
    if bad:
        return f"the new database: {bad[0]}"
    o.distinct.add((kind, must, op))
    return None


_S = [None]


def run(scn):
    o = Outcome()
    if _S[0] is None:
        _S[0] = shim.Shim()
    S = _S[0]
    disaster.warm()
    top = world(scn)
    before = shim.read_tree(top)
    {"kill": crash, "fault": fault, "shells": shells}[scn["kind"]](o, S, scn, top, before)
    shutil.rmtree(top, ignore_errors=True)
    return o


def armed(S, d, plan, scn):
    S.arm(d, plan)
    try:
        return act(scn["op"], scn["name"], d)
    finally:
        S.off()


def crash(o, S, scn, top, before):
    base = disaster.clone(top)
    res = armed(S, base, [], scn)
    log = S.log()
    want = not (scn["op"] == "create" and scn.get("there"))
    if res[0] != want:
        o.bad(f"{scn['op']} of {scn['name']!r}: {res[1]}")
        return
    must = "there" if scn["op"] == "create" else "gone"
    seen = set()
    disk = shim.Disk.of(str(top))
    disk.root = str(base)
    losses, snaps = {}, {}
    for r in log:
        snaps[r.no] = disk.current()
        for tree in disk.losses():
            losses.setdefault(core.h64(sorted(tree.items(), key=lambda t: t[0])), (r, tree))
        disk.apply(r)
    if disk.current() != shim.read_tree(base):
        raise core.HarnessError(f"the model of the disk differs from the disk after {log}")
    o.validated += 1
    finals = list(disk.losses()) if must == "there" else []
    if not judge(o, base, scn, before, "afterwards", must, None):
        return
    for no, tear in c16.points(log):
        d = disaster.clone(top)
        plan = [(no, shim.KILL, 0, 0)] if tear is None else [(no, shim.TORN, tear, 0)]
        status, _ = shim.in_child(lambda: armed(S, d, plan, scn))
        S.off()
        same = c16.klog_matches(S.log(), log)
        o.transitions += 1
        if status != -9:
            raise core.HarnessError(f"the kill point {no} was not reached: {status}")
        if tear is None:
            if same and scn["op"] == "create" and shim.read_tree(d) != snaps[no] and c16.stable(snaps[no], shim.read_tree(d)):
                raise core.HarnessError(f"the model of the disk differs from the disk at {log[no]}")
            o.validated += 1
        if not judge(o, d, scn, before, f"killed at {log[no]} of {scn['op']}", None, seen):
            return
        shutil.rmtree(d, ignore_errors=True)
    for r, tree in losses.values():
        d = new_dir()
        shim.write_tree(tree, d)
        o.transitions += 1
        if not judge(o, d, scn, before, f"power lost at {r} of {scn['op']}", None, seen):
            return
        shutil.rmtree(d, ignore_errors=True)
    for tree in finals:
        d = new_dir()
        shim.write_tree(tree, d)
        o.transitions += 1
        if not judge(o, d, scn, before, f"power lost after {scn['op']}", must, seen):
            return
        shutil.rmtree(d, ignore_errors=True)


def fault(o, S, scn, top, before):
    d = disaster.clone(top)
    res = armed(S, d, [], scn)
    log = S.log()
    shutil.rmtree(d, ignore_errors=True)
    plans = list(c20.plans(log, "single")) + list(c20.plans(log, "persist"))
    if scn.get("pairs"):
        plans += list(c20.plans(log, "pairs"))
    seen = set()
    for plan in plans:
        d = disaster.clone(top)
        ok, err, _ = armed(S, d, plan, scn)
        o.transitions += 1
        what = f"faults {[(str(log[p[0]]) if p[0] < len(log) else p[0], *p[1:]) for p in plan]} in {scn['op']}: {err}"
        must = None
        if scn["op"] == "create" and not scn.get("there"):
            if ok:
                must = "there"
            elif len(plan) == 1 and plan[0][3] == 0:
                must = "gone"
        elif scn["op"] == "create":
            must = "there"
        elif ok:
            must = "gone"
        if not judge(o, d, scn, before, what, must, seen):
            return
        shutil.rmtree(d, ignore_errors=True)


def job(d, scn, what):
    def f():
        if what[0] == "q":
            return sut.query(H.QUERIES[what[2]][1], H.paths(d, what[1]))
        if what[0] == "list":
            with sut.captured(io.StringIO()):
                return True, None, sut.S.list_existing_dbms(path_to_dbms_dir=d)
        if what[0] == "createq":
            ok, err, g = act("create", what[1], d)
            if not ok:
                return ok, err, None
            # its maker uses it at once
            return True, None, sut.query(H.QUERIES[what[2]][1], g)
        return act(what[0], what[1], d)

    return f


def shells(o, S, scn, top, before):
    if "schedule" in scn:
        one(o, scn, top, before, scn["schedule"])
        return
    part, n = scn.get("part", [0, 1])
    root = one(o, scn, top, before, [])
    stack = [a for k, a in enumerate(root.alternatives(scn["bound"])) if k % n == part]
    while stack and not o.violations:
        s = one(o, scn, top, before, stack.pop())
        stack += list(s.alternatives(scn["bound"]))


def _empty():
    e = _S[1:] or [sut.Db(sut.create("e", new_dir()))]
    _S[1:] = e
    return e[0]


def one(o, scn, top, before, prefix):
    d = disaster.clone(top)
    s = sched.Schedule(prefix)
    o.validated += 1
    results, why = sched.execute([job(d, scn, w) for w in scn["jobs"]], d, s)
    o.transitions += 1
    bad = why
    must = None
    made = []
    if not bad:
        oks = []
        for w, r in zip(scn["jobs"], results):
            if r is None or not r[0]:
                bad = f"process of {w} died: {r}"
                break
            oks.append(r[1])
        if not bad:
            same = [r for w, r in zip(scn["jobs"], oks) if w[0] in (scn["op"], scn["op"] + "q") and w[1] == scn["name"]]
            n = sum(1 for r in same if r[0])
            if scn["op"] == "create":
                must = "there"
                if n != (0 if scn.get("there") else 1):
                    bad = f"{n} of {len(same)} creations of the same database succeed: {[r[1] for r in same]}"
            elif scn["op"] == "delete":
                must = "gone" if n else None
                if len(same) == 1 and not n:
                    bad = f"the deletion fails: {same}"
            for w, r in zip(scn["jobs"], oks):
                if w[0] == "q" and not r[0]:
                    bad = f"the query {w} fails: {r[1]}"
                if w[0] == "createq" and r[0]:
                    if not r[2][0]:
                        bad = f"the first query of the database fails: {r[2][1]}"
                    else:
                        made.append(H.QUERIES[w[2]][2])
                if w[0] == "list":
                    if not r[0] or not set(scn["others"]) - {x[1] for x in scn["jobs"] if x[0] == "delete"} <= set(r[2]):
                        bad = f"listed are {r}"
                if w[0] in ("create", "delete") and w[1] != scn["name"] and not r[0]:
                    bad = f"{w} fails: {r[1]}"
    # what is created and deleted besides the database in question
    others, gone = list(scn["others"]), []
    for w in scn["jobs"]:
        if w[0] == "create" and w[1] != scn["name"]:
            others.append(w[1])
        if w[0] == "delete" and w[1] != scn["name"]:
            others.remove(w[1])
            gone.append(w[1])
    if not bad:
        # what the queries on other databases stored
        now = dict(before)
        for w in scn["jobs"]:
            if w[0] == "q":
                db0 = sut.Db(H.paths(top, w[1]))
                b, db, opt = disaster.check_state(d, db0, set(db0.nodes) | set(db0.rels), [H.QUERIES[w[2]][2]], (0,), w[1])
                bad = bad or (b and b[0])
                tree = shim.read_tree(d)
                now.update({k: v for k, v in tree.items() if k.startswith(w[1] + "/")})
        for n in others:
            if n not in scn["others"] and not bad:
                try:
                    db = sut.Db(H.paths(d, n))
                except (sut.Corrupt, OSError) as e:
                    bad = f"the database {n}: {e}"
                    break
                if db.nodes or db.rels or db.next or db.ix_labels or db.ix_names or db.ix_rels:
                    bad = f"the new database {n} is not empty: {db.raw}"
        now = {k: v for k, v in now.items() if k.split("/")[0] not in gone}
        scn = {**scn, "others": others}
        if made and not bad:
            b, db, opt = disaster.check_state(d, _empty(), set(), made, tuple(range(len(made))), scn["name"])
            bad = b and f"what the maker of the database stores: {b[0]}"
    if bad:
        o.bad(f"{bad} with {scn['jobs']} in the schedule {[t[2] for t in s.trace]}")
    else:
        judge(o, d, scn, now, f"{scn['jobs']} in the schedule {[t[2] for t in s.trace]}", must, None)
    shutil.rmtree(d, ignore_errors=True)
    return s


def explore(ctx):
    q = ctx.quick
    worlds = [[], ["p"], ["pq", "a b"], ["p.x", "P"]]
    names = ["p", "pq", "zz", "p q", ".p"]

    def base():
        for name in names if not q else names[:3]:
            for others in worlds:
                if name in others:
                    continue
                yield {"name": name, "others": others, "op": "create"}
                yield {"name": name, "others": others, "op": "delete"}
        yield {"name": "p", "others": ["pq"], "op": "create", "there": True}
        yield {"name": "p", "others": ["pq"], "op": "delete", "content": []}
        yield {"name": "p", "others": ["pq"], "op": "delete", "content": ["m", "c", "bad"]}

    ctx.run_all("kill", lambda: ({**s, "kind": "kill"} for s in base()), batch=1, bounds="creating and deleting a database among others, killed before every operation, and the power lost in every way")
    ctx.run_all("fault", lambda: ({**s, "kind": "fault", "pairs": not q} for s in base()), batch=1, bounds="every operation fails once with each error, and for good")

    def race():
        A = {"name": "p", "others": ["pq"]}
        sets = [
            {**A, "op": "create", "jobs": [["create", "p"], ["create", "p"]]},
            {**A, "op": "create", "jobs": [["create", "p"], ["q", "pq", "n"]]},
            {**A, "op": "delete", "jobs": [["delete", "p"], ["q", "pq", "m"]]},
            {**A, "op": "create", "jobs": [["create", "p"], ["list"]]},
            {**A, "op": "delete", "jobs": [["delete", "p"], ["list"]]},
            {**A, "op": "create", "jobs": [["create", "p"], ["create", "z"]]},
            {**A, "op": "create", "jobs": [["create", "p"], ["create", "p.new"]]},
            {**A, "op": "create", "jobs": [["create", "p"], ["delete", "pq"]]},
            {**A, "op": "delete", "jobs": [["delete", "p"], ["create", "z"]]},
            {**A, "op": "delete", "jobs": [["delete", "p"], ["delete", "pq"]]},
        ]
        filled = {**A, "op": "create", "filled": True, "jobs": [["createq", "p", "n"], ["createq", "p", "r"]]}
        for i in range(8):
            yield {**filled, "kind": "shells", "bound": 2 if q else 3, "part": [i, 8]}
        if not q:
            sets += [
                {**A, "op": "create", "there": True, "jobs": [["create", "p"], ["create", "p"]]},
                {**A, "op": "delete", "jobs": [["delete", "p"], ["delete", "p"]]},
                {**A, "op": "create", "jobs": [["create", "p"], ["create", "p"], ["create", "p"]]},
            ]
        for s in sets:
            for i in range(8):
                yield {**s, "kind": "shells", "bound": 1 if q else 2, "part": [i, 8]}

    ctx.run_all("shells", race, batch=1, bounds=f"two processes (three in the thorough tier) that create, delete, list and query, all schedules with up to {1 if q else 2} preemptions")
