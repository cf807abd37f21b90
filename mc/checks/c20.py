"""C20: a failing disk operation loses nothing and blocks nothing.

Every file operation of a query fails in turn with each error that it can have, writes are cut short, operations fail
on for good from each point on, and pairs of operations fail, in one query and in two queries after each other.
After that the disk works again, and the same process, and a new one, use the database.
"""
import errno
import itertools
import shutil

from mc import core, disaster, shim, sut
from mc import history as H
from mc.core import Outcome, new_dir

ID = "C20"
SHIM = True
RULE = "one evaluation per history and query; transitions count the runs with a fault, states the distinct disks after them"
ASSUMPTIONS = ["an operation that fails has no effect, except close, which closes, and a write that is cut short, which writes the first part"]
_S = [None]
E = errno
ERR = {
    shim.OPEN: [E.EIO, E.EACCES, E.EMFILE],
    shim.CLOSE: [E.EIO],
    shim.READ: [E.EIO],
    shim.WRITE: [E.ENOSPC, E.EIO],
    shim.FTRUNC: [E.EIO],
    shim.TRUNC: [E.EIO],
    shim.SYNC: [E.EIO, E.ENOSPC],
    shim.RENAME: [E.EIO, E.ENOSPC, E.EACCES],
    shim.UNLINK: [E.EIO, E.EACCES],
    shim.RMDIR: [E.EIO],
    shim.MKDIR: [E.EIO, E.ENOSPC],
    shim.LOCK: [E.ENOLCK, E.EIO],
    shim.UNLOCK: [E.EIO],
    shim.STAT: [E.EIO],
    shim.LINK: [E.EIO],
    shim.SYMLINK: [E.EIO],
    shim.LIST: [E.EIO, E.EACCES],
}
PERSIST = [(1, E.ENOSPC), (2, E.EACCES), (3, E.EIO), (4, E.ENOSPC)]


def area():
    if _S[0] is None:
        _S[0] = shim.Shim()
    return _S[0]


def faults(r):
    """The faults of one operation of a log: plan entries."""
    for e in ERR.get(r.op, [E.EIO]):
        if r.op == shim.OPEN and e == E.EACCES and False:
            continue
        yield (r.no, shim.FAIL, e, 0)
    if r.op == shim.OPEN and r.arg & (shim.os.O_CREAT | shim.os.O_TRUNC):
        yield (r.no, shim.FAIL, E.ENOSPC, 0)
    if r.op == shim.WRITE and len(r.data) > 1:
        for k in sorted({1, len(r.data) // 2, len(r.data) - 1}):
            yield (r.no, shim.SHORT, k, 0)


def armed(S, folder, plan, text, g):
    S.arm(folder, plan)
    try:
        return sut.query(text, g)
    finally:
        S.off()


def run(scn):
    o = Outcome()
    S = area()
    top, st = disaster.template(scn["hist"])
    disaster.warm()
    before = st.dbs[disaster.NAME]["last"]
    used = st.dbs[disaster.NAME]["used"]
    qs = [H.QUERIES[q] for q in scn["queries"]]
    d = disaster.clone(top)
    res = armed(S, d, [], qs[0][1], H.paths(d, disaster.NAME))
    log = S.log()
    o.transitions += 1
    if res[0] != (qs[0][0] != "bad"):
        o.bad(f"{qs[0][1]!r}: {res[1]}")
        return o
    shutil.rmtree(d, ignore_errors=True)
    kind = scn.get("kind", "single")
    clean = sut.no_results(res[2])
    n = 0
    for plan in plans(log, kind):
        n += 1
        if "part" in scn and n % scn["part"][1] != scn["part"][0]:
            continue
        d = disaster.clone(top)
        g = H.paths(d, disaster.NAME)
        one(o, S, d, g, before, used, qs, plan, log, scn, clean)
        shutil.rmtree(d, ignore_errors=True)
        if o.violations:
            break
    shutil.rmtree(top, ignore_errors=True)
    return o


def plans(log, kind):
    if kind == "single":
        for r in log:
            for f in faults(r):
                yield [f]
    elif kind == "persist":
        for r in log:
            for cls, e in PERSIST:
                yield [(r.no, shim.FAIL, e, cls)]
            if r.op == shim.WRITE and len(r.data) > 1:
                yield [(r.no, shim.SHORT, len(r.data) // 2, 0), (r.no + 1, shim.FAIL, E.ENOSPC, 1)]
                yield [(r.no, shim.SHORT, len(r.data) // 2, 0), (r.no + 1, shim.FAIL, E.ENOSPC, 4)]
    elif kind == "pairs":
        for i, r in enumerate(log):
            f = next(iter(faults(r)))
            for k in range(r.no + 1, r.no + 12):
                # what comes after a fault is another path: any operation, with an error that fits all
                yield [f, (k, shim.FAIL, E.EIO, 0)]
    elif kind == "short":
        for r in log:
            if r.op == shim.WRITE and len(r.data) > 2:
                for a in range(1, len(r.data)):
                    yield [(r.no, shim.SHORT, a, 0)]
    elif kind == "again":
        for r in log:
            f = next(iter(faults(r)))
            yield [f]


def one(o, S, d, g, before, used, qs, plan, log, scn, clean):
    kind, text, patterns = qs[0]
    what = f"faults {[(str(log[p[0]]) if p[0] < len(log) else p[0], *p[1:]) for p in plan]} in {text!r}"
    ok, err, out = armed(S, d, plan, text, g)
    hits = S.hits
    o.transitions += 1
    if ok and kind == "bad":
        o.bad(f"{what}: accepted")
        return
    if not ok and not hits and kind != "bad":
        o.bad(f"{what}: refused without a fault: {err}")
        return
    if ok and kind in ("find", "make") and "FIND" in text:
        # a FIND that reports must be right also under faults
        if sut.no_results(out) != clean:
            o.bad(f"{what}: the FIND says {out!r}")
            return
    inflight = [patterns]
    o.validated += 1
    bad, db, opt = disaster.check_state(d, before, used, inflight, (0,) if ok else ())
    if bad:
        o.bad(f"{what}: {'accepted' if ok else 'refused: ' + err}; {bad[0]}")
        return
    o.distinct.add((ok, opt, type(err).__name__ if err is None else err.split(":")[0]))
    used = used | set(db.nodes) | set(db.rels)
    if len(qs) > 1:
        # the same process goes on, and the next query fails too
        base = shim.read_tree(d)
        armed(S, d, [], qs[1][1], g)
        log2 = S.log()
        shutil.rmtree(d)
        shim.write_tree(base, d)
        for r in log2:
            for f in faults(r) if not core_quick(scn) else itertools.islice(faults(r), 1):
                ok2, err2, out2 = armed(S, d, [f], qs[1][1], g)
                o.transitions += 1
                bad, db2, opt2 = disaster.check_state(d, db, used, [qs[1][2]], (0,) if ok2 else ())
                if not bad:
                    bad = disaster.check_after(d, db2, used, g)
                if bad:
                    o.bad(f"{what}, then {r} fails in {qs[1][1]!r}: {bad[0]}")
                    return
                shutil.rmtree(d)
                shim.write_tree(base, d)
        return
    o.states.add(tuple(sorted((k, disaster.shape_of(v)) for k, v in shim.read_tree(d).items() if v is not None)))
    bad = disaster.check_after(d, db, used, g)
    if not bad and scn.get("restart"):
        bad = []
    if bad:
        o.bad(f"{what}: {bad[0]}")


def core_quick(scn):
    return scn.get("quick", False)


def explore(ctx):
    q = ctx.quick
    hists = [[], [["q", "p", "c"], ["q", "p", "bad"]], [["fill", "p", 9], ["q", "p", "w"]]]
    if not q:
        hists += [[["fill", "p", 98], ["q", "p", "m"]], [["q", "p", "t"], ["restart"], ["q", "p", "find"]]]
    names = list(H.QUERIES) if not q else ["n", "r", "c", "m", "w", "bad", "find", "findnone", "find1", "makefind"]

    def single():
        for h in hists:
            for n in names:
                yield {"hist": h, "queries": [n]}

    ctx.run_all("single", single, batch=1, bounds="every file operation of each query fails once, with each error, and each write is cut short at its first byte, its half and before its last")

    def persist():
        for h in hists:
            for n in names:
                yield {"hist": h, "queries": [n], "kind": "persist"}

    ctx.run_all("persist", persist, batch=1, bounds="from each operation of each query on, all that take space, all that write, all that change names, or all operations fail")

    def pairs():
        for h in hists[1:2] if q else hists:
            for n in ["c", "find"] if q else names:
                for i in range(8):
                    yield {"hist": h, "queries": [n], "kind": "pairs", "part": [i, 8]}

    ctx.run_all("pairs", pairs, batch=1, bounds="each operation fails, and one of the 11 operations that the process does next")

    def short():
        for h in hists[:1] if q else hists[:2]:
            for n in ["n"] if q else ["n", "r", "c"]:
                for i in range(8):
                    yield {"hist": h, "queries": [n], "kind": "short", "part": [i, 8]}

    ctx.run_all("short", short, batch=1, bounds="each write cut short at every byte")

    def again():
        for h in hists[:1] if q else hists[:3]:
            for a, b in [("r", "n")] if q else itertools.product(["n", "r", "c", "makefind", "bad"], ["n", "m", "find"]):
                for i in range(8):
                    yield {"hist": h, "queries": [a, b], "kind": "again", "part": [i, 8], "quick": q}

    ctx.run_all("again", again, batch=1, bounds="a fault in each operation of one query and then in each operation of the next one of the same process")

    def large():
        for h in ([["fill", "p", 300]],) if q else ([["fill", "p", 300]], [["q", "p", "text9000"]], [["fill", "p", 2000]], [["q", "p", "text70000"]], [["q", "p", "wide300"]]):
            for n in ["n", "wide40", "text80000"] if q else ["n", "r", "find", "bad", "nodes300", "wide40", "wide300", "text4096", "text8192", "text80000", "text1000000"]:
                yield {"hist": h, "queries": [n]}
                yield {"hist": h, "queries": [n], "kind": "persist"}

        if q:
            yield {"hist": [], "queries": ["text270000"]}

    ctx.run_all("large", large, batch=1, bounds="every file operation of queries and databases from 4 kilobytes to a megabyte fails once, and from each one on")
