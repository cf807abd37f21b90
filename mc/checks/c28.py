"""C28: an interrupted query leaves nothing half done, and the same program goes on.

A query is interrupted at the start of every function and the return of every builtin that the code of the repository
calls, and in the wait for a lock, which is where Python lets an interrupt (Ctrl-C) act. Then the same process, and a new one, use the database.
"""
import os
import shutil
import signal
import sys

from mc import core, disaster, sut
from mc import history as H
from mc.core import Outcome

ID = "C28"
RULE = "one evaluation per history, query and interrupted call; afterwards the query is all there or not at all, and the same process and a new one work with the database"
ASSUMPTIONS = ["Python acts on an interrupt where it calls and returns; the moment between getting a lock and entering the block that gives it back is left out"]
LOCKS = {"flock", "lockf", "acquire"}
INTERRUPTS = {"KeyboardInterrupt": KeyboardInterrupt, "MemoryError": MemoryError, "SystemExit": SystemExit}


class Interrupter:
    """Counts the calls that the repository makes, and raises at one of them."""

    def __init__(self, at, kind):
        self.at, self.kind, self.n, self.place = at, INTERRUPTS[kind], 0, None
        self.root = str(core.REPO.resolve()) + "/"
        self.known = {}

    def ours(self, frame):
        f = frame.f_code.co_filename
        if f not in self.known:
            self.known[f] = os.path.realpath(f).startswith(self.root) and "/logging/" not in f
        return self.known[f]

    def __call__(self, frame, event, arg):
        if event in ("return", "c_exception"):
            return
        if event == "call":
            # a call of the repository, or of something that it calls, or that this calls
            if not (self.ours(frame) or (frame.f_back and (self.ours(frame.f_back) or (frame.f_back.f_back and self.ours(frame.f_back.f_back))))):
                return
        elif not self.ours(frame) and not (frame.f_back and self.ours(frame.f_back) and "contextlib" in frame.f_code.co_filename):
            return
        elif (event == "c_return") == (getattr(arg, "__name__", "") in LOCKS):
            # other functions are interrupted when they return, the wait for a lock before it is got
            return
        k = self.n
        self.n += 1
        if k == self.at:
            self.place = f"{event} {frame.f_code.co_qualname if hasattr(frame.f_code, 'co_qualname') else frame.f_code.co_name} {getattr(arg, '__name__', '')} line {frame.f_lineno}"
            sys.setprofile(None)
            raise self.kind("interrupted")


def interrupted(text, g, at, kind):
    """Returns (accepted, error, output, interrupter)."""
    i = Interrupter(at, kind)
    import io

    buf = io.StringIO()
    old = sys.stdout
    sys.stdout = buf
    try:
        sys.setprofile(i)
        try:
            sut._query(text, g)
        finally:
            sys.setprofile(None)
        return True, None, buf.getvalue(), i
    except BaseException as e:
        return False, f"{type(e).__name__}: {e}", buf.getvalue(), i
    finally:
        sys.stdout = old


def count(hist, query, cold):
    top, st = disaster.template(hist)

    def f():
        if not cold:
            disaster.warm()
            sut.query(H.QUERIES[query][1], H.paths(disaster.clone(top), disaster.NAME))
        d = disaster.clone(top)
        return interrupted(H.QUERIES[query][1], H.paths(d, disaster.NAME), -1, "SystemExit")[3].n

    n = core.in_fork(f)
    shutil.rmtree(top, ignore_errors=True)
    return n


def run(scn):
    o = Outcome()
    top, st = disaster.template(scn["hist"])
    args = (o, top, st, scn)
    if scn["cold"]:
        for at in range(*scn["at"]):
            res = core.in_fork(child, top, st, scn, [at])
            join(o, res)
            if o.violations:
                break
    else:
        join(o, core.in_fork(child, top, st, scn, range(*scn["at"]), timeout=300))
    shutil.rmtree(top, ignore_errors=True)
    return o


def join(o, res):
    o.violations += res.violations
    o.states |= res.states
    o.distinct |= res.distinct
    o.transitions += res.transitions
    o.validated += res.validated


class Blocked(BaseException):
    pass


def alarm(*a):
    raise Blocked()


def child(top, st, scn, ats):
    o = Outcome()
    before, used = st.dbs[disaster.NAME]["last"], st.dbs[disaster.NAME]["used"]
    q = H.QUERIES[scn["query"]]
    if not scn["cold"]:
        disaster.warm()
        d = disaster.clone(top)
        sut.query(q[1], H.paths(d, disaster.NAME))
        shutil.rmtree(d, ignore_errors=True)
    old = signal.signal(signal.SIGALRM, alarm)
    try:
        for at in ats:
            d = disaster.clone(top)
            signal.alarm(40)
            try:
                one(o, d, scn, before, used, q, at)
            except Blocked:
                o.bad(f"{q[1]!r} interrupted at call {at}: afterwards a query never ends")
            signal.alarm(0)
            shutil.rmtree(d, ignore_errors=True)
            if o.violations:
                break
    finally:
        signal.signal(signal.SIGALRM, old)
    return o


def one(o, d, scn, before, used, q, at):
    kind, text, patterns = q
    g = H.paths(d, disaster.NAME)
    ok, err, out, i = interrupted(text, g, at, scn["kind"])
    o.transitions += 1
    o.validated += 1
    what = f"{text!r} interrupted by {scn['kind']} at call {at} ({i.place}): {'accepted' if ok else err}"
    if ok and i.place and "FIND" in text and sut.no_results(out) != scn["none"]:
        o.bad(f"{what}: the FIND says {out!r}")
        return
    bad, db, opt = disaster.check_state(d, before, used, [patterns], (0,) if ok else ())
    if bad:
        o.bad(f"{what}; {bad[0]}")
        return
    o.states.add((scn["query"], opt, db.next - before.next, db.key() == before.key()))
    o.distinct.add((scn["query"], ok, opt, (err or "").split(":")[0]))
    used = used | set(db.nodes) | set(db.rels)
    # the same query again in the same process
    again = scn.get("again")
    last = db
    if again is not None:
        ok, err, out, j = interrupted(text, g, again, scn["kind"])
        o.transitions += 1
        bad, db, opt = disaster.check_state(d, last, used, [patterns], (0,) if ok else ())
        if bad:
            o.bad(f"{what}; then again, interrupted at call {again} ({j.place}): {bad[0]}")
            return
        used = used | set(db.nodes) | set(db.rels)
        last = db
    ok, err, out = sut.query(text, g)
    o.transitions += 1
    if ok != (kind != "bad"):
        o.bad(f"{what}; the same query again is {'accepted' if ok else 'refused: ' + err}")
        return
    if "FIND" in text and ok and sut.no_results(out) != scn["none"]:
        o.bad(f"{what}; the same query again says {out!r}")
        return
    bad, db, _ = disaster.check_state(d, last, used, [patterns], (0,) if ok else ())
    if not bad:
        used = used | set(db.nodes) | set(db.rels)
        bad = disaster.check_after(d, db, used, g)
    if not bad and at % 16 == 0:
        # a lock must be free for a new process too
        def new():
            return disaster.check_after(d, sut.Db(g), used | {0}, H.paths(d, disaster.NAME))

        bad = core.in_fork(new, timeout=30)
    if bad:
        o.bad(f"{what}; later: {bad[0]}")


def explore(ctx):
    q = ctx.quick
    hists = [[["q", "p", "c"]], [], [["fill", "p", 9], ["q", "p", "w"], ["q", "p", "bad"]]]
    names = list(H.QUERIES) if not q else ["n", "c", "m", "bad", "badfind", "find", "findnone", "makefind"]
    names = [n for n in names if n[:2] not in ("no", "te", "wi")]
    _n = {}

    def none_of(h, n):
        if "FIND" not in H.QUERIES[n][1]:
            return False
        top, st = disaster.template(h)
        r = core.in_fork(sut.query, H.QUERIES[n][1], H.paths(top, disaster.NAME))
        shutil.rmtree(top, ignore_errors=True)
        return sut.no_results(r[2])

    def scenarios(hs, ns, kinds, cold, size, step=1):
        for h in hs:
            for n in ns:
                key = (repr(h), n, cold)
                if key not in _n:
                    _n[key] = (count(h, n, cold), none_of(h, n))
                total, none = _n[key]
                for kind in kinds:
                    for a in range(0, total, size * step):
                        yield {"hist": h, "query": n, "kind": kind, "cold": cold, "at": [a, min(total, a + size * step), step], "none": none}

    # counted here, once, and not in every worker
    list(scenarios(hists, names, ["KeyboardInterrupt"], False, 50))
    list(scenarios(hists[:1], ["c", "makefind"], ["KeyboardInterrupt"], True, 10))
    ctx.extra["calls"] = {f"{k[1]} after {k[0]}{' cold' if k[2] else ''}": v[0] for k, v in _n.items()}
    ctx.run_all("warm", lambda: scenarios(hists[: 2 if q else 3], names, ["KeyboardInterrupt"] if q else list(INTERRUPTS), False, 40), batch=1, bounds="every query is interrupted at every call that the code makes")
    ctx.run_all("memory", lambda: scenarios(hists[:1], ["c", "makefind"], ["MemoryError", "SystemExit"], False, 40), batch=1, bounds="and by lack of memory, and by the end of the program")
    ctx.run_all("cold", lambda: scenarios(hists[:1], ["c"] if q else ["c", "makefind"], ["KeyboardInterrupt"], True, 20, 5 if q else 1), batch=1, bounds="as the first query of a process (quick: every fifth call)")

    ctx.run_all("large", lambda: scenarios([[]], ["text270000"], ["KeyboardInterrupt"], False, 12, 5 if q else 1), batch=1, bounds="a query that stores a text of 270000 characters (quick: every fifth call)")

    def twice():
        for h in hists[:1]:
            for n in ["makefind"] if q else ["c", "m", "makefind", "find"]:
                total, none = _n.get((repr(h), n, False)) or (count(h, n, False), none_of(h, n))
                for b in range(0, total, 17 if q else 3):
                    for a in range(0, total, 60):
                        yield {"hist": h, "query": n, "kind": "KeyboardInterrupt", "cold": False, "at": [a, min(total, a + 60), 7 if q else 1], "again": b, "none": none}

    ctx.run_all("twice", twice, batch=1, bounds="interrupted, and interrupted again when it is repeated (quick: every seventh and every 17th call; else every and every third)")
