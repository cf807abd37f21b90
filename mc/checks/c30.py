"""C30: threads of one program that query at the same time do not harm each other.

The threads are real, but only one runs at a time. It may be stopped where Python can switch threads: when a function
of the repository starts, and when a call that the repository makes returns. All schedules with up to a number of
preemptions are run. A thread that waits for a lock is stopped until it is free.
"""
import _thread
import io
import os
import shutil
import sys
import threading
import time

from mc import core, disaster, locks, sut
from mc import history as H
from mc import model as M
from mc.checks import c18
from mc.core import Outcome, new_dir

ID = "C30"
PIN = True
RULE = "one evaluation per set of queries and part of its schedules; transitions count the schedules, states the distinct final states"
ASSUMPTIONS = ["Python switches threads where a function starts and where a call returns; in the code of the repository, not inside the libraries"]
ROOT = str(core.REPO.resolve()) + "/"
_known = {}


def ours(code):
    f = code.co_filename
    if f not in _known:
        _known[f] = os.path.realpath(f).startswith(ROOT)
    return _known[f]


def visible(f):
    """A call of the operating system."""
    m = getattr(f, "__module__", None)
    if f.__name__ == "fspath":
        return False
    return m in OS if m else type(getattr(f, "__self__", None)).__module__ == "_io"


OS = {"posix", "io", "_io", "fcntl", "_signal"}


class Out:
    """The standard output of every thread by itself."""

    def __init__(self, other):
        self.bufs, self.other = {}, other

    def _buf(self):
        return self.bufs.get(threading.get_ident(), self.other)

    def write(self, s):
        return self._buf().write(s)

    def flush(self):
        pass

    def __getattr__(self, name):
        return getattr(self._buf(), name)


class Threads:
    """Runs the functions as threads. devs: {position: thread} where a schedule differs from going on with the same thread."""

    def __init__(self, fns, devs=(), fine=True):
        self.fns, self.devs, self.fine = fns, dict(devs), fine
        n = len(fns)
        self.go = [_thread.allocate_lock() for _ in fns]
        for g in self.go:
            g.acquire()
        self.done = _thread.allocate_lock()
        self.done.acquire()
        self.state = ["ready"] * n  # ready, or a function that tries to get what the thread waits for, or "done"
        self.results = [None] * n
        self.ids = {}
        self.trace = []  # (the threads that could go on, the one that did before or None, the chosen)
        self.why = None
        self.places = {}
        self.naps = 0

    # -- in the threads
    def enabled(self):
        res = []
        for i, s in enumerate(self.state):
            if callable(s):
                if not s():
                    continue
                self.state[i] = "ready"
            elif s == "done":
                continue
            res.append(i)
        return res

    def choose(self, me, place=None):
        ready = self.enabled()
        if not ready:
            if any(callable(s) for s in self.state):
                self.why = f"the threads {[i for i, s in enumerate(self.state) if callable(s)]} wait for ever"
            self.done.release()
            if any(callable(s) for s in self.state):
                self.go[me].acquire()  # for ever
            return None
        current = me if me in ready else None
        k = len(self.trace)
        c = self.devs.get(k, current if current is not None else ready[0])
        if c not in ready:
            c = ready[0]
        if k in self.devs and place:
            self.places[k] = f"{me} at {place} -> {c}"
        self.trace.append((ready, current, c))
        return c

    def switch(self, me, place=None):
        c = self.choose(me, place)
        if c is not None and c != me:
            self.go[c].release()
            if self.state[me] != "done":
                self.go[me].acquire()

    def wait(self, me, attempt):
        """The thread cannot go on before the attempt succeeds."""
        if not attempt():
            self.state[me] = attempt
            self.switch(me)

    def profile(self, me):
        fine = self.fine
        ops = fine == "ops"

        def p(frame, event, arg):
            if frame.f_code.co_filename in (__file__, locks.__file__):
                return
            if event == "call":
                if not ops and ours(frame.f_code):
                    self.switch(me, frame.f_code.co_name)
            elif event == "c_call":
                # the locks of the import of modules
                if arg.__name__ == "acquire" and isinstance(getattr(arg, "__self__", None), _thread.LockType):
                    lock = arg.__self__

                    def attempt():
                        if lock.acquire(False):
                            lock.release()
                            return True
                        return False

                    self.wait(me, attempt)
            elif ops:
                if event == "c_return" and visible(arg):
                    self.switch(me, f"return of {arg.__name__} in {frame.f_code.co_name}")
            elif event == "return":
                if fine and frame.f_back and ours(frame.f_back.f_code):
                    self.switch(me, f"return of {frame.f_code.co_name} in {frame.f_back.f_code.co_name}")
            elif event == "c_return":
                if (fine or arg.__name__ in ("open", "read", "write", "replace", "fsync", "close", "load", "loads", "dumps")) and ours(frame.f_code):
                    self.switch(me, f"return of {arg.__name__} in {frame.f_code.co_name}")

        return p

    def nap(self, me):
        """Lets another thread go on, if one can."""
        self.naps += 1
        if self.naps > 3000:
            self.why = "waits for ever in small steps"
            self.done.release()
            self.go[me].acquire()
        others = [i for i in self.enabled() if i != me]
        if others:
            self.go[others[0]].release()
            self.go[me].acquire()

    def body(self, i):
        self.go[i].acquire()
        self.ids[threading.get_ident()] = i
        sys.setprofile(self.profile(i))
        try:
            self.results[i] = (True, self.fns[i]())
        except BaseException as e:  # noqa
            self.results[i] = (False, f"{type(e).__name__}: {e}")
        sys.setprofile(None)
        self.state[i] = "done"
        del self.ids[threading.get_ident()]
        self.switch(i)

    # -- in the main thread
    def run(self):
        locks.current = self
        for i in range(len(self.fns)):
            _thread.start_new_thread(self.body, (i,))
        c = self.choose(None)
        self.go[c].release()
        if not self.done.acquire(timeout=40):
            self.why = self.why or "a thread does not end"
        locks.current = None
        return self.results, self.why


def job(folder, queries, out):
    def f():
        res = []
        for k, name in queries:
            buf = io.StringIO()
            out.bufs[threading.get_ident()] = buf
            g = H.paths(folder, name)
            try:
                sut._query(H.QUERIES[k][1], g)
                res.append((True, None, buf.getvalue()))
            except Exception as e:
                res.append((False, f"{type(e).__name__}: {e}", buf.getvalue()))
        return res

    return f


def run(scn):
    return core.in_fork(child, scn, timeout=400)


def child(scn):
    o = Outcome()
    top, st = disaster.template(scn["hist"])
    if not scn.get("cold"):
        disaster.warm()
    dbs = scn.get("dbs") or [disaster.NAME]
    for n in dbs[1:]:
        shutil.copytree(top / dbs[0], top / n)
        for f in (top / n).iterdir():
            f.rename(f.with_name(f.name.replace(f"_{dbs[0]}.", f"_{n}.")))
    parts, n = scn.get("part", [0, 1])
    if "schedule" in scn:
        one(o, top, st, scn, [tuple(x) for x in scn["schedule"]])
        return o
    bound, k = scn["bound"], 0
    stack = [()]
    step = scn.get("step", 1)
    while stack:
        devs = stack.pop()
        if scn.get("cold"):
            r = core.in_fork(cold, top, st, scn, devs)
            t, o2 = r
            o.violations += o2.violations
            o.states |= o2.states
            o.distinct |= o2.distinct
            o.transitions += o2.transitions
            o.validated += o2.validated
        else:
            t = one(o, top, st, scn, devs)
        if o.violations:
            return o
        pre = sum(1 for p, c in devs if t[p][1] is not None and t[p][1] != c)
        for p in range((devs[-1][0] + 1) if devs else 0, len(t)):
            ready, current, chosen = t[p]
            for a in ready:
                if a == chosen or pre + (current is not None) > bound:
                    continue
                if not pre and current is not None:
                    # the first preemption divides the work; every part runs the schedules without one
                    k += 1
                    if k % n != parts or (k // n) % step:
                        continue
                stack.append(devs + ((p, a),))
    shutil.rmtree(top, ignore_errors=True)
    return o


def cold(top, st, scn, devs):
    o = Outcome()
    t = one(o, top, st, scn, devs)
    return t, o


def one(o, top, st, scn, devs):
    d = disaster.clone(top)
    threads = scn["threads"]
    dbs = scn.get("dbs") or [disaster.NAME]
    old = sys.stdout
    sys.stdout = out = Out(old)
    t = Threads([job(d, [(q, dbs[j]) for q, j in th], out) for th in threads], devs, scn.get("fine", True))
    try:
        results, why = t.run()
    finally:
        sys.stdout = old
    o.transitions += 1
    o.validated += 1
    before, used = st.dbs[disaster.NAME]["last"], st.dbs[disaster.NAME]["used"]
    bad = [why] if why else []
    for i, r in enumerate(results):
        if not bad and (r is None or not r[0]):
            bad = [f"thread {i} died: {r}"]
    for j, name in enumerate(dbs):
        if bad:
            break
        procs = [[q for q, x in th if x == j] for th in threads]
        rs = [(True, [r for (q, x), r in zip(th, res[1]) if x == j]) for th, res in zip(threads, results)]
        total = sum(len(p) for ps in procs for q in ps for p in H.QUERIES[q][2])
        bad = judge(o, d, before, used, procs, rs, total, name)
    if bad:
        o.bad(f"{bad[0]} with the queries {threads} in threads switched at {list(t.places.values())} {devs}")
    shutil.rmtree(d, ignore_errors=True)
    return t.trace


_serial = {}


def judge(o, d, before, used, procs, results, total, name):
    key = repr((before.key(), procs))
    if key not in _serial:
        _serial[key] = c18.serial(before, procs)
    printed, inflight = {}, []
    for i, (qs, r) in enumerate(zip(procs, results)):
        for k, (q, (ok, err, out)) in enumerate(zip(qs, r[1])):
            if ok != (H.QUERIES[q][0] != "bad"):
                return [f"query {q} of thread {i} is {'accepted' if ok else 'refused: ' + str(err)}"]
            if q in c18.NEEDS:
                printed[(i, k)] = sut.no_results(out)
            elif out.strip():
                return [f"query {q} of thread {i} prints {out!r}"]
            if ok:
                inflight.append(H.QUERIES[q][2])
    bad, db, opt = disaster.check_state(d, before, used, inflight, tuple(range(len(inflight))), name)
    if bad:
        return bad
    if db.next != before.next + total:
        return [f"the next number is {db.next} after {before.next} and {total} nodes and relationships"]
    bad = db.index_errors()
    if bad:
        return bad
    if tuple(sorted(printed.items())) not in _serial[key]:
        return [f"the FINDs print {printed}, the serial orders explain {_serial[key]}"]
    o.states.add(db.key())
    o.distinct.add((db.key(), tuple(sorted(printed.items()))))
    return []


H0 = []
H1 = [["q", "p", "c"], ["q", "p", "bad"]]


def explore(ctx):
    q = ctx.quick

    def sets(cfgs, bound, n, **more):
        def gen():
            for h, threads in cfgs:
                dbs = sorted({x[1] for t in threads for x in t if not isinstance(x, str)})
                ts = [[[x, 0] if isinstance(x, str) else [x[0], dbs.index(x[1])] for x in t] for t in threads]
                for i in range(n):
                    yield {"hist": h, "threads": ts, "bound": bound, "part": [i, n], **({"dbs": [disaster.NAME] + [f"d{x}" for x in dbs[1:]]} if len(dbs) > 1 else {}), **more}

        return gen

    names = ["n", "c", "m", "bad", "find", "findnone", "makefind", "r"]
    pairs = [["n", "r"], ["c", "m"], ["m", "find"], ["makefind", "findnone"], ["bad", "c"], ["find", "findnone"]]
    if not q:
        pairs = [[a, b] for i, a in enumerate(names) for b in names[i:]]
    two = [(H1 if i % 2 else H0, [[a], [b]]) for i, (a, b) in enumerate(pairs)]
    ctx.run_all("two", sets(two, 1, 8), batch=1, bounds="two threads, all schedules with up to 1 preemption at every call and return")
    other = [(H1, [[("c", 0)], [("m", 1)]]), (H0, [[("makefind", 0)], [("findnone", 1)]])]
    if not q:
        other += [(H0, [[(a, 0)], [(b, 1)]]) for a, b in pairs[::3]] + [(H1, [[("n", 0), ("m", 1)], [("c", 1), ("find", 0)]])]
    ctx.run_all("other", sets(other, 1, 8), batch=1, bounds="two threads on two databases, all schedules with up to 1 preemption at every call and return")
    seen = [(H1, [[("n", 0)], [("r", 1)]]), (H0, [[("makefind", 0)], [("findnone", 1)]])]
    if not q:
        seen.append((H1, [["r"], ["find"]]))
        seen += [(H0, [[(a, 0)], [(b, 1)]]) for a, b in pairs] + [(H1, [[a], [b]]) for a, b in pairs]
    ctx.run_all("visible", sets(seen, 2, 16, fine="ops"), batch=1, bounds="two threads on one database and on two, all schedules with up to 2 preemptions at the calls of the operating system")
    deep = [(H1, [["c"], ["makefind"]])]
    if not q:
        deep += [(H0, [["m"], ["r"]]), (H1, [["find"], ["c"]]), (H0, [["bad"], ["m"]])]
    ctx.run_all("deep", sets(deep, 2, 32, fine=False, **({"step": 20} if q else {})), batch=1, bounds="two threads, schedules with up to 2 preemptions at the starts of functions and at file operations" + (" (every twentieth first preemption)" if q else ""))
    three = [(H1, [["m"], ["n"], ["find"]])]
    if not q:
        three += [(H0, [["c"], ["bad"], ["makefind"]]), (H0, [["n", "find"], ["r"], ["c"]])]
    ctx.run_all("three", sets(three, 1, 8, fine=False), batch=1, bounds="three threads, all schedules with up to 1 preemption at the starts of functions and at file operations")
    ctx.run_all("cold", sets([(H0, [["c"], ["m"]])] if q else [(H0, [["c"], ["m"]]), (H1, [["find"], ["makefind"]])], 1, 8, cold=True, fine=False, **({"step": 3} if q else {})), batch=1, bounds="the first queries of a process" + (" (every third first preemption)" if q else ""))
