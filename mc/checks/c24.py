"""C24: every query is answered, in a time that its length explains.

Texts that are built by repeating something are given to the real code under a limit of processor time, and of real
time. A regular expression that tries every way to split a text, or a loop that does not advance, exceeds it.
"""
import itertools
import signal
import time

from mc import sut
from mc.core import Outcome, new_dir

ID = "C24"
RULE = "every text of the enumeration is given to the real query function under a limit of processor time and real time"
ASSUMPTIONS = ["the limit is some hundred times what the slowest text of the enumeration takes; it finds exponential and cubic growth, and loops, and not small differences of speed"]

CPU, REAL = 6.0, 60.0


class Late(BaseException):
    pass


def alarm(*a):
    raise Late()


def run(scn):
    o = Outcome()
    parts = scn["t"]
    text = "".join(x if n == 1 else x * n for x, n in parts)
    g = sut.create("db", new_dir()) if scn.get("db") else _db()
    for q in scn.get("before", []):
        sut.query(q, g)
    old = signal.signal(signal.SIGVTALRM, alarm), signal.signal(signal.SIGALRM, alarm)
    t0, r0 = time.process_time(), time.time()
    signal.setitimer(signal.ITIMER_VIRTUAL, CPU)
    before = signal.setitimer(signal.ITIMER_REAL, REAL)
    late = False
    try:
        ok, err, out = sut.query(text, g)
    except Late:
        late, ok, err = True, None, None
    finally:
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)
        signal.setitimer(signal.ITIMER_REAL, max(1, before[0] - (time.time() - r0)) if before[0] else 0)
        signal.signal(signal.SIGVTALRM, old[0])
        signal.signal(signal.SIGALRM, old[1])
    t, r = time.process_time() - t0, time.time() - r0
    o.transitions += 1
    o.validated += 1
    o.states.add(repr(parts))
    o.distinct.add((ok, (err or "").split(":")[0], late))
    if late:
        o.bad(f"no answer after {t:.1f} s of processor time and {r:.1f} s, to {len(text)} characters: {[(x, n) for x, n in parts]}")
    elif err and err.startswith(("RecursionError", "MemoryError")) and len(text) < 20000:
        o.bad(f"{err} for {len(text)} characters: {parts}")
    if ok and not scn.get("db"):
        _dbs.clear()
    return o


_dbs = []


def _db():
    if not _dbs:
        _dbs.append(sut.create("db", new_dir()))
    return _dbs[0]


T = ["(", ")", ":", "A", "a", ",", "{", "}", "[", "]", "-[", "]->", "<-[", "]-", "'", '"', "1", " ", "\n", ".", ";", "i: 1", "(:A)", "{i: 1}", "MAKE ", "FIND ", "-", "R", "_", "null", "1.", ", ", "x: ", "_1", "REPORT ", "@", "é", "<", "'a'", "\t"]
PRE = ["", "MAKE ", "MAKE (", "MAKE (:A", "MAKE (:A {i: ", "MAKE (:A {i: [", "MAKE (:A {i: '", "MAKE (:A)-[:R", "MAKE (:A)-[:R]->(:B", "FIND (a:A); REPORT ", "FIND (:A)", "MAKE (:A {"]
SUF = ["", "!", ";", ");", "};", "'});", "]});", "]->(:B);"]


def explore(ctx):
    q = ctx.quick

    def one():
        for p, t, s in itertools.product(PRE, T, SUF):
            for n in (25, 1200) if q else (25, 300, 1200, 2500):
                yield {"t": [[p, 1], [t, n], [s, 1]]}

    ctx.run_all("one", one, batch=50, bounds=f"{len(PRE)} beginnings x {len(T)} parts repeated {'25 and 1200' if q else '25, 300, 1200 and 2500'} times x {len(SUF)} ends")

    def two():
        for p, s in itertools.product(PRE, SUF):
            for t in itertools.product(T, repeat=2):
                yield {"t": [[p, 1], ["".join(t), 28], [s, 1]]}

    ctx.run_all("two", two, batch=400, bounds=f"every two of {len(T)} parts, repeated 28 times")

    def runs():
        few = ["(", "A", "a", "1", " ", "\n", ":", ",", "-", "'", '"', "{", "[", ".", "x: ", ";"]
        for p, s in itertools.product(PRE, SUF):
            for a, b in itertools.product(few if q else T, repeat=2):
                if a != b:
                    yield {"t": [[p, 1], [a, 120], [b, 120], [s, 1]]}
            if not q:
                for a, b, c in itertools.product(few, repeat=3):
                    if len({a, b, c}) == 3:
                        yield {"t": [[p, 1], [a, 60], [b, 60], [c, 60], [s, 1]]}

    ctx.run_all("runs", runs, batch=200, bounds="two runs of 120 one after another")

    if not q:

        def three():
            for p, s in itertools.product(PRE, SUF):
                for t in itertools.product(T[::2] + ["'", "a", "1"], repeat=3):
                    yield {"t": [[p, 1], ["".join(t), 26], [s, 1]]}

        ctx.run_all("three", three, batch=400, bounds="every three parts of 23, repeated 26 times")

    GOOD = [
        ["MAKE", " ", "(", "a", ":", "A", " ", "{", "i", ":", " ", "1", ",", " ", "s", ":", " ", "'", "x", " y", "'", "}", ")", "-[", "r", ":", "R", "]->", "(", ":", "B", ")", ";"],
        ["MAKE", " ", "(", ":", "A", "{", "l", ": ", "[", "1", ", ", "'x'", ", ", "2.5", ", ", "null", "]", "}", ")", "<-[", ":", "R", " {", "f", ": ", "3.14", "}", "]-", "(", ":", "B", ")", ",", " ", "(", ":C", ")", ";"],
        ["FIND", " ", "(", "a", ":", "A", ")", "-[", "r", ":", "R", "]->", "(", "b", ":", "B", " {", "e", ": ", '"', "a@b.c", '"', "}", ")", ";", " ", "REPORT", " ", "a", ".", "i", ", ", "wn", "(", "r", ")", ";"],
    ]

    def inside():
        # every part of a correct query repeated, and every part followed by many of something else
        for g in GOOD:
            for i in range(len(g)):
                for n in (30, 500):
                    yield {"t": [["".join(g[:i]), 1], [g[i], n], ["".join(g[i + 1 :]), 1]]}
                    yield {"t": [["".join(g[:i]), 1], [g[i], n], ["!", 1]]}
                for t in T:
                    for n in (30, 300):
                        yield {"t": [["".join(g[:i]), 1], [t, n], ["".join(g[i:]), 1]]}
            for i, j in itertools.combinations(range(len(g) + 1), 2):
                # every stretch of a correct query repeated
                for e in ("".join(g[j:]), "", "!", ";"):
                    yield {"t": [["".join(g[:i]), 1], ["".join(g[i:j]), 30], [e, 1]]}

    ctx.run_all("inside", inside, batch=100, bounds="three correct queries: every part and every stretch repeated, and every part repeated at every place")

    def broken():
        # a mistake in a correct query - a part that is missing, or another in its place - and a run of something
        for g in GOOD:
            for i in range(len(g)):
                for r in ("", ">", "-", "]") if q else ("", ">", "<", "-", "]", "[", "(", ")", "{", "}", "'", ":", ","):
                    if r == g[i]:
                        continue
                    h = g[:i] + [r] + g[i + 1 :]
                    for k in range(len(h)):
                        for t in (" ", "a", "1 ") if q else (" ", "\n", "a", "1", "1 ", "x: ", ", ", "'", "-"):
                            yield {"t": [["".join(h[:k]), 1], [t, 100], ["".join(h[k:]), 1]]}

    ctx.run_all("broken", broken, batch=100, bounds="three correct queries: one part missing or another in its place, and a run of 100 at every place")

    def big():
        # large correct queries and databases
        for n in (100, 400) if q else (100, 400, 1000):
            yield {"t": [["MAKE (:A {i: 1, s: 'x y'})-[:R]->(:B);\n", n]], "db": 1}
            yield {"t": [["MAKE (:A)", 1], [", (:A {i: 1})<-[:R]-(:B)", n], [";", 1]], "db": 1}
            yield {"t": [["FIND (:A)", 1], [", (:A {i: 1})<-[:R]-(:B)", n], [";", 1]], "db": 1}
            yield {"t": [["MAKE (:A {l: [1", 1], [", 'x y', 2.5, null", n], ["]});", 1]], "db": 1}
            yield {"t": [["MAKE (:A {s: '", 1], ["x y_z@a.b ", n], ["'});", 1]], "db": 1}
            yield {"t": [["FIND (a:A); REPORT a", 1], [", a.i, wn(a)", n], [";", 1]], "db": 1}
            for last in ("FIND (:A)-[:R]->(:B);", "MAKE (:A)-[:R]->(:B);", "FIND (:Nope);"):
                yield {"t": [[last, 1]], "before": ["MAKE " + ", ".join(["(:A)-[:R]->(:B)"] * n) + ";"] * 3, "db": 1}

    ctx.run_all("big", big, batch=1, bounds=f"correct queries with up to {400 if q else 1000} patterns, values or handles, and databases of as many nodes")
