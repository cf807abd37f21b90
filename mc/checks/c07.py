"""C07: FIND prints 'No results' exactly when the graph lacks a label or a relationship name."""
import itertools

from mc import history as H
from mc import model as M
from mc import sut
from mc import words as W
from mc.core import Outcome, new_dir

ID = "C07"
RULE = "every FIND of the enumeration is run on every graph of the list; 'No results' is compared with the labels and names that the model of the graph holds"
ASSUMPTIONS = ["a FIND of several patterns lacks what any of its patterns lacks"]


def n(l):
    return ["", l, None]


def r(name, d):
    return ["", name, None, d]


def pat(spec):
    """'A>R>B<S<C' is (:A)-[:R]->(:B)<-[:S]-(:C); '_' is no name."""
    import re

    t = re.split(r"([<>])", spec)
    p = [n(t[0])]
    for i in range(1, len(t), 4):
        p += [r(t[i + 1].replace("_", ""), t[i]), n(t[i + 3 - 0])]
    return p


# each graph: a list of steps (MAKE statements lists, or another text), on the database p; 'q:' is another database
GRAPHS = [
    [],
    [["A"]],
    [["A"], ["B"]],
    [["A", "B>R>C"]],
    [["A>R>B"], ["B<S<A"]],
    [["A>_>B"]],
    [["A>_>A<R<B"]],
    [["A<R<B>S>C"]],
    [["R>A>S"]],
    [["AB>RS>BA"]],
    [["A"], "MAKE (:B)-[:R]->(:C); MAKE (:D {i: });"],
    [["B>S>B"], "MAKE (:A)-[:R]->(:C), (:A {x: True});", ["B"]],
    [["A"], "q:MAKE (:B)-[:R]->(:C)-[:S]->(:A);"],
    ["q:MAKE (:A)-[:R]->(:B);", ["C"]],
    [["B>R>B"], "FIND (:A)-[:R]->(:C);", ["B"]],
    [["A", "A", "B"], ["A>R>A"], ["A>R>B"], ["C"]],
    [["A", "B"], "recreate"],
    [["A>R>B"], "recreate", ["C>S>C"]],
    [["a", "b>R>A"]],
    [["A>S>B>S>C"], ["Report>FIND>Make"]],
    [["A>R>C"], "FIND (:A)-[:R]->(:C);", "recreate", ["B>S>D"]],
    [["A>R>C"], "FIND (:A)-[:R]->(:C);", "recreate", "FIND (:A)-[:R]->(:C);", ["B>S>D"]],
    ["FIND (:A)-[:R]->(:B);", ["B"], "FIND (:A)-[:R]->(:B);", "q:FIND (:B);", ["C>S>C"]],
]


def makes(step):
    return [pat(x) for x in step]


_cache = {}


def build(gi):
    if gi in _cache:
        return _cache[gi]
    folder = new_dir()
    g, q = sut.create("p", folder), sut.create("pq", folder)
    ps, problem = [], None
    for step in GRAPHS[gi]:
        if step == "recreate":
            import io

            with sut.captured(io.StringIO()):
                sut.S.delete_gdbms("p", folder)
            g, ps = sut.create("p", folder), []
        elif isinstance(step, list):
            ok, err, out = sut.query(M.stmt_text("MAKE", makes(step)), g)
            if not ok:
                problem = f"{step} refused: {err}"
            ps += makes(step)
        elif step.startswith("q:"):
            sut.query(step[2:], q)
        else:
            sut.query(step, g)
    _cache[gi] = (g, M.labels(ps), M.names(ps), problem)
    return _cache[gi]


def run(scn):
    o = Outcome()
    if scn.get("fresh"):
        _cache.clear()
    g, labels, names, problem = build(scn["g"])
    if problem:
        o.bad(problem)
        return o
    ps = scn["find"]
    text = M.stmt_text("FIND", ps)
    made = scn.get("make")
    if made:
        mt = M.stmt_text("MAKE", made)
        text = mt + " " + text if scn["first"] == "make" else text + " " + mt
        labels, names = labels | M.labels(made), names | M.names(made)
        _cache.pop(scn["g"])
    text += scn.get("report", "")
    want = not (M.labels(ps) <= labels and M.names(ps) <= names)
    ok, err, out = sut.query(text, g)
    o.transitions += 1
    o.validated += 1
    o.states.add((scn["g"], text))
    o.distinct.add((ok, out.strip()[:60], want))
    if not ok and scn.get("free"):
        o.distinct.add("refused")
    elif not ok:
        o.bad(f"{text!r} on graph {GRAPHS[scn['g']]} failed: {err}")
    elif sut.no_results(out) != want:
        o.bad(f"{text!r} on graph {GRAPHS[scn['g']]} printed {out!r}, expected {'No results' if want else 'nothing like No results'}")
    elif out.lower().count("no results") > 1:
        o.bad(f"{text!r} on graph {GRAPHS[scn['g']]} printed {out!r}")
    return o


def patterns(labels, names, maxrel=2):
    for k in range(maxrel + 1):
        for d in itertools.product("><", repeat=k):
            for ls in itertools.product(labels, repeat=k + 1):
                for ns in itertools.product(names, repeat=k):
                    p = [n(ls[0])]
                    for i in range(k):
                        p += [r(ns[i], d[i]), n(ls[i + 1])]
                    yield p


def explore(ctx):
    q = ctx.quick
    labels = ["A", "B", "Nope", "R"] if q else ["A", "B", "C", "Nope", "R", "a", "AB"]
    names = ["R", "S", "", "NONE"] if q else ["R", "S", "", "NONE", "A", "RS"]

    def single():
        for gi in range(len(GRAPHS)):
            for k, p in enumerate(patterns(labels, names, 1 if q else 2)):
                yield {"g": gi, "find": [p]}

    ctx.run_all("patterns", single, batch=700, bounds=f"{len(GRAPHS)} graphs x all patterns of up to {2 if q else 3} nodes over {len(labels)} labels and {len(names)} names")

    def three():
        for gi in (4, 6, 7, 8, 13, 15):
            for p in patterns(["A", "B", "Nope"], ["R", "", "NONE"], 2):
                yield {"g": gi, "find": [p]}

    ctx.run_all("three nodes", three, batch=700, bounds="6 graphs x all three node patterns over 3 labels and 3 names")

    def one_missing():
        for gi in (3, 7, 15, 18):
            for k in range(3):
                for d in itertools.product("><", repeat=k):
                    for pos in range(2 * k + 2):
                        for l, m in (("A", "R"), ("C", "R"), ("B", "")):
                            for miss in ("Nope", "c", "BA", "A1") if True else ():
                                p = [n(l)]
                                for i in range(k):
                                    p += [r(m, d[i]), n(l)]
                                if pos < len(p):
                                    p[pos] = n(miss) if pos % 2 == 0 else r(miss.upper() + "X", p[pos][3])
                                for rep in ("", " REPORT *;"):
                                    yield {"g": gi, "find": [p], "report": rep}

    ctx.run_all("one missing", one_missing, batch=300, bounds="one unknown label or name at every position of every shape, with and without REPORT")

    def several():
        small = [pat(x) for x in ("A", "B", "Nope", "A>R>B", "B<NONE<A", "A>_>Nope", "A<R<B>S>C")]
        for gi in (0, 3, 4, 7, 15):
            for m in (2, 3):
                for ps in itertools.product(small, repeat=m):
                    yield {"g": gi, "find": list(ps)}

    ctx.run_all("several patterns", several, batch=300, bounds="FINDs of 2 and 3 patterns")

    def with_make():
        ms = [[pat(x)] for x in ("A", "Nope", "A>R>B", "Nope<NONE<A", "A>_>B")] + [[pat("B"), pat("A>S>C<R<D")]]
        for gi in (0, 1, 4, 7, 11, 16):
            for m in ms:
                for p in patterns(["A", "Nope", "D"], ["R", "", "NONE"], 1):
                    for first in ("make", "find"):
                        yield {"g": gi, "find": [p], "make": m, "first": first}

    ctx.run_all("with make", with_make, batch=150, bounds="MAKE and FIND in one query, in both orders")

    def many():
        for m in (1, 2, 5, 9, 17, 33, 65) if q else range(1, 100):
            ls = [f"L{i}" for i in range(m)]
            made = [[n(l)] for l in ls] + [[n(ls[i]), r(f"R{i}", "><"[i % 2]), n(ls[0])] for i in range(m)]
            for i in range(m):
                for f in ([n(ls[i])], [n(ls[0]), r(f"R{i}", ">"), n(ls[i])], [n(f"L{i}x")], [n(ls[i]), r(f"R{i}X", "<"), n(ls[0])]):
                    yield {"g": 0, "find": [f], "make": made, "first": "make"}
                    yield {"g": 4, "find": [[n("A")]] * i + [f] + [[n("A")]] * (m - i), "make": made, "first": "make"}

        for m in (1000, 3000) if q else (1000, 3000, 10000):
            # a database with very many labels and names
            made = [[n(f"L{i}"), r(f"R{i}", "><"[i % 2]), n(f"M{i}")] for i in range(m)]
            for f in ([n("L0")], [n(f"M{m - 1}")], [n(f"L{m // 2}"), r(f"R{m // 2}", ">"), n("M1")], [n(f"L{m}")], [n("L1"), r(f"R{m}", ">"), n("L1")], [n("L1"), r(f"R{m - 1}", ">"), n("L1")], [n("L1"), r("R0", ">"), n("L")]):
                yield {"g": 0, "find": [f], "make": made, "first": "make"}
            yield {"g": 0, "find": [[n(f"L{m - i - 1}"), r(f"R{i}", ">"), n(f"M{i}")] for i in range(300)], "make": made, "first": "make"}
            yield {"g": 0, "find": [[n(f"L{m - i}"), r(f"R{i}", ">"), n(f"M{i}")] for i in range(300)], "make": made, "first": "make"}

        for k in (1001,) if q else (301, 1001, 2001):
            made = [[n(f"L{i}"), r(f"R{i}", "><"[i % 2]), n(f"M{i}")] for i in range(k)]
            for good, last in itertools.product((True, False), ([n("L0")], [n(f"L{k}")], [n("L0"), r("R0", ">"), n("M0")], [n("L0"), r(f"R{k}", ">"), n("M0")])):
                yield {"g": 0, "find": [[n(f"L{i if good else i + k}")] for i in range(k - 1)] + [last], "make": made, "first": "make"}

    ctx.run_all("many", many, batch=20, bounds="every one of up to 65 labels and names, some of 3000, and every place among up to 66 patterns of a FIND, the last of 1001")

    def alike():
        ws = ["A", "AA", "a", "A1", "A_", "_A", "AB", "BA", "R", "No", "none", "null", "results", "node_labels", "x" * 30, "x" * 31, "FIND", "Make"]
        ns = ["R", "RR", "R_", "R_1", "A", "RS", "SR", "NONE", "NULL", "X" * 30, "X" * 31, "MAKE", "NODE_LABELS"]
        v = lambda w: w if w.lower() not in ("none", "null") else w + "s"  # noqa
        for x, y in itertools.product(ws, repeat=2):
            for hs, ps in (("", None), (y, [[y, repr(v(y)), v(y)]])):
                # what is stored carries the word that is asked for as handle, property name and value
                m = [[hs, x, ps], ["", "Q", ps, ">"], ["", "Z", ps]]
                yield {"g": 0, "find": [[n(y)]], "make": [m], "first": "make"}
                yield {"g": 4, "find": [[[x, y, [[x, repr(v(x)), v(x)]]], r("", "<"), n("Z")]], "make": [m], "first": "make"}
        for x, y in itertools.product(ns, repeat=2):
            for hs, ps in (("", None), (y, [[y, repr(v(y)), v(y)]])):
                m = [["", "L", ps], [hs, x, ps, "<"], ["", y if x != y else "Z", ps]]
                yield {"g": 0, "find": [[n("L"), r(y, ">"), n("L")]], "make": [m], "first": "make"}
                yield {"g": 4, "find": [[["", "L", None], [x, y, [[x, repr(v(x)), v(x)]], "<"], n("L")]], "make": [m], "first": "find"}

    ctx.run_all("alike", alike, batch=30, bounds="every pair of 18 labels and of 13 names that are like each other, one stored and one asked for")

    def alike2():
        def scn(made, find, words):
            return {"g": 0, "find": [find], "make": [made], "first": "make", "free": not all(w.isascii() for w in words)}

        def with_number(w):
            return w[0].isascii() and not w[0].isdigit()

        for x, y in [*W.pairs(), *W.long_pairs(lengths=(15, 16, 31, 32, 63, 64, 127, 128, 255, 256, 511, 512) if q else range(1, 600))]:
            if not (with_number(x) and with_number(y)):
                continue
            yield scn([n(x)], [n(y)], (x, y))
            yield scn([n("A"), r("", ">"), n(x)], [n(y), r("", "<"), n("A")], (x, y))
            yield scn([n(x), r("R", ">"), n(y)], [n(y), r("", "<"), n(x)], (x, y))
        for x, y in W.name_pairs():
            yield scn([n("A"), r(x, ">"), n("B")], [n("A"), r(y, ">"), n("B")], (x, y))
            yield scn([n("A"), r(x, ">"), n("B"), r(y, "<"), n("C")], [n("A"), r(y, ">"), n("B")], (x, y))
            yield scn([n("A"), r("R", ">"), n("B"), r(x, "<"), n("C")], [n("A"), r("R", ">"), n("B"), r(y, ">"), n("C")], (x, y))

    ctx.run_all("alike 2", alike2, batch=30, bounds=f"{2 * len(W.ALIKE)} pairs of labels and names that are almost the same, and long ones that differ in one letter")

    def histories():
        alpha = [["q", "p", x] for x in ("n", "r", "c", "badprop")] + [["q", "pq", "m"], ["recreate", "p"], ["restart"]]
        finds = ["A", "A>R>B", "C<S<A", "X>Q>Y", "B>_>E"]
        for k in range(1, 4 if q else 5):
            for t in itertools.product(alpha, repeat=k):
                if t[0] == ["restart"] or t[-1] == ["restart"]:
                    continue
                for f in finds if k < 3 or not q else finds[:3]:
                    ops = []
                    for x in t:
                        ops += [x, ["f", "p", f]] if x[0] != "restart" else [x]
                    yield {"ops": [["new", "p"], ["new", "pq"], *ops]}

    ctx.run_all("histories", histories, batch=20, run=run_hist, bounds=f"a FIND after every step of all histories of up to {3 if q else 4} of 7 operations")


class Finder:
    def begin(self, st):
        pass

    def before(self, st, op):
        pass

    def after(self, st, op, g, before, after, ok, out):
        if op[2] in FINDS:
            ps = FINDS[op[2]]
            labels, names = {x[0] for x in after.nodes.values()}, {x[0] for x in after.rels.values() if x[0]}
            want = not (M.labels(ps) <= labels and M.names(ps) <= names)
            if not ok or sut.no_results(out) != want:
                yield "find", f"{M.stmt_text('FIND', ps)} printed {out!r} ({ok}), expected {'No results' if want else 'no such thing'}"


FINDS = {}


def run_hist(scn):
    ops = []
    for op in scn["ops"]:
        if op[0] == "f":
            name = "F:" + op[2]
            FINDS[name] = [pat(op[2])]
            H.QUERIES[name] = ("find", M.stmt_text("FIND", FINDS[name]), [])
            op = ["q", op[1], name]
        ops.append(list(op))
    return H.run_history(ops, {"find", "accept"}, Finder())


_run = run


def run(scn):  # noqa
    return run_hist(scn) if "ops" in scn else _run(scn)
