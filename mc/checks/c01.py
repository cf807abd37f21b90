"""C01: what a MAKE stores is the graph that its text describes (up to the choice of numbers)."""
import itertools

from mc import model as M
from mc import sut
from mc import words as W
from mc.core import Outcome, new_dir

ID = "C01"
LEVEL = "model_checking"
RULE = "every query of the grids below is executed by the real query function on a database of its own (empty or filled); distinct by the graph stored"
ASSUMPTIONS = ["graphs are compared up to the choice of numbers (C04 decides the numbers)", "labels, names and values from small alphabets and a dictionary of words"]

DIRS = "><"
SHAPES = [()] + [(d,) for d in DIRS] + [(a, b) for a in DIRS for b in DIRS]

PRE = ["MAKE (:A {z: 1})-[:R]->(:B), (:L0);", "MAKE (:C)<-[:S {q: 'x'}]-(:A);"]


def run(scn):
    o = Outcome()
    g = sut.create("db", new_dir())
    for q in scn.get("pre", []):
        ok, err, _ = sut.query(q, g)
        if not ok:
            o.bad(f"refused {q!r}: {err}")
            return o
    try:
        before = sut.Db(g)
        patterns = [p for st in scn["stmts"] for p in st]
        parts = [M.stmt_text("MAKE", st) for st in scn["stmts"]]
        if scn.get("find"):
            parts.insert(scn["find"][0], scn["find"][1])
        text = "\n".join(parts)
        ok, err, out = sut.query(text, g)
        o.transitions += 1
        if not ok:
            o.bad(f"refused {text!r}: {err}")
            return o
        after = sut.Db(g)
        d = sut.diff(before, after)
        if d is None:
            o.bad(f"{text!r} changed what was stored before")
            return o
        got = sut.canon_graph(d[0], [r[:4] for r in d[1].values()])
    except sut.Corrupt as e:
        o.bad(f"{scn}: {e}")
        return o
    want = M.canon(patterns)
    o.validated += 1
    o.states.add(got)
    o.distinct.add(got)
    if got != want:
        o.bad(f"{text!r} stored {got}, described {want}")
    bad = after.integrity()
    if bad:
        o.bad(f"{text!r}: {bad}")
    return o


def pattern(shape, labels, names, props, handles):
    """Builds a pattern from per position choices."""
    n = len(shape) + 1
    p = []
    for i in range(n):
        p.append([handles[i], labels[i], props[i]])
        if i < n - 1:
            p.append([handles[n + i], names[i], props[n + i], shape[i]])
    return p


def pr(i):
    return [["p", str(i), i]]


def grid_attributes(full):
    """One pattern: labels x names x presence of props x presence of handles, per shape."""
    for shape in SHAPES:
        n = len(shape) + 1
        m = n + len(shape)
        labels = list(itertools.product(["A", "B", "L0"][: 3 if full else 2], repeat=n))
        names = list(itertools.product(["", "R", "S"], repeat=len(shape)))
        flags = list(itertools.product([0, 1], repeat=m))
        P = lambda f: [pr(10 + i) if x else None for i, x in enumerate(f)]
        H = lambda f: [f"h{i}" if x else None for i, x in enumerate(f)]
        if full:
            for l, nm, f, h in itertools.product(labels, names, flags, flags):
                yield pattern(shape, l, nm, P(f), H(h))
        else:
            for l, nm, f in itertools.product(labels, names, flags):
                yield pattern(shape, l, nm, P(f), H([0] * m))
            for f, h in itertools.product(flags, flags):
                yield pattern(shape, ["X", "Y", "X"][:n], ["R", "S"][: len(shape)], P(f), H(h))


def splits(k):
    """All ways to cut k patterns into consecutive statements."""
    for cuts in itertools.product([0, 1], repeat=k - 1):
        res, cur = [], [0]
        for i, c in enumerate(cuts, 1):
            if c:
                res.append(cur)
                cur = [i]
            else:
                cur.append(i)
        yield res + [cur]


def grid_several(maxk, styles):
    for k in range(1, maxk + 1):
        for shapes in itertools.product(SHAPES, repeat=k):
            for style in styles:
                ps = []
                c = 0
                for sh in shapes:
                    n = len(sh) + 1
                    m = n + len(sh)
                    if style == "same":
                        ps.append(pattern(sh, ["A"] * n, ["R"] * len(sh), [None] * m, [None] * m))
                    elif style == "equal":  # identical properties everywhere, and handles
                        ps.append(pattern(sh, ["A"] * n, ["R"] * len(sh), [pr(1)] * m, ["abcde"[i] for i in range(m)]))
                    else:
                        ps.append(pattern(sh, [f"L{c + i}" for i in range(n)], [f"R{c + i}" for i in range(len(sh))], [pr(c * 7 + i) for i in range(m)], [None] * m))
                    c += m
                for sp in splits(k):
                    yield [[ps[i] for i in st] for st in sp]


WORDS_LABEL = ["A", "a", "_", "__init__", "0", "9a", "Node1", "camelCase", "snake_case", "MAKE", "Make", "make", "Find", "REPORT", "Report", "Porter", "null", "true", "None", "False", "Ünïcode", "日本", "x" * 200, "int", "rel", "Self", "maker", "finder", "kaem"]
WORDS_NAME = ["R", "REL", "REL_1", "R2D2", "_R", "R_", "MAKE", "FIND", "REPORT", "NULL", "TRUE", "X" * 200, "ÜBER", "A1", "R0", "KMAE"]
WORDS_HANDLE = ["h", "_", "0", "H1", "node_handle", "MAKE", "find", "report", "null", "wn", "日本", "h" * 200]
PROPS = [
    [["i", "1", 1]], [["i", "0", 0]], [["f", "3.14", 3.14]], [["b", "true", True]], [["b", "false", False]], [["n", "null", None]],
    [["s", "'2'", "2"]], [["s", '"2_4"', "2_4"]], [["s", '"3 4 5"', "3 4 5"]], [["s", "'foo@bar.net'", "foo@bar.net"]], [["l", "[1, '2', \"2_4\", 3.14]", [1, "2", "2_4", 3.14]]],
    [["l", "[]", []]], [["a", "1", 1], ["b", '"x"', "x"], ["c", "2.5", 2.5]], [["l", "[true, false, null]", [True, False, None]], ["x", "7", 7]],
    [["x", "7", 7], ["l", "['a', 'b']", ["a", "b"]], ["y", "null", None]], [["make", "1", 1], ["Find", "2", 2]], [["k", '"MAKE"', "MAKE"]], [["k", '"find it"', "find it"]],
    [["int", "1", 1], ["float", "3.14", 3.14], ["bool", "true", True], ["none", "null", None], ["str", "'2'", "2"], ["list", "[1, 3.14, true]", [1, 3.14, True]]],
    [[f"p{i}", str(i), i] for i in range(12)],
]


def grid_words():
    for shape in SHAPES:
        n = len(shape) + 1
        m = n + len(shape)
        base_l, base_n = [f"L{i}" for i in range(n)], [f"R{i}" for i in range(len(shape))]
        for pos in range(m):
            if pos < n:
                for w in WORDS_LABEL:
                    l = list(base_l)
                    l[pos] = w
                    yield pattern(shape, l, base_n, [None] * m, [None] * m)
                    yield pattern(shape, l, base_n, [pr(5)] * m, list("vwxyz")[:m])
            else:
                for w in WORDS_NAME:
                    nm = list(base_n)
                    nm[pos - n] = w
                    yield pattern(shape, base_l, nm, [None] * m, [None] * m)
                    yield pattern(shape, base_l, nm, [pr(5)] * m, list("vwxyz")[:m])
            for w in WORDS_HANDLE:
                h = [None] * m
                h[pos] = w
                yield pattern(shape, base_l, base_n, [None] * m, h)
            for pp in PROPS:
                ps = [None] * m
                ps[pos] = pp
                yield pattern(shape, base_l, base_n, ps, [None] * m)
                yield pattern(shape, base_l, base_n, [pp if i == pos else pr(i) for i in range(m)], [None] * m)


def explore(ctx):
    full = not ctx.quick
    q = ctx.quick

    def attrs():
        for p in grid_attributes(full):
            yield {"stmts": [[p]]}

    ctx.run_all("attributes", attrs, bounds="one pattern; 7 shapes; labels x names x properties present x handles present" + (" (full product)" if full else " (labels x names x properties, properties x handles)"))

    def several():
        for st in grid_several(4 if full else 3, ["distinct", "same", "equal"]):
            yield {"stmts": st}

    ctx.run_all("several", several, bounds=f"up to {4 if full else 3} patterns of every shape in every division into statements, distinct and equal content")

    def divisions():
        """All ways to divide n patterns into statements (bit i of d: a new statement begins with pattern i + 1)."""
        for n in range(4, 8 if q else 10):
            for d in range(1 << (n - 1)):
                for kind in range(3 if n < 7 else 1):
                    ps = []
                    for i in range(n):
                        if kind == 0 or (kind == 1 and i % 2):
                            ps.append([[None, f"A{i}", pr(i)]])
                        else:
                            ps.append(pattern("><"[i % 2], [f"A{i}", "B"], [f"R{i}"], [pr(i), None, pr(i + 20)], [None] * 3))
                    st = [[ps[0]]]
                    for i in range(1, n):
                        if d >> (i - 1) & 1:
                            st.append([])
                        st[-1].append(ps[i])
                    yield {"stmts": st}

    ctx.run_all("divisions", divisions, bounds=f"4 to {7 if q else 9} patterns in every division into statements")

    def filled():
        for st in grid_several(2, ["distinct", "same", "equal"]):
            yield {"pre": PRE, "stmts": st}
        for st in grid_several(2, ["distinct"]):
            for i in range(len(st) + 1):
                yield {"stmts": st, "find": [i, "FIND (:A);"]}
        for st in grid_several(1, ["distinct", "same"]):
            for k in (8, 9, 10, 98, 99, 100):
                yield {"pre": ["MAKE " + ", ".join(["(:P)"] * k) + ";"], "stmts": st}

    ctx.run_all("filled", filled, bounds="up to 2 patterns on a filled database, with a FIND before, between and after, and at 8..10, 98..100 stored nodes")

    def words():
        for p in grid_words():
            yield {"stmts": [[p]]}

    ctx.run_all("words", words, bounds=f"each of {len(WORDS_LABEL)} labels, {len(WORDS_NAME)} names, {len(WORDS_HANDLE)} handles, {len(PROPS)} property sets at each position of each shape")

    def large():
        for k in ([5, 8, 12, 25] if ctx.quick else [5, 6, 7, 8, 9, 10, 11, 12, 20, 25, 40, 60]):
            for sh in SHAPES:
                n = len(sh) + 1
                m = n + len(sh)
                ps = [pattern(sh, [f"L{j}_{i}" for i in range(n)], [f"R{j}_{i}" for i in range(len(sh))], [pr(j * 10 + i) for i in range(m)], [None] * m) for j in range(k)]
                yield {"stmts": [ps]}
                yield {"stmts": [[p] for p in ps]}

    ctx.run_all("large", large, batch=5, bounds="5 to 25 patterns (60 in thorough) of one shape, in one statement or one each")

    def sizes():
        H = ["h", "i", "j", "k", "l"]
        for n in range(1, (130 if q else 260) + 1):
            yield {"stmts": [[[[None, f"L{i}", None]] for i in range(n)]]}
            yield {"stmts": [[[[None, "A", None]]] for i in range(n)]}
            yield {"stmts": [[pattern(">", [f"A{i}", "B"], ["R"], [None] * 3, [None] * 3) for i in range(n // 2 + 1)]]}
            yield {"stmts": [[pattern("><", ["x" * n, "y", "z" * n], ["R" * n, "S"], [pr(i) for i in range(5)], ["h" * n, "i", "j" * n, "k", "l" * n])]]}
            yield {"stmts": [[pattern("<>", ["A", "B" * n, "C"], ["S", "R" * n], [[["p" * n, str(i), i]] for i in range(5)], H)]]}
        for n in range(1, 70 if q else 130):
            many = [[f"p{i}", str(i), i] for i in range(n)]
            for i in range(5):
                yield {"stmts": [[pattern("<>", ["A", "B", "C"], ["R", "S"], [many if j == i else None for j in range(5)], H)]]}
            yield {"stmts": [[pattern(">>", ["A", "B", "C"], ["R", "S"], [many[j:] or None for j in range(5)], H)]]}

    ctx.run_all("sizes", sizes, batch=20, bounds="1 to 130 patterns and statements, labels, names, handles and property names of 1 to 130 characters, 1 to 69 properties at every position")

    def huge():
        for n in (200, 500, 1000) if q else (200, 500, 1000, 2000, 3000):
            ps = [pattern(">" if i % 2 else "<", [f"A{i}", "B"], [f"R{i % 7}"], [pr(i), None, None], [f"h{i}", None, None]) for i in range(n)]
            yield {"stmts": [ps]}
            yield {"stmts": [[p] for p in ps]}
            yield {"stmts": [ps[: n // 3], ps[n // 3 :]]}
            yield {"stmts": [[[[None, "A", None]] for i in range(3 * n)]]}
        for n in sorted({k + d for k in (256, 1000, 1024, 2000, 4096, 5000, 8192, 10000, 16384, 65536) + (() if q else (32768, 100000)) for d in (-1, 0, 1)}):
            t = ("some words @1.5_" * (n // 16 + 1))[:n].strip() + "x"
            yield {"stmts": [[[[None, "A", [["t", f"'{t}'", t]]]], [[None, "B", [["i", "1", 1]]]]], [[[None, "C", None]]]]}
            yield {"stmts": [[pattern(">", ["A" * n, "B"], ["R"], [None] * 3, [None] * 3), [[None, "C", None]]], [[[None, "D", None]]]]}
            yield {"stmts": [[pattern("<", ["A", "B"], ["R" * n], [None] * 3, ["h" * n, None, None])]]}
            yield {"stmts": [[[[None, "A", [["p" * n, "1", 1]]]], [[None, "B", None]]]]}
        for n in (100, 256, 300, 1000, 2500) if q else (100, 256, 300, 1000, 2500, 8000):
            l = [i if i % 2 else f"x{i}" for i in range(n)]
            yield {"stmts": [[pattern(">", ["A", "B"], ["R"], [[["l", repr(l), l]]] * 3, [None] * 3)]]}
            m = [[f"p{i}", str(i), i] for i in range(n)]
            yield {"stmts": [[pattern(">", ["A", "B"], ["R"], [m, m[: n // 2], m[::-1]], [None] * 3)]]}

    ctx.run_all("huge", huge, batch=1, bounds="queries of up to 3000 patterns or 1000 statements, texts, labels, names, handles and property names of up to 65537 characters (100001 in thorough), lists and properties of up to 1000 values (8000)")

    def again():
        """The same few words as handles, labels, names, property names and values of several patterns."""
        P = [None, [["A", "'B'", "B"]], [["a", "1", 1], ["B", "2", 2]]]
        ones = [[[h, l, p]] for h in (None, "A", "B") for l in ("A", "B") for p in P]
        for k in (2, 3):
            for ps in itertools.product(ones, repeat=k):
                if k == 3 and q and len({x[0][0] for x in ps}) > 2:
                    continue
                yield {"stmts": [list(ps)]}
                if k == 2:
                    yield {"stmts": [[p] for p in ps]}
        H = [(None, None, None), ("A", "B", "C"), ("C", "B", "A"), ("B", "A", None), (None, "C", "B"), ("A", None, "C")]
        H = H[:4] if q else H
        rels = []
        for h in H:
            for f in itertools.product([0, 1], repeat=3):
                for d in "><":
                    c = len(rels)
                    rels.append([[h[0], "A", P[1] if f[0] else None], [h[1], "AB"[c % 2], P[2] if f[1] else None, d], [h[2], "BA"[c // 2 % 2], P[1] if f[2] else None]])
        for i, a in enumerate(rels):
            for j, b in enumerate(rels):
                if q and (i + j) % 2:
                    continue
                yield {"stmts": [[a, b]]}
                yield {"stmts": [[a], [b]]}
            for b in ones:
                yield {"stmts": [[a, b]]}
                yield {"stmts": [[b, a]]}
                yield {"stmts": [[b], [a, b]]}
        for p in pats3(P, q):
            yield {"stmts": [[p, [["A", "A", None]]]]}
            yield {"stmts": [[[["A", "A", None]], p]]}

    ctx.run_all("again", again, bounds="2 and 3 patterns that share handles, labels, names, property names and values, in one or several statements")

    def alike():
        """Two words that are alike, at every pair of places of one pattern, two patterns and two statements."""
        key = lambda w: w.lower() in ("null", "true", "false", "none")  # noqa
        places = ["label", "handle", "pname", "text", "item", "name"]

        def put(p, place, w, i):
            if place == "label":
                p[i][1] = w
            elif place == "name":
                p[1][1] = w
            elif place == "handle":
                p[i][0] = w
            elif place == "pname":
                p[i][2] = [*(p[i][2] or []), [w, str(i), i]]
            elif place == "text":
                p[i][2] = [*(p[i][2] or []), [f"t{len(p[i][2] or [])}", f"'{w}'", w]]
            else:
                p[i][2] = [*(p[i][2] or []), [f"l{len(p[i][2] or [])}", f"[1, '{w}', '{w}']", [1, w, w]]]

        base = lambda d: [[None, "L", None], [None, "R", None, d], [None, "M", None]]  # noqa
        texts = [x for a, b in W.ALIKE_TEXT for x in ((a, b), (b, a)) if not any(set(w) & set("{}[]:-,'\"") or not w.strip() for w in x)]
        words = [*W.pairs(), *W.long_pairs((15, 31, 63, 127, 255) if q else (15, 16, 31, 32, 63, 64, 99, 100, 127, 128, 255, 256, 511, 512, 1023))]
        for kind, prs in (("word", words), ("name", list(W.name_pairs())), ("text", texts)):
            for k, (a, b) in enumerate(prs):
                d = "><"[k % 2]
                for pa, pb in itertools.product(places, repeat=2):
                    if (kind == "name") != ("name" in (pa, pb)) or kind == "text" and not {pa, pb} <= {"text", "item"}:
                        continue
                    if (key(a) and pa in ("text", "item")) or (key(b) and pb in ("text", "item")):
                        continue
                    if (pa == "item" and not a.isprintable()) or (pb == "item" and not b.isprintable()):
                        continue
                    p, r = base(d), base("<")
                    put(p, pa, a, 0)
                    put(r, pb, b, 2)
                    yield {"stmts": [[p, r]]}
                    yield {"stmts": [[p], [r]]}
                    if pa != "name" or pb != "name":
                        x = base(d)
                        put(x, pa, a, 0 if pb != "handle" or pa != "handle" else 2)
                        put(x, pb, b, 0)
                        yield {"stmts": [[x]]}
                        if pa != "handle" or a != b:
                            x = base(d)
                            put(x, pa, a, 0)
                            put(x, pb, b, 1 if pb not in ("label", "name") else 2)
                            yield {"stmts": [[x]]}
                    yield {"pre": [M.stmt_text("MAKE", [p])], "stmts": [[r]]}

    ctx.run_all("alike", alike, bounds=f"{len(W.ALIKE)} pairs of words that are alike (in case, script, length, the last letter), at every pair of places of a pattern, of two patterns, statements and queries")


def pats3(P, q):
    for h in itertools.permutations(["A", "B", "C", "D", None], 5):
        if q and h[1] != "B" and h[4] != "A":
            continue
        for k, d in enumerate(itertools.product("><", repeat=2)):
            yield [[h[0], "A", P[k % 3]], [h[1], "B", P[(k + 1) % 3], d[0]], [h[2], "A", None], [h[3], "A", P[2], d[1]], [h[4], "B", P[k // 2]]]
