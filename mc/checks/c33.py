"""C33: the parsed form of a query is what is written.

Queries are put together from parts that are known, in several layouts; the parsed form must have these parts, each as it is
written, in its place.
"""
import itertools

from mc import words as W
from mc.core import Outcome

ID = "C33"
RULE = "every query of the grids; its parsed form is compared field by field with the parts it was put together from"
ASSUMPTIONS = ["of a part that is missing and one that is empty the parsed form may say the same; whitespace around a part does not matter"]

# style: (after an opening and before a closing bracket, around a colon, around a comma, between parts of a pattern, after the clause, between statements)
STYLES = [
    ("", "", ", ", "", " ", " "),
    ("", "", ",", "", "", ""),
    (" ", " ", " , ", " ", " ", "\n"),
    ("\n", "\n\t", "\n,\n", "\n  ", "\n", "\n\n"),
    ("  ", "\t", "\r\n , ", "\t", "\t", " \t\r\n"),
]
CASES = {"MAKE": ["MAKE", "make", "mAkE", "Make"], "FIND": ["FIND", "find", "fInD", "Find"], "REPORT": ["REPORT", "report", "rEpOrT", "Report"]}


def props(p, st):
    if p is None:
        return None
    b, c, k = st[0], st[1], st[2]
    return "{" + b + k.join(f"{n}:{c or ' '}{v}" for n, v in p) + b + "}"


def node(n, st):
    h, l, p = n
    b, c, g = st[0], st[1], st[3]
    t = props(p, st)
    text = f"({b}{h or ''}{c if h else ''}:{c}{l}{(g or ' ') + t if t else ''}{b})"
    return text, {"node": text, "node_handle": h, "node_label": l, "node_props": t}


def rel(r, st):
    h, l, p, d = r
    b, c, g = st[0], st[1], st[3]
    t = props(p, st)
    if h or l or t:
        body = f"{b}{h or ''}{c if h else ''}:{c if l or t else ''}{l or ''}{(g or ' ') + t if t else ''}{b}"
    else:
        body = ""
    text = f"-[{body}]->" if d == ">" else f"<-[{body}]-"
    return text, {"rel": text, "rel_handle": h, "rel_label": l, "rel_props": t}


NODES, RELS = ["left", "middle", "right"], ["left_middle", "middle_right"]


def pattern(p, st):
    out, want = [], {}
    for i, x in enumerate(p):
        text, parts = node(x, st) if i % 2 == 0 else rel(x, st)
        out.append(text)
        for k, v in parts.items():
            want[f"{(NODES if i % 2 == 0 else RELS)[i // 2]}_{k}"] = v
    return st[3].join(out), want


def statement(word, ps, st, case):
    texts = [pattern(p, st) for p in ps]
    return CASES[word][case] + st[4] + st[2].join(t for t, w in texts) + st[0] + ";", [w for t, w in texts]


def build(scn):
    """(text, MAKEs, FIND, REPORT) with what each must say."""
    st, case = STYLES[scn["style"]], scn.get("case", 0)
    done = []
    own = scn.get("styles", [scn["style"]] * 1000)
    makes = [statement("MAKE", ps, STYLES[own[i]], (case + i) % 4 if case else 0) for i, ps in enumerate(scn.get("makes", []))]
    find = statement("FIND", scn["find"], st, case) if scn.get("find") else None
    rep = None
    if scn.get("report"):
        rep = CASES["REPORT"][case] + (st[4] or " ") + (st[2] or ",").join(scn["report"]) + st[0] + ";"
    it = iter(makes)
    for x in scn.get("order", "m" * len(makes) + "fr"):
        if x == "m":
            done.append(next(it)[0])
        elif x == "f" and find:
            done.append(find[0])
        elif x == "r" and rep:
            done.append(rep)
    return scn.get("before", "") + st[5].join(done) + scn.get("after", ""), makes, find, rep


FIELDS = [f"{a}_{b}" for a in NODES for b in ("node", "node_handle", "node_label", "node_props")] + [f"{a}_{b}" for a in RELS for b in ("rel", "rel_handle", "rel_label", "rel_props")]


def norm(x):
    return (x or "").strip()


def check_pattern(where, got, want):
    for f in FIELDS:
        if norm(getattr(got, f)) != norm(want.get(f)):
            return f"{where}: {f} is {getattr(got, f)!r}, written {want.get(f)!r}"
    n, r = sum(f"{a}_node" in want for a in NODES), sum(f"{a}_rel" in want for a in RELS)
    if (got.number_of_nodes, got.number_of_relationships) != (n, r):
        return f"{where}: {got.number_of_nodes} nodes and {got.number_of_relationships} relationships, written {n} and {r}"
    hs = {v for k, v in want.items() if k.endswith("handle") and v}
    if got.pattern_handles != hs:
        return f"{where}: handles {got.pattern_handles}, written {hs}"
    return None


def check(p, text, makes, find, rep):
    from models.wql import Clause

    got = p.make_parsed or []
    if len(got) != len(makes):
        return f"{len(got)} MAKE statements, written {len(makes)}"
    for i, (m, (t, ws)) in enumerate(zip(got, makes)):
        if m.clause is not Clause.MAKE or norm(m.raw_statement) != norm(t):
            return f"MAKE {i} is {m.clause} {m.raw_statement!r}, written {t!r}"
        if len(m.parsed_pattern_list) != len(ws):
            return f"MAKE {i} has {len(m.parsed_pattern_list)} patterns, written {len(ws)}"
        for k, (x, w) in enumerate(zip(m.parsed_pattern_list, ws)):
            if bad := check_pattern(f"MAKE {i} pattern {k}", x, w):
                return bad
    f = p.find_parsed
    if (f is None) != (find is None):
        return f"FIND is {f!r}, written {find}"
    if find:
        t, ws = find
        if f.clause is not Clause.FIND or norm(f.raw_statement) != norm(t):
            return f"FIND is {f.clause} {f.raw_statement!r}, written {t!r}"
        xs = [f.parsed_pattern, *f.further_parsed_patterns]
        if len(xs) != len(ws):
            return f"FIND has {len(xs)} patterns, written {len(ws)}"
        for k, (x, w) in enumerate(zip(xs, ws)):
            if bad := check_pattern(f"FIND pattern {k}", x, w):
                return bad
        hs = {v for w in ws for k, v in w.items() if k.endswith("handle") and v}
        if f.parsed_pattern_handles != hs:
            return f"FIND has the handles {f.parsed_pattern_handles}, written {hs}"
    r = p.report_parsed
    if (r is None) != (rep is None):
        return f"REPORT is {r!r}, written {rep!r}"
    if rep and (r.clause is not Clause.REPORT or norm(r.raw_statement) != norm(rep) or norm(r.extracted_report) != norm(rep)):
        return f"REPORT is {r.clause} {r.raw_statement!r} {r.extracted_report!r}, written {rep!r}"
    if p.criteria_parsed is not None:
        return f"criteria {p.criteria_parsed!r}, none are written"
    return None


def run(scn):
    from wiggle_shell.core.query.query import parse_query_string

    o = Outcome()
    text, makes, find, rep = build(scn)
    o.transitions += 1
    o.validated += 1
    o.states.add(text)
    try:
        p = parse_query_string(text)
    except Exception as e:
        o.bad(f"{text!r} refused: {type(e).__name__}: {e}")
        return o
    bad = check(p, text, makes, find, rep)
    o.distinct.add((len(makes), len(find[1]) if find else 0, bool(rep), tuple(len(w) for t, ws in makes for w in ws)[:9]))
    if bad:
        o.bad(f"{text!r}: {bad}")
        return o
    # parsing it changed nothing that a second parsing shows
    if p != parse_query_string(text):
        o.bad(f"{text!r} is parsed differently the second time")
    return o


P = [None, [], [("i", "1")], [("s", "'x  y'"), ("f", "2.5")], [("l", "[1, 'a, b', null]"), ("b", "true")], [("t", "bare"), ("e", '"a@b.c"'), ("z", "null")]]
SHAPES = [""] + list("><") + ["".join(x) for x in itertools.product("><", repeat=2)]


def pat(shape, labels="ABC", names="RS", handles=(None,) * 5, ps=(None,) * 5):
    res = []
    for i in range(2 * len(shape) + 1):
        if i % 2 == 0:
            res.append([handles[i], labels[i // 2], ps[i]])
        else:
            res.append([handles[i], names[i // 2], ps[i], shape[i // 2]])
    return res


def explore(ctx):
    q = ctx.quick
    S = range(len(STYLES))

    def grid():
        for word in ("makes", "find"):
            for sh in SHAPES:
                m = 2 * len(sh) + 1
                for hs in itertools.product([None, 1], repeat=m):
                    handles = [f"h{i}" if h else None for i, h in enumerate(hs)]
                    for ns in itertools.product(["R", None], repeat=len(sh)):
                        names = ["RST"[i] if n else None for i, n in enumerate(ns)]
                        for k in range(len(P)) if q else range(len(P) ** 2):
                            ps = [P[(k + i * (1 + k // len(P))) % len(P)] for i in range(m)]
                            for s in S:
                                one = [pat(sh, "ABC", names, handles, ps)]
                                yield {word: [one] if word == "makes" else one, "style": s}

    ctx.run_all("grid", grid, batch=1000, bounds=f"one pattern: shapes x handles x names present x properties x {len(STYLES)} layouts, of a MAKE and of a FIND")

    SMALL = [pat(""), pat("", "B", handles=["a"], ps=[P[2]]), pat(">", "AB", "R", ["a", "r", None], [P[3], None, P[1]]), pat("<", "CA", [None], [None, None, "a"], [None, P[4], None]), pat("<>", "ABA", "SR", ["b", None, "c", "s", "a"], [None, P[5], P[2], None, P[3]]), pat("><", "DDD", [None, "R"])]

    def clauses():
        """MAKEs, a FIND and a REPORT in every order."""
        reports = [None, ["*"], ["a"], ["a.i", "wn(a)", "a"], ["a.s", "count( a )"]]
        for nm in (0, 1, 2, 3) if not q else (0, 1, 2):
            for ms in itertools.product(range(len(SMALL)), repeat=nm):
                makes = [[SMALL[i]] + ([SMALL[(i + 1) % len(SMALL)]] if (i + k) % 2 else []) for k, i in enumerate(ms)]
                for f in (None, 1, 2, 3, 4):
                    for r in reports if f else [None]:
                        orders = sorted({"".join(x) for x in itertools.permutations("m" * nm + ("f" if f else "") + ("r" if r else ""))})
                        for k, od in enumerate(orders):
                            if q and nm == 2 and (sum(ms) + k + f if f else k) % 3:
                                continue
                            yield {"makes": makes, "find": f and [SMALL[f], SMALL[0]], "report": r, "order": od, "style": (k + sum(ms)) % len(STYLES), "case": (k + nm) % 4}

    ctx.run_all("clauses", clauses, batch=500, bounds="up to 2 MAKEs (3 in thorough), a FIND and a REPORT in every order and in four cases of letters")

    def several():
        for word in ("makes", "find"):
            for n in (2, 3) if q else (2, 3, 4):
                for ps in itertools.product(SMALL, repeat=n):
                    for s in S if n < 3 or not q else (0, 3):
                        yield {word: [list(ps)] if word == "makes" else list(ps), "style": s, "before": " \n" if n % 2 else "", "after": "\n" if s % 2 else ""}
            for n in (5, 10, 40, 150):
                ps = [pat(SHAPES[i % 7], [f"A{i}", f"B{i}", f"C{i}"], [f"R{i}", f"S{i}"], [f"h{i}", f"r{i}", None, None, f"k{i}"], [P[i % 6], None, P[(i + 2) % 6], P[(i + 3) % 6], None]) for i in range(n)]
                for s in S:
                    yield {word: [ps] if word == "makes" else ps, "style": s}
                    if word == "makes":
                        yield {word: [[p] for p in ps], "style": s, "case": 1}

    ctx.run_all("several", several, batch=200, bounds="up to 3 patterns of six kinds (4 in thorough), and 5 to 150")

    def twins():
        """Parts that are alike, of which one might be taken for the other."""
        nodes = [["", "A", [x] if isinstance(x, tuple) else [tuple(y) for y in x]] for x in TWINS]
        nodes += [["", w, None] for w in ("A", "a", "AA", "A_", "_A", "A1", "A01")] + [[w, "A", None] for w in ("a", "A", "aa", "a_", "1", "01", "b")]
        for a, b in itertools.product(nodes, repeat=2):
            for x in range(3):
                yield {"makes": [[[a]], [[b]]], "style": 0, "styles": [[0, 0], [0, 1], [2, 0]][x]}
            yield {"makes": [[[a], [b]]], "style": 0}
            yield {"find": [[a], [b]], "style": 0}
            yield {"makes": [[[a]]], "find": [[b]], "style": 0, "order": "mf" if len(str(a)) % 2 else "fm"}
            if not a[0] or a[0] != b[0]:
                for d in "><":
                    yield {"makes": [[[a, ["", "R", None, d], b]]], "style": 0}
            for word in ("makes", "find"):
                if a[1] == b[1] == "A" and not (a[0] and a[0] == b[0]):
                    p = [["", "A", None], [a[0], "R", a[2], "<"], ["", "B", None], [b[0], "R", b[2], ">"], ["", "C", None]]
                    yield {word: [[p]] if word == "makes" else [p], "style": 0}

    ctx.run_all("twins", twins, batch=500, bounds=f"all pairs of {len(TWINS) + 14} nodes that are alike, in two statements (of three pairs of layouts), two patterns, one pattern, a MAKE and a FIND, and as relationships")

    def words():
        for w in W.all_words():
            for word in ("makes", "find"):
                for sh in ("", ">", "<>"):
                    m = 2 * len(sh) + 1
                    for i in range(m):
                        hs = [None] * m
                        hs[i] = w
                        things = [pat(sh, handles=hs)]
                        if i % 2 == 0:
                            things.append(pat(sh, [w if k == i // 2 else "Q" for k in range(3)]))
                        elif W.is_name(w):
                            things.append(pat(sh, names=[w if k == i // 2 else "Q" for k in range(2)]))
                        ps = [None] * m
                        ps[i] = [(w, "1")]
                        things.append(pat(sh, ps=ps))
                        ps = list(ps)
                        if w not in RESERVED:
                            ps[i] = [("k", f"'{w}'"), ("l", f"['{w}', \"{w}\"]")]
                            things.append(pat(sh, ps=ps))
                        for x in things:
                            for s in (0, 2):
                                yield {word: [[x]] if word == "makes" else [x], "style": s}

    ctx.run_all("words", words, batch=300, bounds="odd and long words at every place")


TWINS = [
    ("t", "'x y'"), ("t", "'xy'"), ("t", "'x  y'"), ("t", "'X y'"), ("t", '"x y"'), ("t", "'x y '"), ("t", "' x y'"), ("t", "x y"), ("t", "'x\ty'"), ("T", "'x y'"), ("t", "'x y, t: 1'"), ("t", "''"),
    ("i", "1"), ("i", "'1'"), ("i", "1.0"), ("i", "1.00"), ("i", "[1]"), ("i", "[1.0]"), ("i", "['1']"), ("i", "true"), ("i", "'true'"), ("i", "null"), ("i", "'null'"), ("i", "false"), ("i", "0"), ("i", "10"), ("i", "01"), ("I", "1"), ("j", "1"), ("i", "x"),
    ("l", "[1, 2]"), ("l", "[2, 1]"), ("l", "[12]"), ("l", "['1', 2]"), ("l", "['1, 2']"), ("l", "[1, 1]"), ("l", "[true, 2]"), ("l", "[]"), ("l", "[1, 2, 2]"), ("l", "[ 1, 2 ]"),
    [("i", "1"), ("j", "2")], [("j", "2"), ("i", "1")], [("i", "2"), ("j", "1")], [("i", "1"), ("j", "'2'")], [("i", "1"), ("j", "2"), ("k", "3")], [],
]  # fmt: skip
RESERVED = {"None", "none", "Null", "true", "True", "false", "False", "null"}
