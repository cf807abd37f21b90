"""C10: layout and the case of the clause words do not matter."""
import itertools

from mc import findpre as F
from mc import model as M
from mc import sut
from mc.core import Outcome

ID = "C10"
RULE = "every layout of the enumeration of every query is run on the real code; it must be accepted, store and print what the plain layout does"
ASSUMPTIONS = ["the parts of a query are its clause words, brackets, handles, labels, names, colons, commas, values and arrows; an arrow and the square bracket at its end are one part"]
_bench = sut.Bench()

WS = ["", " ", "  ", "\n", "\t", " \n ", "\r\n", "\n\n\n"]


def I(t, v):  # noqa
    return ["p", t, v]


# (tokens with "~" where whitespace must stay, MAKE patterns, FIND patterns, accepted)
QUERIES = [
    ("MAKE ( a : A { i : 1 , s : 'x  y' , l : [ 1 , 'b, c' , true ] } ) -[ r : R { f : 2.5 , n : null } ]-> ( : B ) , ( : C ) ;",
     [[["a", "A", [["i", "", 1], ["s", "", "x  y"], ["l", "", [1, "b, c", True]]]], ["r", "R", [["f", "", 2.5], ["n", "", None]], ">"], ["", "B", None]], [["", "C", None]]], None, True),
    ("MAKE ( a : A ) <-[ r : R ]- ( b : B { t : word } ) -[ : S ]-> ( c : C ) ;",
     [[["a", "A", None], ["r", "R", None, "<"], ["b", "B", [["t", "", "word"]]], ["", "S", None, ">"], ["c", "C", None]]], None, True),
    ("MAKE ( : A ) <-[ ]- ( : B ) ; MAKE ( : C ) -[ : ]-> ( : D { k : false } ) ; MAKE ( : E ) ;",
     [[["", "A", None], ["", "", None, "<"], ["", "B", None]], [["", "C", None], ["", "", None, ">"], ["", "D", [["k", "", False]]]], [["", "E", None]]], None, True),
    ("MAKE ( a : A ) -[ r : R ]-> ( b : B ) ; FIND ( b : B ) <-[ q : R ]- ( a : A ) ; REPORT~ b , q . x , a ;",
     [[["a", "A", None], ["r", "R", None, ">"], ["b", "B", None]]], [[["b", "B", None], ["q", "R", None, "<"], ["a", "A", None]]], True),
    ("FIND ( a : A { i : 1 , s : \"x y\" } ) -[ r : NONE ]-> ( b : Zz ) <-[ s : S ]- ( c : C ) ; REPORT~ * ;",
     [], [[["a", "A", [["i", "", 1], ["s", "", "x y"]]], ["r", "NONE", None, ">"], ["b", "Zz", None], ["s", "S", None, "<"], ["c", "C", None]]], True),
    ("FIND ( a : A ) , ( : Zz ) -[ : Q ]-> ( : B ) ; MAKE ( : A ) , ( : B ) ;",
     [[["", "A", None]], [["", "B", None]]], [[["a", "A", None]], [["", "Zz", None], ["", "Q", None, ">"], ["", "B", None]]], True),
    # nothing in upper case but the clauses, nothing in lower case
    ("MAKE ( a_b : some__label { p_q : null , r__s : 'a__b c' } ) , ( : c ) ; FIND ( x__y : d__e { q__r : true } ) ; REPORT~ x__y . q__r ;",
     [[["a_b", "some__label", [["p_q", "", None], ["r__s", "", "a__b c"]]]], [["", "c", None]]], [[["x__y", "d__e", [["q__r", "", True]]]]], True),
    ("MAKE ( A : A { I : 1 , T : 'A B' } ) <-[ R : R { L : [ 2 ] } ]- ( B : B ) ; FIND ( A : A ) ; REPORT~ A ;",
     [[["A", "A", [["I", "", 1], ["T", "", "A B"]]], ["R", "R", [["L", "", [2]]], "<"], ["B", "B", None]]], [[["A", "A", None]]], True),
    # nothing inside of brackets
    ("MAKE ( a : A { } ) -[ r : R { } ]-> ( : B { l : [ ] , s : '' } ) , ( : C { } ) <-[ ]- ( : D ) ; FIND ( : A { } ) -[ : R { } ]-> ( b : B ) ;",
     [[["a", "A", None], ["r", "R", None, ">"], ["", "B", [["l", "", []], ["s", "", ""]]]], [["", "C", None], ["", "", None, "<"], ["", "D", None]]],
     [[["", "A", None], ["", "R", None, ">"], ["b", "B", None]]], True),
    # refused whatever the layout
    ("MAKE ( : A ) ; MAKE ( a : A ) -[ r : R ]- ( b : B ) ;", [], None, False),
    ("MAKE ( a : A ) <-[ r : R ]-> ( b : B ) , ( : C ) ;", [], None, False),
    ("MAKE ( a : A ) -[ r : Rel ]-> ( b : B ) ; FIND ( : A ) ;", [], None, False),
    ("MAKE ( a : A ) -[ a : R ]-> ( b : B ) ;", [], None, False),
    ("MAKE ( : A { i : 1 , j 2 } ) ;", [], None, False),
    ("MAKE ( : A { i : True } ) ;", [], None, False),
    ("KAME ( : A ) ; MAKE ( : B ) ;", [], None, False),
    ("MAKE ( : A ) ; FIND ( a : A ) ; REPORT~ b ;", [], None, False),
    ("MAKE ( : A ) ; REPORT~ * ;", [], None, False),
]


def tokens(i):
    """Tokens (quoted texts stay whole) and which gaps may not be empty."""
    import re

    toks = re.findall(r"'[^']*'|\"[^\"]*\"|\S+", QUERIES[i][0])
    keep = [t.endswith("~") for t in toks]
    toks = [t.rstrip("~") for t in toks]
    # two words, or a word and a text, next to each other
    gaps = []
    for k in range(len(toks) - 1):
        a, b = toks[k], toks[k + 1]
        gaps.append(keep[k] or (a[-1].isalnum() and b[0].isalnum()))
    return toks, gaps


def layout(i, default, changed):
    toks, must = tokens(i)
    s = changed.get("-1", "")
    for k, t in enumerate(toks):
        s += t
        if k < len(must):
            w = changed.get(str(k), default)
            # 'q . x' is the property of a handle and one part
            if t == "." or toks[k + 1] == ".":
                w = ""
            s += w if (w or not must[k]) else " "
    return s + changed.get(str(len(toks)), "")


def run(scn):
    o = Outcome()
    i = scn["i"]
    text = scn["text"] if "text" in scn else layout(i, scn["d"], scn.get("c", {}))
    _, make, find, accept = QUERIES[i]
    ok, err, out, d, after = _bench.query(text)
    o.transitions += 1
    o.validated += 1
    o.states.add(text)
    o.distinct.add((i, ok, sut.no_results(out)))
    if ok != accept:
        o.bad(f"{text!r} {'accepted' if ok else 'refused: ' + str(err)}, in its plain layout it is not")
        return o
    if d is None:
        o.bad(f"{text!r} changed what was stored")
        return o
    got, want = after.components(*d), M.canon(make if accept else [])
    if got != want:
        o.bad(f"{text!r} stored {got}, expected {want}")
    if accept and find:
        labels, names = {x[0] for x in after.nodes.values()}, {x[0] for x in after.rels.values() if x[0]}
        none = not (M.labels(find) <= labels and M.names(find) <= names)
        if sut.no_results(out) != none:
            o.bad(f"{text!r} printed {out!r}, expected {'No results' if none else 'no such thing'}")
        got, err = F.real(text)
        want = F.expected(find[0])
        if got != want:
            o.bad(f"{text!r} prepared as {got}, expected {want}")
    return o


def cases(w):
    return ["".join(c) for c in itertools.product(*((x.upper(), x.lower()) for x in w))]


def explore(ctx):
    q = ctx.quick
    n = len(QUERIES)
    good = [i for i in range(n) if QUERIES[i][3]]

    def single():
        for i in range(n):
            toks, _ = tokens(i)
            for d in ("", " "):
                for k in range(-1, len(toks) + 1):
                    for w in WS:
                        yield {"i": i, "d": d, "c": {str(k): w}}

    ctx.run_all("one gap", single, batch=300, bounds=f"{n} queries x every gap x {len(WS)} kinds of whitespace, in a dense and a wide layout")

    def all_gaps():
        for i in range(n):
            toks, _ = tokens(i)
            for d in WS:
                for k in WS:
                    yield {"i": i, "d": d, "c": {"-1": k, str(len(toks)): k}}

    ctx.run_all("all gaps", all_gaps, batch=50)

    def runs():
        for i in good[:4] if q else good:
            toks, _ = tokens(i)
            for k in range(-1, len(toks) + 1):
                for w in " \n\t":
                    for m in (3, 5, 9, 17, 33, 65, 129) if q else range(3, 130):
                        yield {"i": i, "d": "", "c": {str(k): w * m}}
            for m in range(2, 130):
                yield {"i": i, "d": " " * m, "c": {}}

    ctx.run_all("long gaps", runs, batch=300, bounds="gaps of up to 129 spaces, newlines or tabs")

    def pairs():
        for i in good if q else range(n):
            toks, _ = tokens(i)
            for a, b in itertools.combinations(range(-1, len(toks) + 1), 2):
                if q and b - a > 4:
                    continue
                for d in ("", " ") if not q else ("",):
                    for wa, wb in itertools.product([" ", "\n"] if q else ["", " ", "\n", "\t "], repeat=2):
                        yield {"i": i, "d": d, "c": {str(a): wa, str(b): wb}}

    ctx.run_all("two gaps", pairs, batch=300, bounds="pairs of gaps" + (" at a distance of up to 4 parts" if q else ""))

    def stmts():
        seps = ["", " ", "\n", "\n\n", "\t", "\r\n", " \n "]
        for i in range(n):
            parts = [x.strip() + ";" for x in layout(i, " ", {}).split(";") if x.strip()]
            for ss in itertools.product(seps, repeat=len(parts) + 1):
                t = ss[0]
                for p, s in zip(parts, ss[1:]):
                    t += p + s
                yield {"i": i, "text": t}
                if len(parts) == 1:
                    yield {"i": i, "text": t.replace("; ", ";")}

    ctx.run_all("statements", stmts, batch=300, bounds="every whitespace before, between and after the statements")

    def case():
        fm = [i for i in range(n) if "FIND" in QUERIES[i][0] or "MAKE" in QUERIES[i][0]]
        for i in fm:
            for d in ("", " "):
                base = layout(i, d, {})
                has = [w for w in ("MAKE", "FIND", "REPORT") if w in base]
                for w in has:
                    for c in cases(w):
                        yield {"i": i, "text": base.replace(w, c)}
                alln = [cases(w) if w != "REPORT" or not q else ["REPORT", "report", "RePort", "rEPORt"] for w in has]
                if i in good or not q:
                    for cs in itertools.product(*alln):
                        t = base
                        for w, c in zip(has, cs):
                            t = t.replace(w, c)
                        yield {"i": i, "text": t}

    ctx.run_all("case", case, batch=300, bounds="every mix of upper and lower case of MAKE and FIND, together; every mix of REPORT" + (" alone" if q else ""))

    def each_word():
        # several MAKEs, each in its own case
        i = 2
        base = layout(i, " ", {}).split("MAKE")
        cs = cases("MAKE")
        for a, b, c in itertools.product(cs, repeat=3):
            yield {"i": i, "text": base[0] + a + base[1] + b + base[2] + c + base[3]}

    ctx.run_all("case of each", each_word, batch=300, bounds="three MAKEs, each in every case")

    def keep():
        for w in ("Ab", "aB", "AB", "ab", "Make", "mAKE", "FIND", "find", "Report"):
            for v in ("Ab", "aB", "AB", "ab", "Make", "mAKE", "find", "RePort"):
                for c in ("MAKE", "make", "mAkE"):
                    yield {"keep": [w, v, c]}

    ctx.run_all("case is kept", keep, batch=50, run=run_keep, bounds="labels, names and texts in every case keep it")


def run_keep(scn):
    o = Outcome()
    w, v, c = scn["keep"]
    p = [["", w, [[v, f"'{v} {w}'", f"{v} {w}"], ["b", w, w]]], [v, v.upper(), [[w, f"['{w}', '{v}']", [w, v]]], ">"], ["", v, None]]
    text = M.stmt_text(c, [p])
    ok, err, out, d, after = _bench.query(text)
    o.transitions += 1
    o.validated += 1
    o.states.add(text)
    if not ok or d is None:
        o.bad(f"{text!r} refused: {err}")
        return o
    got = after.components(*d)
    o.distinct.add(got)
    if got != M.canon([p]):
        o.bad(f"{text!r} stored {got}")
    return o


_run = run


def run(scn):  # noqa
    return run_keep(scn) if "keep" in scn else _run(scn)
