"""C13: every scrambled MAKE, FIND or REPORT is reported; names and texts that look like one are not affected."""
import itertools

from mc import model as M
from mc import sut
from mc.core import Outcome

ID = "C13"
RULE = "every permutation of the letters of every clause word, in every place of the enumeration, is run on the real code"
ASSUMPTIONS = ["correct statements beside the scrambled one are written in lower case, so that an error that names the intended clause cannot name it by quoting the query"]
_bench = sut.Bench()

PERMS = {w: sorted({"".join(t) for t in itertools.permutations(w)} - {w}) for w in ("MAKE", "FIND", "REPORT")}
BODY = {"MAKE": ["(:A);", "(a:A)-[r:R]->(b:B);"], "FIND": ["(a:A);", "(a:A)-[r:R]->(b:B);"], "REPORT": ["a;", "*;"]}


def run(scn):
    o = Outcome()
    text = scn["q"]
    ok, err, out, d, after = _bench.query(text)
    o.transitions += 1
    o.validated += 1
    o.states.add(text)
    if "w" in scn:
        o.distinct.add((ok, (err or "")[:40]))
        if ok:
            o.bad(f"{text!r} accepted")
        elif scn["w"] not in err:
            o.bad(f"{text!r} refused with {err!r}, which does not name {scn['w']}")
        elif d is None or d[0] or d[1]:
            o.bad(f"{text!r} changed the database")
        return o
    if not ok:
        o.bad(f"{text!r} refused: {err}")
        return o
    if d is None:
        o.bad(f"{text!r} changed what was stored")
        return o
    got = after.components(*d)
    o.distinct.add(got)
    if got != M.canon(scn["p"]):
        o.bad(f"{text!r} stored {got}")
    return o


def cases(w, full):
    if full:
        return sorted({"".join(c) for c in itertools.product(*((x.upper(), x.lower()) for x in w))})
    return sorted({w, w.lower(), w.capitalize(), "".join(c.lower() if i % 2 else c for i, c in enumerate(w)), w[:-1].lower() + w[-1]})


PLACES = [
    "@",
    "make (:X); @",
    "@ make (:X);",
    "make (:X);\n@\nmake (:Y);",
    "find (a:A); @",
    "@ find (a:A);",
    "make (:X); find (a:A); @",
    "make (:X); @ find (a:A);",
    "@ find (a:A); report a;",
    "find (a:A); @ report a;",
    "find (a:A); report a; @",
    " @",
    "\n\t@ ",
    "make (:X);@",
    "make (:X)\n;\n\n  @",
]


def explore(ctx):
    q = ctx.quick

    def alone():
        for w, ps in PERMS.items():
            for p in ps:
                for c in cases(p, w != "REPORT" or not q):
                    for b in BODY[w]:
                        yield {"q": f"{c} {b}", "w": w}
                        yield {"q": f"{c}\n{b}", "w": w}
                        if b[0] == "(":
                            yield {"q": f"{c}{b}", "w": w}

    ctx.run_all("alone", alone, batch=300, bounds="all 23 + 23 + 359 permutations in " + ("several cases" if q else "every case") + ", alone")

    def placed():
        for w, ps in PERMS.items():
            for p in ps:
                for c in cases(p, not q and w != "REPORT"):
                    for pl in PLACES[1:]:
                        if w != "MAKE" and w != "REPORT" and "find" in pl and q and c != p:
                            continue
                        if w == "REPORT" and q and c not in (p, p.lower()):
                            continue
                        yield {"q": pl.replace("@", f"{c} {BODY[w][0]}"), "w": w}

    ctx.run_all("placed", placed, batch=300, bounds=f"every permutation in {len(PLACES) - 1} places among correct statements")

    def far():
        for n in (5, 12, 25) if q else range(4, 40):
            good = [f"MAKE (:A{i});" for i in range(n)]
            for k in range(n + 1):
                for w, ps in PERMS.items():
                    for p in ps[:: 1 if w != "REPORT" and n < 25 else 40]:
                        yield {"q": " ".join(good[:k] + [f"{p} {BODY[w][0]}"] + good[k:]), "w": w}

    ctx.run_all("far", far, batch=200, bounds="scrambled clauses at every place among up to 25 MAKEs")

    def names():
        words = [(w, p) for w in PERMS for p in [w, *PERMS[w]]]
        for w, p in words:
            for c in (p, p.lower()) if q else (p, p.lower(), p.capitalize()):
                U = c.upper()
                yield {"q": f"MAKE (:{c});", "p": [[["", c, None]]]}
                yield {"q": f"MAKE (:A)-[:{U}]->(:{c});", "p": [[["", "A", None], ["", U, None, ">"], ["", c, None]]]}
                yield {"q": f"MAKE (:B);\nMAKE ({c}:{c}X {{{c}: '{c}'}}), (:X{c});", "p": [[["", "B", None]], [["", c + "X", [[c, "", c]]]], [["", "X" + c, None]]]}
                yield {"q": f"MAKE (:A {{k: 'x {c} y', l: ['{c}', \"{c} z\"], {c}_1: {c}}});", "p": [[["", "A", [["k", "", f"x {c} y"], ["l", "", [c, c + " z"]], [c + "_1", "", c]]]]]}
                yield {"q": f"FIND ({c}:{c}); REPORT {c}.{c}, {c};", "p": []}
                yield {"q": f"MAKE (:{c} {{{c}: 1}})<-[{c}:{U} {{a: '{c}'}}]-(:A); FIND (:A {{{c}: '{c} {c}'}})-[{c}:{U}]->(:{c});", "p": [[["", c, [[c, "", 1]]], ["", U, [["a", "", c]], "<"], ["", "A", None]]]}

    ctx.run_all("names", names, batch=300, bounds="every permutation, and the words themselves, as labels, names, handles, property names and texts")
