"""C25: a refused query is told what is wrong with it."""
import itertools

from mc import bad as B
from mc import sut
from mc.core import Outcome, new_dir
from mc.sut import _query

ID = "C25"
RULE = "every query of the enumeration is refused with an error of WiggleGraph's own; one with a single mistake with the error of that mistake, quoting the part at fault"
ASSUMPTIONS = ["the kinds of error and the parts they quote are those that the error messages of the repository show for a single statement"]

_db = [None, 0]

CLAUSE, DIRECTED, UPPER, CHAR, PARAM, VALUE = "ClauseSyntaxError", "NonDirectedRelationshipError", "RelationshipNameSyntaxError", "IllegalCharacterError", "ParamSyntaxError", "WiggleGraphIllegalPropertyValue"
HANDLES, MULTI, REPORT, VALID = "MakeDuplicateHandlesError", "MultipleClauseStatementsError", "FindReportHandleMissmatch", "NotAValidQueryError"


def squeeze(s):
    return "".join(s.split())


def run(scn):
    from exceptions.wiggle_base_exception import WiggleGraphBaseException

    o = Outcome()
    if _db[0] is None or _db[1] > 300:
        _db[0], _db[1] = sut.create("db", new_dir()), 0
    _db[1] += 1
    text = scn["q"]
    import io

    buf = io.StringIO()
    err = None
    try:
        with sut.captured(buf):
            _query(text, _db[0])
    except Exception as e:
        err = e
    o.transitions += 1
    o.validated += 1
    o.states.add(text)
    if err is None:
        _db[0] = None
        o.distinct.add("accepted")
        if scn.get("kind"):
            o.bad(f"accepted, with this mistake: {scn['kind']}: {text!r}")
        return o
    name, msg = type(err).__name__, str(err)
    o.distinct.add((name, scn.get("kind")))
    if not isinstance(err, WiggleGraphBaseException):
        o.bad(f"refused with an error of Python, not of WiggleGraph: {name}: {msg[:200]}: {text!r}")
        return o
    said = msg[len(name) + 1 :] if msg.startswith(name + ":") else msg
    if not said.strip():
        o.bad(f"refused with {name} and no message: {text!r}")
    want = scn.get("error")
    if want and name != want:
        o.bad(f"refused with {msg[:200]!r}, a mistake of this kind: {scn['kind']} ({want}): {text!r}")
    for n in scn.get("says", ()):
        if squeeze(n) not in squeeze(said):
            o.bad(f"the error of a mistake of this kind: {scn['kind']}, does not name {n!r}: {msg[:200]!r}: {text!r}")
    return o


# (kind, properties, error, what the error names)
BAD_PROPS = [
    ("missing colon", "{zi 1}", PARAM, ["{zi 1}"]),
    ("missing colon", "{zi: 1, zj 2}", PARAM, ["{zi: 1, zj 2}"]),
    ("missing comma", "{zi: 1 zj: 2}", PARAM, ["{zi: 1 zj: 2}"]),
    ("empty value", "{zi: }", VALUE, ["zi"]),
    ("empty value", "{i: 1, zj: }", VALUE, ["zj"]),
    ("empty value", "{zi: , j: 2}", VALUE, ["zi"]),
    ("missing brace", "{zi: 1", CLAUSE, ["zi: 1"]),
    ("missing brace", "zi: 1}", CLAUSE, ["zi: 1}"]),
    ("upper case bool", "{i: True}", VALUE, ["True"]),
    ("upper case bool", "{i: 1, j: False}", VALUE, ["False"]),
    ("upper case null", "{i: NULL}", VALUE, ["NULL"]),
    ("none as text", "{i: None}", VALUE, ["None"]),
    ("list missing comma", "{l: [1 27]}", PARAM, ["[1 27]"]),
    ("list missing comma", "{l: ['az' 'bz']}", VALUE, ["['az' 'bz']"]),
    ("list missing bracket", "{zl: [1, 2}", CLAUSE, ["{zl: [1, 2}"]),
    ("text without quotes in a list", "{l: [1, word]}", PARAM, ["word"]),
    ("illegal character", "{s: 'a#b'}", CHAR, ["#"]),
    ("illegal character", '{s: "50%"}', CHAR, ["%"]),
    ("given twice", "{zi: 1, zi: 2}", VALUE, ["zi"]),
    ("given twice", "{i: 1, zk: 3, zk: 'x'}", VALUE, ["zk"]),
    ("too large", "{f: %s.5}" % ("9" * 320), VALUE, ["9" * 320]),
]


def faults(shape, find=False):
    """One mistake in one pattern: (kind, text of the pattern, error, what the error names)."""
    nodes, rels = B.parts(shape)
    for i, n in enumerate(nodes):
        n[0], n[1] = f"zh{i}", f"ZL{i}"
    for i, r in enumerate(rels):
        r[0], r[1] = f"zr{i}", f"ZR{i}"
    nt, rt = [B.ntext(n) for n in nodes], [B.rtext(r) for r in rels]

    def with_node(i, t):
        return B.join(nt[:i] + [t] + nt[i + 1 :], rt)

    def with_rel(i, t):
        return B.join(nt, rt[:i] + [t] + rt[i + 1 :])

    for i, (h, l, p) in enumerate(nodes):
        if not find:
            for t in ("()", f"({h})", f"({h}:)", f"(:{p})"):
                yield "no label", with_node(i, t), CLAUSE, []
        yield "missing parenthesis", with_node(i, f"({h}:{l}{p}"), CLAUSE, []
        yield "missing parenthesis", with_node(i, f"{h}:{l}{p})"), CLAUSE, []
        for c in B.ILLEGAL:
            yield "illegal character", with_node(i, f"({h}:{l}{c}{p})"), CHAR, [c]
        for kind, b, e, says in BAD_PROPS:
            yield kind, with_node(i, f"({h}:{l} {b})"), e, says
    for i, (h, m, p, d) in enumerate(rels):
        a, z = ("-", "->") if d == ">" else ("<-", "-")
        for name in (f"[{h}:{m}{p}]", f"[:{m}]", f"[{h}:]"):
            yield "undirected", with_rel(i, f"-{name}-"), DIRECTED, [name]
            yield "directed twice", with_rel(i, f"<-{name}->"), DIRECTED, [name]
        for name in (m.lower(), "Zel", "zEL", "ZEl", "z", "zel_1"):
            yield "not upper case", with_rel(i, f"{a}[{h}:{name}{p}]{z}"), UPPER, [name, name.upper()]
            yield "not upper case", with_rel(i, f"{a}[:{name}]{z}"), UPPER, [name, name.upper()]
        yield "missing bracket", with_rel(i, f"{a}{h}:{m}{p}]{z}"), CLAUSE, [m]
        yield "missing bracket", with_rel(i, f"{a}[{h}:{m}{p}{z}"), CLAUSE, [m]
        for c in B.ILLEGAL:
            yield "illegal character", with_rel(i, f"{a}[{h}:{m}{c}{p}]{z}"), CHAR, [c]
        for kind, b, e, says in BAD_PROPS:
            yield kind, with_rel(i, f"{a}[{h}:{m} {b}]{z}"), e, says
    m = len(nodes) + len(rels)
    for i, j in itertools.combinations(range(m), 2):
        ns, rs = [list(n) for n in nodes], [list(r) for r in rels]
        allp = ns + rs
        allp[j][0] = allp[i][0]
        yield "same handle twice", B.join([B.ntext(n) for n in ns], [B.rtext(r) for r in rs]), HANDLES, [allp[i][0]]


def scn(kind, q, error, says):
    return {"kind": kind, "q": q, "error": error, "says": says}


ORDERS = [[(), (">",), ("<", ">")], [("<",), (">", ">"), ()], [(">", "<"), (), ("<",)]]


TOK = ["(", ")", ":", "A", "a", "{", "}", "[", "]", "-[", "]->", "'", "1", ",", ".", ";", "i: 1", " ", "-", "(:A)", "MAKE ", "FIND ", "REPORT ", "<-[", "\n", '"', "null", "é", "@", "2.5"]
FRAMES = ["MAKE (:A %s);", "MAKE (%s);", "MAKE (:A {%s});", "MAKE (:A {i: %s});", "FIND (%s);", "%s", "FIND (a:A); REPORT %s;", "MAKE (:A)-[%s]->(:B);", "MAKE (:A {l: [%s]});", "MAKE (:A {l: [1, %s, 'x']});", "MAKE (:A {s: '%s'});", "MAKE (:A)%s(:B);"]


def explore(ctx):
    q = ctx.quick

    def alone():
        for word in ("MAKE", "FIND"):
            for sh in B.SHAPES:
                for kind, t, e, says in faults(sh, word == "FIND"):
                    yield scn(kind, f"{word} {t};", e, says)
                    yield scn(kind, B.loose(f"{word} {t};"), e, says)

    ctx.run_all("alone", alone, bounds="MAKE or FIND of one pattern with one mistake")

    def placed():
        for order in ORDERS[:1] if q else ORDERS:
            for st in B.spots(3, 2 if q else 3, order):
                for sh in B.SHAPES:
                    if q and len(st) == 3 and len(sh) == 2 and sh != ("<", ">"):
                        continue
                    for kind, t, e, says in faults(sh):
                        yield scn(kind, B.render(st, t), e, says)

    ctx.run_all("placed", placed, batch=400, bounds=f"one mistake in every slot of up to 3 MAKE statements of up to {2 if q else 3} patterns")

    def mixed():
        make = "MAKE " + B.good_pattern((">",)) + ";"
        for st in B.spots(1, 3, ORDERS[0]):
            for sh in B.SHAPES:
                for kind, t, e, says in faults(sh, True):
                    f = B.render(st, t, "FIND")
                    yield scn(kind, f, e, says)
                    if len(st[0]) == 1:
                        yield scn(kind, make + "\n" + f, e, says)
                        yield scn(kind, f + "\n" + make, e, says)
                        yield scn(kind, f + " REPORT *;", e, says)
                for kind, t, e, says in faults(sh):
                    if len(st[0]) == 1:
                        m = B.render(st, t, "MAKE")
                        yield scn(kind, m + " FIND (:A); REPORT *;", e, says)
                        yield scn(kind, "FIND (:A);\n" + m, e, says)

    ctx.run_all("mixed", mixed, batch=400, bounds="one mistake in the MAKE or the FIND of a query with several clauses")

    def clauses():
        makes = ["", "MAKE (:M);", "MAKE (m:M)-[q:Q]->(:N); MAKE (:O), (:P);"]
        for m in makes:
            for a, b in itertools.product(["FIND (a:A);", "find (b:B)<-[r:R]-(:C);"], repeat=2):
                for t in {f"{m} {a} {b}", f"{a} {m} {b}", f"{a} {b} {m}"}:
                    yield scn("two FINDs", t, MULTI, ["FIND"])
                    yield scn("two FINDs", t + " REPORT *;", MULTI, ["FIND"])
            for a, b in itertools.product(["REPORT *;", "report a;", "REPORT a.i, wn(a);"], repeat=2):
                for t in {f"{m} FIND (a:A); {a} {b}", f"{a} FIND (a:A); {m} {b}", f"{a} {b} FIND (a:A); {m}"}:
                    yield scn("two REPORTs", t, MULTI, ["REPORT"])
            for r in ("*", "a", "a.i"):
                yield scn("REPORT without FIND", f"{m} REPORT {r};", VALID if r == "*" else None, [])
                yield scn("REPORT without FIND", f"REPORT {r}; {m}", VALID if r == "*" else None, [])
            for good in ([], ["a"], ["b.i"], ["a", "wn(b)"]):
                for badh in ("zed", "A", "zed.i", "wn(zed)", "aa", "R"):
                    for k in range(len(good) + 1):
                        body = ", ".join(good[:k] + [badh] + good[k:])
                        h = badh.replace("wn(", "").replace(")", "").split(".")[0]
                        yield scn("unknown handle", f"{m} FIND (a:A)-[:R]->(b:B); REPORT {body};", REPORT, [h])
                        yield scn("unknown handle", f"REPORT {body}; {m} FIND (:C), (a:A)<-[:R]-(b:B);", REPORT, [h])
        for t in ("", " ", "\n", ";", "hello", "hello;", "(:A)", "foo (:A);", "MAKER", "help me;", "1", "FOUND (:A);"):
            yield scn("no clause", t, VALID, [])

    ctx.run_all("clauses", clauses, batch=50, bounds="every wrong composition of clauses, unknown handles at every place")

    def far():
        kinds = {}
        for sh in B.SHAPES[:4]:
            for kind, t, e, says in faults(sh):
                kinds.setdefault((sh, kind), (t, e, says))
        kinds = sorted((k[1], *x) for k, x in kinds.items())
        for n in (5, 9, 17, 33) if q else range(4, 40):
            for k in range(n):
                goods = [B.good_pattern(B.SHAPES[i % len(B.SHAPES)]) for i in range(n)]
                for j, (kind, t, e, says) in enumerate(kinds):
                    if n > 9 and (j + k) % 4:
                        continue
                    row = goods[:k] + [t] + goods[k + 1 :]
                    yield scn(kind, "MAKE " + ", ".join(row) + ";", e, says)
                    yield scn(kind, " ".join(f"MAKE {x};" for x in row), e, says)

    def further():
        some = {}
        for sh in B.SHAPES[1:3] if q else B.SHAPES[:4]:
            for kind, t, e, says in faults(sh):
                some.setdefault(kind, (t, e, says))
        for n in (1001,) if q else (200, 500, 1001, 2001):
            goods = [f"(:A{i})-[:R]->(:B {{i: {i}}})" for i in range(n)]
            for kind, (t, e, says) in sorted(some.items()):
                for k in (n - 1,) if q else (n - 1, n // 2):
                    row = goods[:k] + [t] + goods[k + 1 :]
                    yield scn(kind, "MAKE " + ", ".join(row) + ";", e, says)
                    yield scn(kind, " ".join(f"MAKE {x};" for x in row), e, says)

    ctx.run_all("further", further, batch=2, bounds="every mistake at the last place of 1001 patterns or statements (2001 in thorough)")

    ctx.run_all("far", far, batch=100, bounds="every mistake at every place among up to 9 patterns or statements, a quarter of them at each place among up to 33")

    def tokens():
        for n in (0, 1, 2, 3) if q else (0, 1, 2, 3, 4):
            tok = TOK if n < 4 else TOK[:23:2] + ["[", "'", "-["]
            if q and n == 3:
                tok = TOK[:19]
            for t in itertools.product(tok, repeat=n):
                for f in FRAMES:
                    yield {"q": f % "".join(t)}

    ctx.run_all("tokens", tokens, batch=400, bounds=f"all sequences of up to {3 if q else 4} tokens in {len(FRAMES)} places")

    def odd():
        chars = [chr(c) for c in range(0, 256)] + list("٣²Ⅷ½\u2028\u3000\ufeff\ud800İßǅ‿")
        for c in chars:
            for f in FRAMES:
                for t in (c, c + c, "a" + c, c + "1", "1" + c, "'" + c + "'", "x: " + c):
                    yield {"q": f % t}

    ctx.run_all("odd", odd, batch=100, bounds="every character up to 255 and some others in every place")

    def digits():
        for n in (4300, 4301) if q else (4299, 4300, 4301, 8000):
            for f in FRAMES:
                for t in ("9" * n, "0." + "1" * n, "9" * n + ".5", "x: " + "9" * n, "1, " + "7" * n):
                    yield {"q": f % t}

    ctx.run_all("digits", digits, batch=5, bounds="very long numbers in every place")
