"""C12: which clauses may stand together in a query."""
import itertools

from mc import model as M
from mc import sut
from mc import words as W
from mc.core import Outcome

ID = "C12"
RULE = "every sequence of statements of the enumeration is run on the real code; it must be accepted exactly when the rules allow it"
ASSUMPTIONS = ["text that starts with none of the words is not a statement of the language yet and not part of the enumeration"]
_bench = sut.Bench()

MAKES = ["MAKE (:A);", "MAKE (m:B)-[q:R]->(a:A {a: 1});", "make (:A), (:C)<-[:S]-(:D);"]
FINDS = ["FIND (a:A);", "FIND (a:A)-[r:R]->(b:B {p: 1});", "find (:A);", "FIND (a:A), (c:C)<-[s:S]-(d:D);"]
REPORTS = ["REPORT *;", "REPORT a;", "report a.p, a;"]


def run(scn):
    o = Outcome()
    text, want = scn["q"], scn["ok"]
    ok, err, out, d, after = _bench.query(text)
    o.transitions += 1
    o.validated += 1
    o.states.add(text)
    o.distinct.add((ok, (err or "").split(":")[0], scn.get("nodes")))
    if ok != want:
        o.bad(f"{text!r} {'accepted' if ok else 'refused: ' + str(err)}, the rules say {'accept' if want else 'refuse'}")
    elif d is None:
        o.bad(f"{text!r} changed what was stored")
    elif "nodes" in scn and len(d[0]) != (scn["nodes"] if ok else 0):
        o.bad(f"{text!r} ({'accepted' if ok else 'refused'}) made {len(d[0])} nodes")
    return o


COUNT = {MAKES[0]: 1, MAKES[1]: 2, MAKES[2]: 3}
HAS_A = {FINDS[0], FINDS[1], FINDS[3]}


def allowed(stmts):
    m = [s for s in stmts if s in MAKES]
    f = [s for s in stmts if s in FINDS]
    r = [s for s in stmts if s in REPORTS]
    if len(f) > 1 or len(r) > 1 or not (m or f) or (r and not f):
        return False
    if r and r[0] != REPORTS[0] and f[0] not in HAS_A:
        return False
    return True


def explore(ctx):
    q = ctx.quick

    def kinds():
        alpha = [MAKES[0], FINDS[0], REPORTS[0]]
        for n in range(0, (6 if q else 8) + 1):
            for t in itertools.product(alpha, repeat=n):
                for sep in (" ", "\n") if n < 6 else (" ",):
                    yield {"q": sep.join(t), "ok": allowed(t), "nodes": sum(COUNT.get(s, 0) for s in t)}

    ctx.run_all("kinds", kinds, batch=50, bounds=f"all sequences of up to {6 if q else 8} of one MAKE, FIND and REPORT")

    def forms():
        alpha = MAKES + FINDS + REPORTS
        for n in range(1, (4 if q else 5) + 1):
            for t in itertools.product(alpha, repeat=n):
                if q and n == 4 and sum(s in MAKES for s in t) > 2:
                    continue
                yield {"q": " ".join(t), "ok": allowed(t), "nodes": sum(COUNT.get(s, 0) for s in t)}

    ctx.run_all("forms", forms, batch=100, bounds=f"all sequences of up to {4 if q else 5} of {len(MAKES + FINDS + REPORTS)} statements")

    def nothing():
        for s in ("", " ", "\n", ";", " ; ", ";;", "\t\n"):
            yield {"q": s, "ok": False, "nodes": 0}

    ctx.run_all("nothing", nothing)

    finds = [
        ("FIND (a:A);", ["a"]),
        ("FIND (a:A {p: 1});", ["a"]),
        ("FIND (:A);", []),
        ("FIND (:A)-[:R]->(:B);", []),
        ("FIND (a:A)-[r:R]->(b:B);", ["a", "r", "b"]),
        ("FIND (:A)<-[r:R]-(b:B);", ["r", "b"]),
        ("FIND (a:A)-[r:R {p: 'x'}]->(:B)<-[s:S]-(c:C);", ["a", "r", "s", "c"]),
        ("FIND (a1:A)-[r_2:R]->(handle:B)-[x:S]->(y:C);", ["a1", "r_2", "handle", "x", "y"]),
        ("FIND (a:A), (b:B)-[r:R]->(:C);", ["a", "b", "r"]),
        ("FIND (p:A)-[A:R]->(wn:B);", ["p", "A", "wn"]),
    ]
    unknown = ["x1", "A", "B", "R", "p", "q", "aa", "a_", "ab", "1"]

    def items(hs, un):
        for h in hs:
            yield h, True
            yield h + ".p", True
            yield f"wn({h})", True
        for u in un:
            if u not in hs:
                yield u, False
                yield u + ".p", False
                yield f"wn({u})", False

    def bodies():
        for f, hs in finds:
            its = list(items(hs, unknown[: 4 if q else 10]))
            yield {"q": f + " REPORT *;", "ok": True}
            for n in (1, 2):
                for t in itertools.product(its, repeat=n):
                    body, ok = ", ".join(x[0] for x in t), all(x[1] for x in t)
                    yield {"q": f"{f} REPORT {body};", "ok": ok}
                    if n == 1:
                        for w in (f"REPORT {body}; {f}", f"{f}\nreport  {body} ;", f"MAKE (zz:A);\n{f} REPORT\n{body};", f"{f} MAKE (zz:A); REPORT {body};"):
                            yield {"q": w, "ok": ok}
            good = [x for x in its if x[1]]
            for i in range(len(good)):
                for b in (x for x in its if not x[1]):
                    for pos in range(3):
                        l = [good[i][0], good[-1 - i][0]]
                        l.insert(pos, b[0])
                        yield {"q": f"{f} REPORT {','.join(l)};", "ok": False}
            for hs3 in itertools.permutations(hs, min(3, len(hs))):
                if hs3:
                    yield {"q": f"{f} REPORT {','.join(hs3)};", "ok": True}

    ctx.run_all("reports", bodies, batch=300, bounds=f"{len(finds)} FINDs x all REPORT bodies of 1 and 2 items (handle, property, function; known and unknown), unknown ones at every place of 3")

    def of_make():
        for m, h in (("MAKE (m:A);", "m"), ("MAKE (a:A)-[r:R]->(m:B);", "m")):
            for f in ("FIND (a:A);", "FIND (:A);"):
                for order in itertools.permutations([m, f, f"REPORT {h};"]):
                    yield {"q": " ".join(order), "ok": False, "nodes": 0}

    ctx.run_all("handles of a MAKE", of_make)

    def far():
        for n in range(2, 26 if q else 60):
            m = [f"MAKE (:A{i});" for i in range(n)]
            for i in range(n + 1):
                a = m[:i] + ["FIND (a:A);"] + m[i:]
                yield {"q": " ".join(a), "ok": True, "nodes": n}
                for j in range(0, n + 2):
                    yield {"q": " ".join(a[:j] + ["REPORT a;"] + a[j:]), "ok": True, "nodes": n}
                    yield {"q": " ".join(a[:j] + ["FIND (:A);"] + a[j:]), "ok": False, "nodes": n}
                yield {"q": " ".join(m[:i] + ["REPORT *;"] + m[i:]), "ok": False, "nodes": n}
        for n in (400,) if q else (200, 400, 1000):
            m = [f"MAKE (:A{i});" for i in range(n)]
            for i in (0, n // 2, n):
                a = m[:i] + ["FIND (a:A);"] + m[i:]
                for j in (0, n // 3, n + 1):
                    yield {"q": " ".join(a[:j] + ["REPORT a;"] + a[j:]), "ok": True, "nodes": n}
                    yield {"q": " ".join(a[:j] + ["FIND (:A);"] + a[j:]), "ok": False, "nodes": n}
                    yield {"q": " ".join(a[:j] + ["REPORT b;"] + a[j:]), "ok": False, "nodes": n}
        for n in (400,) if q else (200, 400, 1000):
            hs = [f"h{i}" for i in range(3 * n)]
            f = "FIND " + ", ".join(f"({hs[3 * i]}:A)-[{hs[3 * i + 1]}:R]->({hs[3 * i + 2]}:B)" for i in range(n)) + "; REPORT "
            yield {"q": f + ", ".join(hs) + ";", "ok": True}
            for i in (0, n, 3 * n - 1):
                yield {"q": f + ", ".join(hs[:i] + ["no"] + hs[i + 1 :]) + ";", "ok": False}
        for n in range(1, 40):
            hs = [f"h{i}" for i in range(3 * n)]
            f = "FIND " + ", ".join(f"({hs[3 * i]}:A)-[{hs[3 * i + 1]}:R]->({hs[3 * i + 2]}:B)" for i in range(n)) + "; REPORT "
            yield {"q": f + ", ".join(hs) + ";", "ok": True}
            for i in range(len(hs)):
                yield {"q": f + ", ".join(hs[:i] + ["no"] + hs[i + 1 :]) + ";", "ok": False}

    ctx.run_all("far", far, batch=100, bounds="a FIND and a REPORT, or a second FIND, at every place among up to 25 MAKEs; every place in a REPORT of up to 117 handles; 400 MAKEs and a REPORT of 1200 handles")

    def alike():
        # a handle of the REPORT that is almost one of the FIND
        for a, b in [*W.pairs(), *W.long_pairs()]:
            for f, hs in ((f"FIND ({a}:A);", [a]), (f"FIND (:A)-[{a}:R]->(zz:B);", [a, "zz"]), (f"FIND (zz:A)<-[:R]-({a}:{b});", [a, "zz"]), (f"FIND (zz:A {{{b}: 'x {b}'}})-[:R]->(yy:B), ({a}:A);", [a, "zz", "yy"])):
                for h in hs:
                    yield {"q": f"{f} REPORT {h};", "ok": True}
                for r in (b, f"{b}.p", f"wn({b})", f"{a}, {b}", f"{b}, {a}", f"{a}.{b}, {b}"):
                    yield {"q": f"{f} REPORT {r};", "ok": False}
                yield {"q": f"{f} REPORT {a}.{b};", "ok": True}
                yield {"q": f"REPORT {b}; {f} MAKE ({b}:A);", "ok": False}
            yield {"q": f"FIND ({a}:A)-[:R]->({b}:A); REPORT {b}, {a}, wn({b});", "ok": True}
        # a piece of a handle, handles one after another, and a handle of two others
        hs = ["ab", "cd", "efg"]
        for u in ("a", "b", "bc", "abcd", "ab_cd", "ef", "fg", "f", "dc", "ba", "cde", "abc"):
            for t in itertools.permutations(hs):
                yield {"q": f"FIND ({t[0]}:A)-[{t[1]}:R]->({t[2]}:B); REPORT {u};", "ok": False}
                yield {"q": f"FIND ({t[0]}:A)-[{t[1]}:R]->({t[2]}:B); REPORT {t[2]}, {u}, {t[0]};", "ok": False}

    ctx.run_all("alike", alike, batch=100, bounds=f"{2 * len(W.ALIKE)} pairs of handles that are almost the same, and long ones, of which the FIND has one; pieces of handles")
