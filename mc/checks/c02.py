"""C02: a refused query changes nothing, and later queries do not notice it."""
import itertools

from mc import bad as B
from mc import sut
from mc.core import Outcome, new_dir

ID = "C02"
RULE = "every refused query: database, indexes and number before and after it, then a correct query compared with a control database that never saw the refused one"
ASSUMPTIONS = ["a query that the implementation accepts says nothing here (C11 to C13 decide what must be refused)"]

PRES = {
    "empty": [],
    "small": ["MAKE (:A {z: 1})-[:R {y: 2}]->(:B);"],
    "nine": ["MAKE (:A {z: 1})-[:R]->(:B)<-[:S]-(:A), (:C), (:D), (:E);", "MAKE (:L0), (:C);"],
}
FOLLOW = "MAKE (n:N {v: 1})<-[:Q]-(:A)-[:R]->(:M), (:B); FIND (:A);"


def run(scn):
    o = Outcome()
    d = new_dir()
    g, c = sut.create("db", d), sut.create("control", d)
    pre = PRES[scn["pre"]]
    for q in pre:
        for x in (g, c):
            ok, err, _ = sut.query(q, x)
            if not ok:
                o.bad(f"well formed query refused {q!r}: {err}")
                return o
    try:
        before = sut.Db(g)
        refused = 0
        for q in scn["bad"]:
            ok, err, out = sut.query(q, g)
            o.transitions += 1
            if ok:
                o.distinct.add("accepted")
                return o
            refused += 1
            after = sut.Db(g)
            o.validated += 1
            o.distinct.add((scn["pre"], err[:40]))
            if after.exact() != before.exact():
                o.bad(f"refused ({err}) but changed the files: {q!r}: {before.key()} -> {after.key()}")
                return o
        o.states.add((scn["pre"], tuple(scn["bad"])))
        if scn.get("follow"):
            ra, rb = sut.query(FOLLOW, g), sut.query(FOLLOW, c)
            o.transitions += 1
            da, db = sut.Db(g), sut.Db(c)
            if (ra[0], ra[2]) != (rb[0], rb[2]) or da.key() != db.key():
                o.bad(f"after the refused {scn['bad']!r}: {FOLLOW!r} gives {ra} {da.key()}, without it {rb} {db.key()}")
    except sut.Corrupt as e:
        o.bad(f"after the refused {scn['bad']!r}: {e}")
    return o


def representatives():
    """One malformed pattern per kind and shape and element (not every variant)."""
    for sh in B.SHAPES:
        seen = {}
        for kind, t in B.bad_patterns(sh):
            seen.setdefault(kind, []).append(t)
        for kind, ts in seen.items():
            for t in {ts[0]: 1, ts[-1]: 1, ts[len(ts) // 2]: 1}:
                yield kind, t


GOODS = ["MAKE (:G {a: 1});", "MAKE (:G)-[:W]->(:H {b: 'x'});", "MAKE (:G), (:H)<-[:W]-(:A)-[:R]->(:B);"]
CLAUSE_ERRORS = [
    "FIND (:A); FIND (:B);", "FIND (:A); FIND (:A);", "REPORT a;", "REPORT *;", "FIND (a:A); REPORT b;", "FIND (a:A); REPORT a; REPORT a;", "FIND (:A {i: True});", "FIND (:A)-[:R {n: None}]->(:B);",
    "FIND (:A), (:B {n: NULL});", "FIND (:A)<-[:R]->(:B);", "FIND (:A)-[:r]->(:B);", "FIND (:A {i: 1, i: 2});", "FIND (a:A)-[a:R]->(:B);", "FNID (:A);", "MKAE (:A);", "RPEORT a;", "FIND (:A); TROPER *;",
    "FIND (:A#);", "FIND (:A {l: [[1]]});", "FIND (:A", "MAKE (:A", "MAKE -[:X]->(:A);", "FIND (:A {i: });", "FIND (:A)-[:R]->;", "MAKE (:X {l: ['a' 'b']});", "FIND ();", "MAKE ();",
]


def explore(ctx):
    quick = ctx.quick
    reps = list(representatives())
    everything = [(k, t) for sh in B.SHAPES for k, t in B.bad_patterns(sh)]

    def placed():
        for pre in PRES:
            for st in B.spots(3, 2 if quick else 3, [(">",), (), ("<", ">")]):
                for kind, t in reps:
                    if quick and (len(st) == 3 or sum(map(len, st)) == 4) and (pre != "small" or len(kind) % 3):
                        continue
                    yield {"pre": pre, "bad": [B.render(st, t)], "follow": len(st) < 3}

    ctx.run_all("placed", placed, bounds="representatives of every malformation per shape in every slot of up to 3 statements of up to 2 patterns (3 in thorough), on 3 databases (quick: 3 statements with a third of the kinds on one database)")

    def all_bad():
        for pre in PRES:
            for kind, t in everything:
                yield {"pre": pre, "bad": [f"{GOODS[0]}\nMAKE (:G), {t};"], "follow": False}
                yield {"pre": pre, "bad": [f"MAKE {t}, (:G);\n{GOODS[1]}"], "follow": False}
                if not quick:
                    yield {"pre": pre, "bad": [f"{GOODS[2]} FIND {t}; {GOODS[0]}"], "follow": False}

    ctx.run_all("all", all_bad, bounds="every malformation between good parts")

    def clauses():
        for pre in PRES:
            for n in range(0, 3):
                for goods in itertools.product(GOODS, repeat=n):
                    for e in CLAUSE_ERRORS:
                        for pos in range(n + 1):
                            q = list(goods[:pos]) + [e] + list(goods[pos:])
                            yield {"pre": pre, "bad": ["\n".join(q)], "follow": True}

    ctx.run_all("clauses", clauses, bounds="clause level and FIND errors at every place among up to 2 good MAKE statements")

    def sequences():
        some = [f"{GOODS[0]} MAKE {t};" for _, t in reps[:: max(1, len(reps) // (12 if quick else 40))]] + [GOODS[1] + e for e in CLAUSE_ERRORS[:: 3 if quick else 1]]
        for pre in PRES:
            for a, b in itertools.product(some, repeat=2):
                yield {"pre": pre, "bad": [a, b], "follow": True}

    ctx.run_all("sequences", sequences, bounds="every pair of refused queries of a list, then a correct one")

    def far():
        some = reps[:: max(1, len(reps) // 8)]
        for pre in list(PRES)[:1] if quick else PRES:
            for n in (4, 9, 17, 33) if quick else range(4, 66):
                for k in range(n):
                    for kind, t in some if not k % 4 or k > n - 3 else some[:2]:
                        row = [[f"(:G{i})"] for i in range(n)]
                        row[k] = [t]
                        yield {"pre": pre, "bad": [B.render(row, "")], "follow": k == n - 1}
                        yield {"pre": pre, "bad": ["MAKE " + ", ".join(x[0] for x in row) + ";"], "follow": False}
                        if k == n - 1:
                            for e in CLAUSE_ERRORS:
                                yield {"pre": pre, "bad": [B.render(row[:-1], "") + " " + e], "follow": False}

    def further():
        kinds = {k: t for k, t in reps}
        for n in (1001,) if quick else (300, 1001, 2001):
            goods = [f"(:A{i})-[:R]->(:B {{i: {i}}})" for i in range(n)]
            for kind, t in sorted(kinds.items()):
                row = goods[:-1] + [t]
                yield {"pre": "small", "bad": ["MAKE " + ", ".join(row) + ";"], "follow": False}
                yield {"pre": "small", "bad": [" ".join(f"MAKE {x};" for x in row)], "follow": not quick}

    ctx.run_all("further", further, batch=2, bounds="every malformation after 1000 good patterns or statements (2000 in thorough)")

    ctx.run_all("far", far, bounds="malformations at every place among up to 33 patterns or statements")
