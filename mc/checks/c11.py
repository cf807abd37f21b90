"""C11: malformed patterns are refused wherever they stand."""
from mc import bad as B
from mc import sut
from mc.core import Outcome, new_dir

ID = "C11"
RULE = "every malformation of mc/bad.py at every position of every shape, in every slot of the statement structures; the same structures with a good pattern in the slot must be accepted"
ASSUMPTIONS = ["the malformations are those that the documentation or the error messages name"]

_db = [None, 0]


def run(scn):
    o = Outcome()
    # a refused query leaves the database as it is, so that it can be used again
    if _db[0] is None or _db[1] > 300:
        _db[0], _db[1] = sut.create("db", new_dir()), 0
    _db[1] += 1
    g = _db[0]
    ok, err, out = sut.query(scn["q"], g)
    o.transitions += 1
    o.validated += 1
    o.states.add(scn["q"])
    o.distinct.add((scn["kind"], (err or "accepted")[:60]))
    if scn["kind"] == "good":
        _db[0] = None
        if not ok:
            o.bad(f"well formed query refused: {scn['q']!r}: {err}")
    elif ok:
        o.bad(f"malformed query ({scn['kind']}) accepted: {scn['q']!r}")
        _db[0] = None
    return o


ORDERS = [[(), (">",), ("<", ">")], [("<",), (">", ">"), ()], [(">", "<"), (), ("<",)]]


def explore(ctx):
    q = ctx.quick
    orders = ORDERS[:1] if q else ORDERS

    def alone():
        for word in ("MAKE", "FIND"):
            for sh in B.SHAPES:
                yield {"kind": "good", "q": B.render([[None]], B.good_pattern(sh), word)}
                yield {"kind": "good", "q": B.loose(B.render([[None]], B.good_pattern(sh), word))}
                for kind, t in B.bad_patterns(sh, find=word == "FIND"):
                    yield {"kind": kind, "q": f"{word} {t};"}
                    yield {"kind": kind, "q": B.loose(f"{word} {t};")}
                    yield {"kind": kind, "q": f"{word} {t} ;".replace(":", ":  ").replace("(", "( ").replace("[", "[\n\t")}

    ctx.run_all("alone", alone, bounds="MAKE or FIND of one malformed pattern")

    def placed():
        for order in orders:
            for st in B.spots(3, 3 if not q else 2, order):
                for sh in B.SHAPES:
                    if q and len(st) == 3 and len(sh) == 2 and sh != ("<", ">"):
                        continue
                    yield {"kind": "good", "q": B.render(st, B.good_pattern(sh))}
                    for kind, t in B.bad_patterns(sh):
                        yield {"kind": kind, "q": B.render(st, t)}

    ctx.run_all("placed", placed, batch=400, bounds=f"one malformed pattern in every slot of up to 3 MAKE statements of up to {2 if q else 3} patterns ({len(orders)} orders of good patterns)")

    def mixed():
        make = "MAKE " + B.good_pattern((">",)) + ";"
        for st in B.spots(1, 3, orders[0]):
            for sh in B.SHAPES:
                for kind, t in B.bad_patterns(sh, find=True):
                    f = B.render(st, t, "FIND")
                    yield {"kind": kind, "q": f}
                    if len(st[0]) == 1:
                        yield {"kind": kind, "q": make + "\n" + f}
                        yield {"kind": kind, "q": f + "\n" + make}
                        yield {"kind": kind, "q": f + " REPORT *;"}
                for kind, t in B.bad_patterns(sh):
                    if len(st[0]) == 1:
                        m = B.render(st, t, "MAKE")
                        yield {"kind": kind, "q": m + " FIND (:A); REPORT *;"}
                        yield {"kind": kind, "q": "FIND (:A);\n" + m}

    ctx.run_all("mixed", mixed, batch=400, bounds="malformed patterns in every slot of a FIND of up to 3 patterns, and in the MAKE or FIND of a query with both")

    def far():
        kinds = {}
        for sh in B.SHAPES[:4]:
            for kind, t in B.bad_patterns(sh):
                kinds.setdefault((sh, kind), t)
        kinds = sorted((k[1], t) for k, t in kinds.items())
        for n in (5, 9, 17, 33) if q else range(4, 40):
            for k in range(n):
                goods = [B.good_pattern(B.SHAPES[i % len(B.SHAPES)]) for i in range(n)]
                for j, (kind, t) in enumerate(kinds):
                    if n > 9 and (j + k) % 4:
                        continue
                    row = goods[:k] + [t] + goods[k + 1 :]
                    yield {"kind": kind, "q": "MAKE " + ", ".join(row) + ";"}
                    yield {"kind": kind, "q": " ".join(f"MAKE {x};" for x in row)}
            yield {"kind": "good", "q": "MAKE " + ", ".join(goods) + ";"}
            yield {"kind": "good", "q": " ".join(f"MAKE {x};" for x in goods)}

    def further():
        some = {}
        for sh in B.SHAPES[:2] if q else B.SHAPES[:4]:
            for kind, t in B.bad_patterns(sh):
                some.setdefault(kind, t)
        for n in (200, 1001) if q else (100, 200, 500, 1001, 2001):
            goods = [f"(:A{i})-[:R]->(:B {{i: {i}}})" for i in range(n)]
            for kind, t in sorted(some.items()):
                for k in (n - 1, n // 2) if n < 1000 or not q else (n - 1,):
                    row = goods[:k] + [t] + goods[k + 1 :]
                    yield {"kind": kind, "q": "MAKE " + ", ".join(row) + ";"}
                    yield {"kind": kind, "q": " ".join(f"MAKE {x};" for x in row)}
            yield {"kind": "good", "q": "MAKE " + ", ".join(goods) + ";"}
            yield {"kind": "good", "q": " ".join(f"MAKE {x};" for x in goods)}

    ctx.run_all("further", further, batch=2, bounds="every malformation at the last place of 1001 patterns or statements, and in the middle of 200 (2001 in thorough)")

    ctx.run_all("far", far, batch=100, bounds="every malformation at every place among up to 9 patterns or statements, a quarter of them at each place among up to 33")
