"""C08: a FIND, with its criteria, is understood exactly as written."""
import copy
import itertools

from mc import findpre as F
from mc import model as M
from mc.core import Outcome
from mc.sut import pkey

ID = "C08"
RULE = "the prepared form of every FIND of the enumeration is compared with the abstract pattern it was written from; with criteria, it is then prepared again without"
ASSUMPTIONS = ["criteria are given to process_parsed_find, because the language has no CRITERIA clause yet"]
SHAPES = [()] + [(d,) for d in "><"] + [(a, b) for a in "><" for b in "><"]

VALUES = [
    ["i", "1", 1],
    ["s", "'x y'", "x y"],
    ["b", "true", True],
    ["f", "2.5", 2.5],
    ["z", "null", None],
    ["l", "[1, 'a', true]", [1, "a", True]],
    ["t", "bare", "bare"],
]


def several(o, ps, crit):
    text = M.stmt_text("FIND", ps)
    given = copy.deepcopy(crit)
    for c in (given, None, given):
        got, err = F.real_all(text, c)
        want = F.flat([F.expected(p, c) for p in ps])
        o.transitions += 1
        o.validated += 1
        o.states.add((text, repr(c)))
        o.distinct.add(got)
        if got != want:
            o.bad(f"{text!r} with criteria {c} prepared as {got} ({err}), expected {want}")
            return
    if given != crit:
        o.bad(f"criteria {crit} changed to {given}")


def run(scn):
    o = Outcome()
    if "ps" in scn:
        several(o, scn["ps"], scn["crit"])
        return o
    p = scn["p"]
    text = M.stmt_text("FIND", [p])
    if scn.get("wrap"):
        text = scn["wrap"].replace("@", text)
    crit = scn.get("crit")
    steps = [None] if crit is None else [crit, None, crit]
    for c in steps:
        given = copy.deepcopy(c)
        got, err = F.real(text, given)
        want = F.expected(p, c)
        o.transitions += 1
        o.validated += 1
        o.states.add((text, repr(c)))
        o.distinct.add(got)
        if got != want:
            o.bad(f"{text!r} with criteria {c} prepared as {got} ({err}), expected {want}")
            return o
        if given != c:
            o.bad(f"criteria {c} changed to {given}")
    if crit is not None:
        # one parsed FIND and one criteria object used again and again
        pf = F.parse_find_statement_from_query_string(text)
        pc = F.criteria(crit)
        before = repr(pc)
        for k in range(2):
            if F.plain(F.process_parsed_find(parsed_find=pf, parsed_criteria=pc)) != F.expected(p, crit):
                o.bad(f"{text!r} with the same criteria object {crit} prepared differently at use {k}")
            if repr(pc) != before:
                o.bad(f"preparing {text!r} changed the criteria from {before} to {pc!r}")
        if F.plain(F.process_parsed_find(parsed_find=pf, parsed_criteria=None)) != F.expected(p, None):
            o.bad(f"{text!r} without criteria prepared differently after criteria {crit}")
    return o


def pattern(shape, labels="ABC", names="RS", handles=None, props=None):
    m = 2 * len(shape) + 1
    handles = handles or [""] * m
    props = props or [None] * m
    p = []
    for i in range(m):
        if i % 2 == 0:
            p.append([handles[i], labels[i // 2], props[i]])
        else:
            p.append([handles[i], names[i // 2], props[i], shape[i // 2]])
    return p


HANDLES = ["a", "r", "b", "s", "c"]


def explore(ctx):
    q = ctx.quick

    def labels():
        for sh in SHAPES:
            n = len(sh) + 1
            for ls in itertools.product(["A", "B", "Ab1"], repeat=n):
                for ns in itertools.product(["R", "S", "", "A", "R_1"], repeat=n - 1):
                    for hs in ([""] * 5, HANDLES):
                        yield {"p": pattern(sh, ls, ns, hs)}

    ctx.run_all("labels", labels, batch=400, bounds="7 shapes x all assignments of 3 labels and 5 names, with and without handles")

    def handles():
        for sh in SHAPES:
            m = 2 * len(sh) + 1
            for hs in itertools.product([0, 1], repeat=m):
                for ps in itertools.product([None, [VALUES[0]], [VALUES[1], VALUES[2]]], repeat=m):
                    yield {"p": pattern(sh, handles=[HANDLES[i] if hs[i] else "" for i in range(m)], props=list(ps))}

    ctx.run_all("handles and properties", handles, batch=400, bounds="7 shapes x all subsets of handles x 3 property sets at every node and relationship")

    def values():
        for sh in SHAPES:
            m = 2 * len(sh) + 1
            for k in range(m):
                for n in (1, 2, 3):
                    for vs in itertools.permutations(VALUES, n):
                        ps = [None] * m
                        ps[k] = list(vs)
                        yield {"p": pattern(sh, props=ps)}

    ctx.run_all("values", values, batch=400, bounds="every ordered choice of up to 3 typed properties at every position")

    # nothing, wanted, unwanted, both, wanted that replaces one of the pattern
    C = [None, ({"y": 7}, {}), ({}, {"n": "no"}), ({"y": True, "i": 2}, {"n": None}), ({"i": "new"}, {"i": 1})]

    def criteria():
        for sh in SHAPES:
            m = 2 * len(sh) + 1
            for cs in itertools.product(range(len(C)), repeat=m):
                for with_props in (0, 1):
                    if q and m == 5 and with_props != sum(cs) % 2:
                        continue
                    crit = {HANDLES[i]: list(C[c]) for i, c in enumerate(cs) if C[c]}
                    crit["nobody"] = [{"q": 1}, {"w": 2}]
                    ps = [[VALUES[0], VALUES[1]] if with_props else None] * m
                    yield {"p": pattern(sh, handles=HANDLES[:m], props=ps), "crit": crit}

    ctx.run_all("criteria", criteria, batch=200, bounds=f"7 shapes x all assignments of {len(C)} criteria to the handles, on patterns with and without properties")

    def partial():
        for sh in SHAPES:
            m = 2 * len(sh) + 1
            for hs in itertools.product([0, 1], repeat=m):
                for c in range(1, len(C)):
                    for who in range(m):
                        crit = {HANDLES[who]: list(C[c])}
                        for ps in ([None] * m, [[VALUES[0]] if i == who else None for i in range(m)], [None if i == who else [VALUES[0]] for i in range(m)]):
                            yield {"p": pattern(sh, handles=[HANDLES[i] if hs[i] else "" for i in range(m)], props=ps), "crit": crit}

    ctx.run_all("criteria of one", partial, batch=200, bounds="criteria of one handle, on patterns in which any subset of the handles is given")

    def among():
        wraps = ["MAKE (a:X {i: 9})-[r:Q {i: 8}]->(b:Y); @", "@ MAKE (a:X {i: 9})<-[r:Q]-(b:Y);", "@ REPORT a;", "REPORT a; @", "MAKE (:A);\n@\nREPORT *;"]
        for w in wraps:
            for sh in SHAPES:
                m = 2 * len(sh) + 1
                for ps in itertools.product([None, [VALUES[3]]], repeat=m):
                    for crit in (None, {"a": [{"k": 1}, {}]}):
                        yield {"p": pattern(sh, handles=HANDLES[:m], props=list(ps)), "wrap": w, "crit": crit}

    ctx.run_all("among others", among, batch=200, bounds="the FIND among other statements that use the same handles")

    def sizes():
        for sh in SHAPES:
            m = 2 * len(sh) + 1
            for k in range(m):
                for c in range(1, 40 if q else 130):
                    ps = [None] * m
                    ps[k] = [[f"p{i}", *VALUES[i % len(VALUES)][1:]] for i in range(c)]
                    yield {"p": pattern(sh, props=ps)}
                    yield {"p": pattern(sh, handles=[HANDLES[i] + "x" * c * (i == k) for i in range(m)], props=ps), "crit": {HANDLES[k] + "x" * c: [{f"y{i}": i for i in range(c)}, {f"n{i}": i for i in range(c)}]}}

    ctx.run_all("sizes", sizes, batch=100, bounds="1 to 39 properties, wanted and unwanted values, and longer handles, at every position")

    def huge():
        for n in (200, 500, 1001) if q else (200, 500, 1001, 2001):
            ps = [pattern((">",) if i % 2 else ("<",), (f"A{i}", "B"), (f"R{i % 7}",), [f"a{i}", f"r{i}", f"b{i}"], [[VALUES[i % len(VALUES)]], None, [VALUES[0]]]) for i in range(n)]
            yield {"ps": ps, "crit": None}
            yield {"ps": ps, "crit": {f"a{n - 1}": [{"y": 1}, {}], f"r{n // 2}": [{}, {"n": 2}]}}
            many = [{f"y{i}": i for i in range(n)}, {f"n{i}": str(i) for i in range(n)}]
            for sh in SHAPES:
                m = 2 * len(sh) + 1
                for k in range(m):
                    yield {"p": pattern(sh, handles=HANDLES[:m], props=[[VALUES[0]] if i == k else None for i in range(m)]), "crit": {HANDLES[k]: many}}
                    yield {"p": pattern(sh, handles=HANDLES[:m], props=[[[f"p{j}", str(j), j] for j in range(n)] if i == k else None for i in range(m)])}
        for n in sorted({k + d for k in (256, 1000, 1024, 2000, 4096, 8192, 16384) for d in (-1, 0, 1)}):
            t = ("some words @1.5_" * (n // 16 + 1))[:n].strip() + "x"
            for sh in SHAPES:
                m = 2 * len(sh) + 1
                for k in range(m):
                    ps, hs = [None] * m, HANDLES[:m]
                    ps[k] = [["t", f"'{t}'", t], ["u", "1", 1]]
                    yield {"p": pattern(sh, handles=hs, props=ps)}
                    hs = [h + "x" * n * (i == k) for i, h in enumerate(hs)]
                    yield {"p": pattern(sh, handles=hs), "crit": {hs[k]: [{"y": 1}, {"n": 2}]}}

    ctx.run_all("huge", huge, batch=4, bounds="FINDs of up to 1001 patterns, 1001 properties, wanted and unwanted values (2001 in thorough), texts and handles of up to 16385 characters")

    def alike():
        """Handles, labels, names, property names and values that are equal to, or parts of, each other."""
        sets = [["a", "ab", "abc", "b", "a1"], ["abc", "ab", "a", "bc", "c"], ["A", "R", "B", "S", "C"], ["B", "S", "C", "R", "A"], ["i", "s", "y", "n", "b"], ["left", "rel", "middle", "rel2", "right"], ["a1", "a2", "a10", "a11", "a12"], ["x" * 40, "x" * 41, "x" * 42, "x" * 39, "x" * 43], ["true", "null", "false", "none", "True"], ["A1", "a_1", "a1", "_a1", "a1_"], ["find", "make", "report", "FIND", "criteria"], ["self", "type", "wn", "id", "props"]]
        for hs in sets:
            for sh in SHAPES:
                m = 2 * len(sh) + 1
                for perm in (hs[:m], hs[:m][::-1]):
                    for who in range(len(hs)):
                        for c in (3, 4):
                            for ps in ([None] * m, [[VALUES[0], ["y", "9", 9]]] * m):
                                yield {"p": pattern(sh, handles=perm, props=ps), "crit": {hs[who]: list(C[c])}}
                    yield {"p": pattern(sh, handles=perm), "crit": {h: [{"y": i}, {"n": i}] for i, h in enumerate(hs)}}
                    yield {"p": pattern(sh, ("A", "A", "A"), ("A", "A"), perm), "crit": {h: [{h: i}, {"n": h}] for i, h in enumerate(hs)}}

    ctx.run_all("alike", alike, batch=200, bounds="12 sets of handles that are parts of each other, labels, names or reserved words, with criteria for each")

    def several():
        small = [pattern((), "A", handles=["a"]), pattern((">",), "AB", "R", ["a", "r", "b"], [[VALUES[0]], None, [VALUES[1]]]), pattern(("<",), "BC", "S", ["b", "s", "c"], [None, [VALUES[2]], None]), pattern((">", "<"), "CAB", "RS", ["c", "", "a", "", "d"]), pattern((), "B", handles=["x"], props=[[VALUES[3]]])]
        crits = [None, {"a": [{"y": 1}, {}]}, {"b": [{}, {"n": 1}], "r": [{"i": 3}, {"z": None}]}, {"c": [{"y": 1}, {"y": 1}], "x": [{"f": 1}, {}], "s": [{"b": False}, {}]}]
        for n in (1, 2, 3):
            for ps in itertools.product(small, repeat=n):
                for c in crits:
                    yield {"ps": list(ps), "crit": c}

    ctx.run_all("several patterns", several, batch=100, bounds="FINDs of up to 3 of 5 patterns that share handles, with 4 sets of criteria")
