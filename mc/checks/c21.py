"""C21: node and relationship objects keep the graph consistent."""
import copy
import itertools

from mc import sut  # noqa
from mc.core import Outcome
from models.wql import Node, Relationship, WiggleGraphMetalData

ID = "C21"
RULE = "every combination of numbers, labels, names, properties and relationships of the enumeration is built with the real classes and compared with plain data"
ASSUMPTIONS = ["the index export of a node lists the nodes that its relationships point to"]

PROPS = [None, {}, {"i": 1}, {"s": "1", "b": True, "f": 1.0, "n": None, "l": [1, "a", True, None, 2.5]}, {"i": 0, "e": "", "z": False}]


def rel(spec):
    wn, name, a, b, props = spec
    return Relationship(relationship_metadata=WiggleGraphMetalData(wn=wn), relationship_name=name, wn_from_node=int(str(a)), wn_to_node=int(str(b)), properties=copy.deepcopy(props))


def rel_plain(r):
    d = r.dict()
    m = d.pop("relationship_metadata")
    return (m["wn"], m["updated_at"], sut.tkey(d))


def typed(x):
    return sut.tkey(x)


def run(scn):
    o = Outcome()
    o.transitions += 1
    o.validated += 1
    o.states.add(repr(scn))
    if scn["k"] == "rel":
        wn, name, a, b, props = scn["r"]
        try:
            r = rel(scn["r"])
        except Exception as e:
            o.distinct.add(type(e).__name__)
            if a != b:
                o.bad(f"relationship {scn['r']} refused: {e}")
            return o
        if a == b:
            o.bad(f"relationship {scn['r']} from a node to itself accepted")
            return o
        o.distinct.add((a, b, name))
        if r.wn != wn or (r.relationship_name or "") != (name or "") or (r.wn_from_node, r.wn_to_node) != (a, b) or typed(r.properties) != typed(props):
            o.bad(f"relationship {scn['r']} became {r.dict()}")
        if r.relationship_metadata.updated_at is not None:
            o.bad(f"relationship {scn['r']} has an update time")
        return o
    # nodes, built one after another
    built, plain = [], []
    given = []
    for spec in scn["nodes"]:
        wn, label, props, rels = spec
        want = all(wn in (x[2], x[3]) for x in rels or [])
        p = copy.deepcopy(props)
        rs = None if rels is None else [rel(x) for x in rels]
        rs_before = None if rs is None else [rel_plain(r) for r in rs]
        try:
            n = Node(node_metadata=WiggleGraphMetalData(wn=wn), node_label=label, properties=p, relations=rs)
        except Exception as e:
            o.distinct.add(type(e).__name__)
            if want:
                o.bad(f"node {spec} refused: {e}")
            return o
        if not want:
            o.bad(f"node {spec} accepted with a relationship of other nodes")
            return o
        built.append(n)
        given.append((p, rs, rs_before))
        plain.append(spec)
        # every node made so far still says what it holds, also after the exports
        for again in range(2):
            for m, s in zip(built, plain):
                check(o, m, s, scn)
                if o.violations:
                    return o
        for (p, rs, rb), s in zip(given, plain):
            if typed(p) != typed(s[2]) or (rs is not None and [rel_plain(r) for r in rs] != rb):
                o.bad(f"building {spec} changed the objects it was given")
    return o


def check(o, n, spec, scn):
    wn, label, props, rels = spec
    where = f"node {spec} (of {len(scn['nodes'])})"
    if n.wn != wn or n.node_label != label:
        o.bad(f"{where}: says number {n.wn}, label {n.node_label}")
    if typed(n.properties) != typed(props):
        o.bad(f"{where}: properties {n.properties}")
    names = n.node_relationship_names()
    if [x or "" for x in names or []] != [x[1] or "" for x in rels or []]:
        o.bad(f"{where}: relationship names {names}")
    if [r.wn for r in n.relations or []] != [x[0] for x in rels or []]:
        o.bad(f"{where}: relationship numbers {[r.wn for r in n.relations or []]}")
    ix = n.export_relationship_indexes()
    want = {str(wn): {x[3] for x in rels}} if rels else None
    if (ix or None) != want:
        o.bad(f"{where}: index export {ix}, expected {want}")
    for kw in ({}, {"exclude_none": True}):
        ex = n.export_node(**kw)
        if list(ex) != [str(wn)]:
            o.bad(f"{where}: exported under {list(ex)}")
            return
        d = ex[str(wn)]
        if d["node_label"] != label or d["node_metadata"]["wn"] != wn or not isinstance(d["node_metadata"]["created_at"], float) or d["node_metadata"].get("updated_at") is not None:
            o.bad(f"{where}: exported as {d}")
        if typed(d.get("properties")) != typed(props):
            o.bad(f"{where}: properties exported as {d.get('properties')}")
        got = [(r["relationship_metadata"]["wn"], r.get("relationship_name") or "", r["wn_from_node"], r["wn_to_node"], typed(r.get("properties"))) for r in d.get("relations") or []]
        if got != [(x[0], x[1] or "", x[2], x[3], typed(x[4])) for x in rels or []]:
            o.bad(f"{where}: relationships exported as {d.get('relations')}")
    o.distinct.add(repr((label, names, ix)))


def explore(ctx):
    q = ctx.quick
    nums = [0, 1, 2, 10, 11, 257, 10**9, 2**53, 2**53 + 1, 10**20]

    def rels():
        for wn in nums:
            for a, b in itertools.product(nums, repeat=2):
                for name in ("R", "S", "", None):
                    for p in PROPS:
                        yield {"k": "rel", "r": [wn, name, a, b, p]}

    ctx.run_all("relationships", rels, batch=300, bounds="all numbers, ends, names and properties of the lists")
    ends = [(0, 1), (1, 0), (1, 10), (10, 1), (2, 10), (0, 2)]

    def one():
        for wn in nums:
            for label in ("A", "B"):
                for p in PROPS:
                    yield {"k": "node", "nodes": [[wn, label, p, None]]}
                    yield {"k": "node", "nodes": [[wn, label, p, []]]}
                    for n in (1, 2):
                        for es in itertools.product(ends, repeat=n):
                            yield {"k": "node", "nodes": [[wn, label, p, [[20 + i, ["R", "", "S", None][(i + a) % 4], a, b, PROPS[(i + b) % 5]] for i, (a, b) in enumerate(es)]]]}
        for wn in (0, 1, 10):
            for n in (3, 4):
                for es in itertools.product(ends, repeat=n):
                    if n == 4 and q and es[0] > es[1]:
                        continue
                    yield {"k": "node", "nodes": [[wn, "A", None, [[20 + i, ["R", "", "S"][i % 3], a, b, None] for i, (a, b) in enumerate(es)]]]}

    ctx.run_all("nodes", one, batch=300, bounds="nodes with up to 4 relationships, of which any may belong to other nodes")

    def several():
        kinds = [[1, "A", None, None], [2, "B", {"i": 1}, None], [1, "A", {"l": [1]}, [[5, "R", 1, 2, None]]], [2, "B", None, [[6, "", 1, 2, {"k": "v"}], [7, "S", 2, 0, None]]], [10, "A", {}, []], [1, "C", {"i": 1}, [[5, "R", 2, 1, {"l": [1]}]]], [0, "A", None, [[8, "R", 1, 2, None]]]]
        for n in (2, 3) if q else (2, 3, 4):
            for t in itertools.product(kinds, repeat=n):
                yield {"k": "node", "nodes": [list(x) for x in t]}

    ctx.run_all("one after another", several, batch=300, bounds="sequences of 2 and 3 of 7 nodes; all are compared again after each")

    def many():
        top = 40 if q else 120
        for wn in (0, 1, 7):
            for n in range(1, top + 1):
                out = [[20 + i, ["R", "", "S", None, "R"][i % 5], wn, 100 + i % 50, None] for i in range(n)]
                yield {"k": "node", "nodes": [[wn, "A", None, out]]}
                # parallel ones, and ones that point at the node
                yield {"k": "node", "nodes": [[wn, "A", None, [[r[0], r[1], *((100, wn) if i % 3 == 1 else (wn, 100 + i % 2)), {"i": i}] for i, r in enumerate(out)]]]}
            for n in (300, 1001) if q else (300, 500, 1001, 3001):
                out = [[20 + i, ["R", "", "S", None, "R"][i % 5], wn, 100 + i, None] for i in range(n)]
                yield {"k": "node", "nodes": [[wn, "A", {f"k{i}": i for i in range(n)}, out]]}
                for i in (0, n // 2, n - 1):
                    yield {"k": "node", "nodes": [[wn, "A", None, out[:i] + [[20 + i, "R", 9000, 9001, None]] + out[i + 1 :]]]}
            for n in range(1, top + 1):
                out = [[20 + i, ["R", "", "S", None, "R"][i % 5], wn, 100 + i % 50, None] for i in range(n)]
                if n <= 20 or n % 10 == 0:
                    for i in range(n):
                        yield {"k": "node", "nodes": [[wn, "A", None, out[:i] + [[20 + i, "R", 100, 101, None]] + out[i + 1 :]]]}

    ctx.run_all("many", many, batch=100, bounds=f"nodes with up to {40 if q else 120} relationships, also parallel ones and ones that point at the node, and with one of other nodes at each place; 1001 relationships and properties")

    def kinds_of_values():
        values = [0, 1, -1, 10**20, 0.0, 1.5, "", "1", "x", True, False, None, [], [1], ["1"], [1, "a", True, None, 2.5], [[1], [2]], "é\n"]
        for n in (1, 2):
            for vs in itertools.product(values, repeat=n):
                p = {f"k{i}": v for i, v in enumerate(vs)}
                yield {"k": "node", "nodes": [[3, "A", p, [[4, "R", 3, 5, p]]]]}
        for n in range(0, 60):
            p = {f"k{i}": values[i % len(values)] for i in range(n)}
            yield {"k": "node", "nodes": [[3, "A", p, [[4, "R", 3, 5, p]]]]}

    ctx.run_all("values", kinds_of_values, batch=100, bounds="every one and two of 18 values, and up to 59 properties, at a node and its relationship")
