"""C26: a query on a damaged database is refused and makes nothing worse.

The files of a small database are damaged in every way of the enumeration (cut at every byte, a byte changed or removed,
missing, empty, garbage, other content) and a query is run. The reference is what the damaged files still say.
"""
import itertools
import json
import os

from mc import sut
from mc.core import Outcome, new_dir

ID = "C26"
RULE = "every damage of the enumeration, then one query: nothing that can be read is lost, nothing that cannot be read is replaced; then the damaged file is put back and the database works"
ASSUMPTIONS = ["a file can be read if it is the JSON object with the parts that the code documents, or a whole number"]

HIST = {
    "one": ["MAKE (:A {i: 1});"],
    "rel": ["MAKE (:A)-[:R {s: 'x'}]->(:B);"],
    "more": ["MAKE (:A {i: 1})-[:R]->(:B)<-[:S]-(:C);", "MAKE (:D), (:A {l: [1, 'x']});"],
    "none": [],
}
QUERIES = {"n": ("MAKE (:N);", 1, 0), "r": ("MAKE (:A)<-[:T]-(:N {k: 2});", 2, 1), "r3": ("MAKE (:A)-[:R]->(:M)-[:R]->(:N); MAKE (:A);", 4, 2), "f": ("FIND (:A)-[:R]->(:B);", 0, 0), "both": ("MAKE (:N); FIND (:A);", 1, 0)}
_made = {}


def history(h):
    """The bytes of the three files after a history."""
    if h not in _made:
        g = sut.create("db", new_dir())
        for q in HIST[h]:
            assert sut.query(q, g)[0]
        _made[h] = sut.read_raw(g)
    return _made[h]


def damage(content, how):
    kind = how[0]
    if kind == "cut":
        return content[: how[1]]
    if kind == "tail":
        return content[how[1] :]
    if kind == "drop":
        return content[: how[1]] + content[how[1] + 1 :]
    if kind == "put":
        return content[: how[1]] + how[2] + content[how[1] + 1 :]
    if kind == "is":
        return how[1]
    if kind == "add":
        return content + how[1]
    if kind == "gone":
        return None
    raise KeyError(kind)


PATHS = ("database_file_path", "indexes_file_path", "wiggle_number_file_path")


def graph(text):
    """The nodes of a database file, or None if it cannot be read."""
    try:
        d = json.loads(text)
    except (ValueError, TypeError):
        return None
    return d if isinstance(d, dict) else None


def index(text):
    try:
        d = json.loads(text)
        if isinstance(d["node_relationships"], dict) and all(isinstance(v, list) for v in d["node_relationships"].values()) and isinstance(d["node_labels"], list) and isinstance(d["relationship_names"], list):
            return d
    except (ValueError, TypeError, KeyError):
        pass
    return None


def number(text):
    try:
        return int(text)
    except (ValueError, TypeError):
        return None


def cover(a, b):
    """Everything of the index a is in the index b."""
    same = lambda x, y: all(i in y for i in x)
    return same(a["node_labels"], b["node_labels"]) and same(a["relationship_names"], b["relationship_names"]) and all(same(v, b["node_relationships"].get(k, ())) for k, v in a["node_relationships"].items())


def run(scn):
    o = Outcome()
    before = list(history(scn["h"]))
    folder = new_dir()
    g = sut.create("db", folder)
    other = sut.create("other", folder)
    bad = list(before)
    for f, how in scn["damage"]:
        bad[f] = damage(bad[f], how)
    paths = [str(getattr(g, p)) for p in PATHS]
    for p, b in zip(paths, bad):
        if b is None:
            os.remove(p)
        else:
            with open(p, "w", newline="", encoding="utf-8", errors="surrogateescape") as fh:
                fh.write(b)
    raw_other = sut.read_raw(other)
    text, nodes, rels = QUERIES[scn["q"]]
    ok, err, out = sut.query(text, g)
    o.transitions += 1
    o.validated += 1

    def read(p):
        try:
            with open(p, newline="", encoding="utf-8", errors="surrogateescape") as fh:
                return fh.read()
        except FileNotFoundError:
            return None

    after = [read(p) for p in paths]
    o.states.add((tuple(bad), scn["q"]))
    gb, ib, nb = graph(bad[0]), index(bad[1]), number(bad[2])
    ga, ia, na = graph(after[0]), index(after[1]), number(after[2])
    o.distinct.add((scn["q"], ok, (err or "").split(":")[0], gb is None, ib is None, nb is None))
    used = [int(k) for k in gb or {} if k.isdecimal()] + [w for v in (ib or {"node_relationships": {}})["node_relationships"].values() for w in v if isinstance(w, int)]
    # a file that can be read and says something else: only what the others say has to stay
    odd = (nb is not None and (nb < 0 or nb <= max(used, default=-1))) or (ib is None and graph(bad[1]) is not None)
    where = f"after {scn['h']!r}, damaged {scn['damage']}, {text!r} ({'accepted' if ok else 'refused: ' + str(err)[:80]})"
    if sut.read_raw(other) != raw_other:
        o.bad(f"{where}: another database has changed")
    if nodes == 0:
        if after != bad:
            o.bad(f"{where}: a FIND changed a file")
        return o
    for name, b, a, x, y in (("database", gb, ga, bad[0], after[0]), ("index", ib, ia, bad[1], after[1]), ("number", nb, na, bad[2], after[2])):
        if b is None and x != y and not (x and name == "index" and graph(x) is not None):
            o.bad(f"{where}: the {name} file could not be read and was replaced: {str(x)[:60]!r} by {str(y)[:60]!r}")
        if b is not None and a is None and not (odd and name == "index"):
            o.bad(f"{where}: the {name} file could be read before: {str(y)[:80]!r}")
    if o.violations:
        return o
    if gb is not None:
        lost = [k for k in gb if ga.get(k) != gb[k]]
        if lost:
            o.bad(f"{where}: node {lost} is lost or changed: {gb[lost[0]]} now {ga.get(lost[0])}")
            return o
        new = len(ga) - len(gb)
        nrel = sum(len(n["relations"] or []) for k, n in ga.items() if k not in gb)
        if not odd and (new, nrel) != ((nodes, rels) if ok else (0, 0)):
            o.bad(f"{where}: made {new} nodes and {nrel} relationships")
    if ok and (gb is None or nb is None or graph(bad[1]) is None):
        o.bad(f"{where}: accepted, though a file that it needs could not be read")
    if ib is not None and not odd and not cover(ib, ia):
        o.bad(f"{where}: the index has lost something: {ib} now {ia}")
    if nb is not None and na is not None and na < nb:
        o.bad(f"{where}: the next number went back from {nb} to {na}")
    if o.violations or ok or odd or len(scn["damage"]) > 1:
        return o
    # the damaged file is put back
    f = scn["damage"][0][0]
    with open(paths[f], "w") as fh:
        fh.write(before[f])
    for t, n, r in (QUERIES["r3"], QUERIES["n"]):
        ok, err, out = sut.query(t, g)
        o.transitions += 1
        if not ok:
            o.bad(f"{where}: after the damaged file was put back, {t!r} is refused: {err}")
            return o
    try:
        old, db = sut.Db(raw=before), sut.Db(g)
    except sut.Corrupt as e:
        o.bad(f"{where}: after the damaged file was put back and used: {e}")
        return o
    d = sut.diff(old, db)
    for e in db.integrity() + (db.index_errors(superset=True) if scn["damage"][0][0] != 1 else []):
        o.bad(f"{where}: after the damaged file was put back and used: {e}")
    if d is None or len(d[0]) != 5:
        o.bad(f"{where}: after the damaged file was put back, two queries made {None if d is None else d[0]}")
    return o


OTHER = ["", " ", "\n", "{", "}", "{}", "[]", "null", "0", "1", "-1", "1.5", "true", '""', '"0"', "x", "\0", "\0" * 40, "é", "{} {}", "[{}]", '{"0": 1}', '{"node_labels": []}', "NaN", "1e3", "٣", "1\n2", "07", " 7 ", "+7", "1_0", "9" * 30, "\ufeff{}"]


def explore(ctx):
    q = ctx.quick

    def cuts():
        for h in HIST if not q else ("rel", "none", "one"):
            for f in range(3):
                n = len(history(h)[f])
                for k in range(n):
                    for x in QUERIES if not q else ("r", "f"):
                        yield {"h": h, "damage": [[f, ["cut", k]]], "q": x}
                        if k and (not q or f or k % 5 == 0):
                            yield {"h": h, "damage": [[f, ["tail", k]]], "q": x}

    ctx.run_all("cuts", cuts, batch=50, bounds="each file cut at every byte")

    def others():
        for h in HIST:
            for f in range(3):
                for x in QUERIES:
                    yield {"h": h, "damage": [[f, ["gone"]]], "q": x}
                    for t in OTHER:
                        yield {"h": h, "damage": [[f, ["is", t]]], "q": x}
                        yield {"h": h, "damage": [[f, ["add", t]]], "q": x}

    ctx.run_all("others", others, batch=50, bounds=f"each file missing, with each of {len(OTHER)} other contents, and followed by it")

    def numbers():
        for h in HIST:
            for n in range(-2, 14):
                for x in QUERIES:
                    yield {"h": h, "damage": [[2, ["is", str(n)]]], "q": x}

    ctx.run_all("numbers", numbers, batch=50, bounds="every number from -2 to 13 in the number file")

    def bytes_():
        for h in ("rel",) if q else ("one", "rel", "more"):
            for f in range(3):
                c = history(h)[f]
                for k in range(len(c)):
                    if c[k] in " \n" and c[k - 1 : k] in (" ", "\n"):
                        continue
                    for x in ("r",) if q else ("n", "r", "f"):
                        yield {"h": h, "damage": [[f, ["drop", k]]], "q": x}
                        for t in ("x", '"', "}", "9") if q else ("x", '"', "}", "{", "]", "[", "9", "0", ",", ":", "-", "\0", " ", "é"):
                            if t != c[k]:
                                yield {"h": h, "damage": [[f, ["put", k, t]]], "q": x}

    ctx.run_all("bytes", bytes_, batch=50, bounds="every byte of each file removed or replaced by others")

    def two():
        few = [["gone"], ["is", ""], ["is", "{}"], ["is", "x"], ["cut", 5], ["is", "[]"], ["is", "1"], ["is", "0"]]
        for h in HIST:
            for fs in ((0, 1), (0, 2), (1, 2), (0, 1, 2)):
                for t in itertools.product(few, repeat=len(fs)):
                    for x in ("r", "f") if q else QUERIES:
                        yield {"h": h, "damage": [[f, d] for f, d in zip(fs, t)], "q": x}

    ctx.run_all("two", two, batch=50, bounds="two or three files damaged, each in 8 ways")
