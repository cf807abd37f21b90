"""C27: a database is its files: it can be copied, moved, restored and read wherever it lies and whoever wrote it.

The reference of every step is what the files say just before it.
"""
import io
import itertools
import json
import os
import shutil
from pathlib import Path

from mc import core, sut
from mc.core import Outcome, new_dir
from mc.checks.c14 import answers

ID = "C27"
RULE = "before every query the harness reads (or writes) the files itself; what the query finds, and what it adds to them, has to follow from them"
ASSUMPTIONS = ["files are only changed from outside while no query runs", "two contents of a file that differ have another size or modification time"]

MAKES = {
    "a": ("MAKE (:A);", [("A", ())], []),
    "ba": ("MAKE (:B)-[:R]->(:A);", [("A", ()), ("B", ())], [("R", "B", "A")]),
    "c": ("MAKE (:C)<-[:S {i: 1}]-(:B)-[]->(:A);", [("A", ()), ("B", ()), ("C", ())], [("", "B", "A"), ("S", "B", "C")]),
}
FINDS = {
    "fa": ("FIND (:A);", {"A"}, set()),
    "fb": ("FIND (:B)-[]->(:A);", {"A", "B"}, set()),
    "fr": ("FIND (:B)<-[:R]-(:A);", {"A", "B"}, {"R"}),
    "fs": ("FIND (:C)-[:S]->(:B)<-[:R]-(:A);", {"A", "B", "C"}, {"R", "S"}),
    "fn": ("FIND (:Nope);", {"Nope"}, set()),
}


def paths(folder, name):
    return sut.GDBMSFilePath(**{f"{k}_file_path": Path(folder) / name / f"{f}_{name}.{e}" for k, f, e in (("database", "database", "json"), ("indexes", "indexes", "json"), ("wiggle_number", "wiggle_number", "txt"))})


def files(g):
    return [g.database_file_path, g.indexes_file_path, g.wiggle_number_file_path]


def ask(o, g, q, where):
    """One query against what the files say."""
    try:
        old = sut.Db(g)
    except (OSError, sut.Corrupt) as e:
        old = e
    raw = sut.read_raw(g) if not isinstance(old, OSError) else None
    text = (FINDS.get(q) or MAKES[q])[0]
    ok, err, out = sut.query(text, g)
    o.transitions += 1
    o.validated += 1
    if isinstance(old, Exception):
        o.distinct.add((q, ok, type(old).__name__))
        if ok:
            o.bad(f"{where}: {text!r} is accepted though the database is not there: {out!r}")
        return
    if not ok:
        o.bad(f"{where}: {text!r} is refused: {err}")
        return
    new = sut.Db(g)
    o.states.add(old.key())
    if q in FINDS:
        labels, names = FINDS[q][1:]
        want = labels <= {n[0] for n in old.nodes.values()} and names <= {r[0] for r in old.rels.values()}
        o.distinct.add((q, want))
        if sut.no_results(out) == want:
            o.bad(f"{where}: {text!r} prints {out!r}, but the file says {old.nodes} {old.rels}")
        if sut.read_raw(g) != raw:
            o.bad(f"{where}: {text!r} has changed the files")
        return
    d = sut.diff(old, new)
    if d is None:
        o.bad(f"{where}: {text!r} has changed what was there: {old.nodes} {old.rels}, now {new.nodes} {new.rels}")
        return
    nodes, rels = d
    got = (sorted(nodes.values()), sorted((r[0], new.nodes[r[1]][0], new.nodes[r[2]][0]) for r in rels.values()))
    o.distinct.add((q, len(old.nodes), len(old.rels)))
    if got != (MAKES[q][1], MAKES[q][2]):
        o.bad(f"{where}: {text!r} made {got}")
    if sorted([*nodes, *rels]) != list(range(old.next, old.next + len(nodes) + len(rels))) or new.next != old.next + len(nodes) + len(rels):
        o.bad(f"{where}: {text!r} used the numbers {sorted([*nodes, *rels])}, the next number was {old.next} and is {new.next}")
    for e in new.integrity() + new.index_errors():
        o.bad(f"{where}: after {text!r}: {e}")


# -- moves ------------------------------------------------------------------------------


def load(g):
    res = []
    for p in files(g):
        st = os.stat(p)
        with open(p, "rb") as f:
            res.append((f.read(), st.st_mtime_ns))
    return res


def store(g, data, how):
    """Writes files from outside: in place or anew, with their old times or new ones."""
    os.makedirs(g.database_file_path.parent, exist_ok=True)
    for p, (b, t) in zip(files(g), data):
        if how.startswith("r"):
            tmp = f"{p}.from-outside"
            with open(tmp, "wb") as f:
                f.write(b)
            os.replace(tmp, p)
        else:
            with open(p, "wb") as f:
                f.write(b)
        if how.endswith("t"):
            os.utime(p, ns=(t, t))


def run_moves(scn):
    o = Outcome()
    folder = new_dir()
    gs = {n: paths(folder, n) for n in ("p", "pq")}
    for n in gs:
        sut.create(n, folder)
    saved = {n: load(g) for n, g in gs.items()}
    for k, op in enumerate(scn["ops"]):
        kind, n = op[:2]
        where = f"{scn['ops'][:k]}, now {op}"
        g, other = gs[n], gs["pq" if n == "p" else "p"]
        there = g.database_file_path.parent.is_dir()
        o.transitions += 1
        if kind == "save":
            if there:
                saved[n] = load(g)
        elif kind == "restore":
            store(g, saved[n], op[2])
        elif kind == "copy":
            if there:
                store(other, load(g), op[2])
        elif kind == "move":
            if there:
                data = load(g)
                shutil.rmtree(g.database_file_path.parent)
                store(other, data, op[2])
        elif kind == "gone":
            shutil.rmtree(g.database_file_path.parent, ignore_errors=True)
        elif kind == "q":
            ask(o, g, op[2], where)
            for x in FINDS:
                if not o.violations and there:
                    ask(o, g, x, where)
        if o.violations:
            return o
    for n, g in gs.items():
        if g.database_file_path.parent.is_dir():
            for x in ("fr", "a", "fa"):
                if not o.violations:
                    ask(o, g, x, f"{scn['ops']}, at the end, {n}")
    return o


# -- written by others ------------------------------------------------------------------

LABELS = ("A", "B")
NUMBERS = {"dense": None, "gaps": (1, 5, 9, 12, 40), "far": (99, 100, 1000, 10000, 99999), "down": (41, 12, 9, 5, 1)}


def write(g, style, number_end, nodes, rels, next_):
    db = {}
    for wn, label, props in nodes:
        rs = [{"relationship_metadata": {"wn": w, "created_at": 1600000000.5, "updated_at": None}, "relationship_name": n, "wn_from_node": a, "wn_to_node": b, "properties": p} for w, n, a, b, p in rels if a == wn]
        db[str(wn)] = {"node_metadata": {"wn": wn, "created_at": 1600000000.25, "updated_at": None}, "node_label": label, "properties": props, "relations": rs or None}
    ix = {"node_relationships": {}, "node_labels": [], "relationship_names": []}
    for w, n, a, b, p in rels:
        ix["node_relationships"].setdefault(str(a), []).append(w)
        if n and n not in ix["relationship_names"]:
            ix["relationship_names"].append(n)
    for wn, label, props in nodes:
        if label not in ix["node_labels"]:
            ix["node_labels"].append(label)

    def back(x):
        if isinstance(x, dict):
            return {k: back(v) for k, v in reversed(x.items())}
        return [back(v) for v in x] if isinstance(x, list) else x

    for p, x in zip(files(g), (db, ix)):
        text = {
            "indent": lambda: json.dumps(x, indent=4),
            "compact": lambda: json.dumps(x, separators=(",", ":")),
            "tabs": lambda: json.dumps(x, indent="\t", ensure_ascii=False) + "\n",
            "sorted": lambda: json.dumps(x, sort_keys=True),
            "back": lambda: json.dumps(back(x), indent=1) + "\n\n",
            "crlf": lambda: json.dumps(x, indent=2).replace("\n", "\r\n") + "\r\n",
        }[style]()
        with open(p, "w", newline="", encoding="utf-8") as f:
            f.write(text)
    with open(files(g)[2], "w", newline="") as f:
        f.write(str(next_) + number_end)


PROPS = [None, {"i": 1, "f": 2.5, "s": "été \u2028 'x'", "l": [1, "a", None, True], "b": False, "n": None}, {}]


def run_written(scn):
    o = Outcome()
    g = sut.create("db", new_dir())
    labels, edges = scn["labels"], scn["edges"]
    total = len(labels) + len(edges)
    free = list(NUMBERS[scn["numbers"]] or range(total))
    nodes = [(free[i], l, PROPS[(i + scn["props"]) % 3]) for i, l in enumerate(labels)]
    rels = [(free[len(labels) + i], n, nodes[a][0], nodes[b][0], PROPS[(i + 1 + scn["props"]) % 3]) for i, (n, a, b) in enumerate(edges)]
    used = [x[0] for x in nodes + rels]
    write(g, scn["style"], scn["end"], nodes, rels, max(used, default=-1) + 1 + scn["skip"])
    for q in scn["qs"]:
        ask(o, g, q, f"files written in the style {scn['style']!r}: {nodes} {rels}, after {scn['qs'][: scn['qs'].index(q)]}")
        if o.violations:
            break
    return o


# -- places -----------------------------------------------------------------------------

FOLDERS = ["plain", "with space", "v1.2.json", "é-ü-中", "it's \"q\"", "a[b]*?", "deep/er/still", "{x}%s%d", "~", "-dash", "tests", "#1;2", "database_p", "p", ".hidden", "x" * 120, " edge ", "$HOME", "a\\b", "é", "a\nb"]
NAMES = ["p", "p q", "p.json", "é", "{p}", "*", "p'\"", "~", "-p", "database", ".p"]
FORMS = ["absolute", "relative", "dot", "up", "symlink", "elsewhere", "here"]


def place_history(folder, form, name):
    """Creates, uses, lists, selects and deletes at the place; plain results."""
    o = Outcome()
    top = str(new_dir())
    real = os.path.join(top, folder)
    os.makedirs(real)
    os.makedirs(os.path.join(top, "other place"))
    p = {
        "absolute": lambda: Path(real),
        "relative": lambda: Path(folder),
        "dot": lambda: Path("./" + folder),
        "up": lambda: Path("other place/../" + folder),
        "symlink": lambda: Path(top) / "a link",
        "elsewhere": lambda: Path(real),
        "here": lambda: Path("."),
    }[form]()
    if form == "symlink":
        os.symlink(real, p)
    os.chdir(real if form == "here" else os.path.join(top, "other place") if form == "elsewhere" else top)
    where = f"in {folder!r} ({form}), database {name!r}"
    buf = io.StringIO()
    g = sut.create(name, p)
    sut.create("zz", p)
    want = paths(real, name)
    if sorted(os.listdir(os.path.join(real, name))) != sorted(x.name for x in files(want)):
        o.bad(f"{where}: the new database has the files {os.listdir(os.path.join(real, name))}")
        return o
    # GDBMSFilePath of the new database, of the selected one, and of the real place are the same
    with sut.captured(buf):
        listed = sut.S.list_existing_dbms(path_to_dbms_dir=p)
    if listed != sorted([name, "zz"]):
        o.bad(f"{where}: listed as {listed}")
    with sut.captured(buf):
        letter = {v: k for k, v in dict(sut.S.get_and_display_available_dbms(p) or {}).items()}
    if sorted(letter) != sorted([name, "zz"]):
        o.bad(f"{where}: displayed are {letter}")
        return o
    with answers([letter[name]]), sut.captured(buf):
        s = sut.S.get_existing_gdbms(p)
    for k, (q, h) in enumerate((("fa", g), ("a", g), ("fa", s), ("ba", s), ("fr", want), ("c", want), ("fs", g), ("fn", s))):
        if not o.violations:
            ask(o, h, q, f"{where}, step {k}")
    if o.violations:
        return o
    if [x.resolve() for x in files(s)] != [x.resolve() for x in files(want)]:
        o.bad(f"{where}: selected the files {files(s)}")
    if sut.Db(paths(real, "zz")).nodes:
        o.bad(f"{where}: the queries went to another database too")
    with sut.captured(buf):
        sut.S.delete_gdbms("zz", p)
    if sorted(os.listdir(real)) != [name]:
        o.bad(f"{where}: after the other database was deleted there is {os.listdir(real)}")
        return o
    ask(o, g, "a", f"{where}, after the other one was deleted")
    with sut.captured(buf):
        sut.S.delete_gdbms(name, p)
    if os.listdir(real) or sorted(os.listdir(top)) != sorted({"other place", folder.split("/")[0]} | ({"a link"} if form == "symlink" else set())) or os.listdir(os.path.join(top, "other place")):
        o.bad(f"{where}: after it was deleted there is {os.listdir(real)}, {os.listdir(top)}")
    return o


def run_place(scn):
    return core.in_fork(place_history, scn["folder"], scn["form"], scn["name"])


def run(scn):
    return {"moves": run_moves, "written": run_written, "place": run_place}[scn["part"]](scn)


def explore(ctx):
    q = ctx.quick

    def moves():
        ext = [[k, "p", h] for k in ("restore", "copy", "move") for h in (("wt", "r") if q else ("w", "wt", "r", "rt"))] + [["copy", "pq", "rt"], ["move", "pq", "w"], ["save", "p"], ["gone", "p"]]
        use = [["q", "p", x] for x in ("a", "ba", "fa")] + [["q", "pq", x] for x in ("c", "fr")]
        for t in itertools.product(ext + use, repeat=4 if q else 5):
            kinds = [x in use for x in t]
            # something is asked before and after something comes from outside
            if any(kinds[i] and not all(kinds[i:]) for i in range(len(t))) and kinds[-1] and len({x[0] for x in t}) > 1:
                yield {"part": "moves", "ops": list(t)}

    ctx.run_all("moves", moves, batch=100, bounds=f"all sequences of {4 if q else 5} queries and of saving, restoring, copying, moving and removing the files from outside, in place or anew, with their old times or new ones")

    def written():
        for n in range(4):
            for labels in itertools.product(LABELS, repeat=n):
                pairs = [(a, b) for a in range(n) for b in range(n) if a != b]
                one = [(name, a, b) for a, b in pairs for name in ("R", None)]
                two = list(itertools.combinations(one, 2))
                for edges in [()] + [(e,) for e in one] + (two if n < 3 or not q else two[::7]):
                    for numbers in NUMBERS:
                        i = 0
                        for style in ("indent", "compact", "tabs", "sorted", "back", "crlf"):
                            i += 1
                            for qs in (["fr", "a", "fa", "c", "fs"], ["ba", "fb", "fn", "ba"]):
                                yield {"part": "written", "labels": list(labels), "edges": [list(e) for e in edges], "numbers": numbers, "style": style, "end": "\n" if i % 2 else "", "skip": (0, 0, 3)[i % 3], "props": i % 3, "qs": qs}

    ctx.run_all("written", written, batch=100, bounds="every graph of up to three nodes with two labels and up to two relationships (quick: with three nodes every seventh pair), written by the harness with four schemes of numbers in six layouts of JSON")

    def places():
        for folder in FOLDERS:
            for form in FORMS:
                for name in NAMES if not q else NAMES[:6]:
                    yield {"part": "place", "folder": folder, "form": form, "name": name}

    ctx.run_all("places", places, batch=50, iso=False, bounds=f"{len(FOLDERS)} names of the folder of the databases, reached in {len(FORMS)} ways")
