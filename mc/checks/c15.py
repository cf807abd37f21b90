"""C15: the storage functions behave like independent collections."""
import itertools
import json

from mc import sut
from mc import words as W
from mc.core import Outcome, new_dir
from exceptions.wql.database import NodeExistsError
from wiggle_query_language.graph.database.database import add_item_to_database, load_database, wipe_database
from wiggle_query_language.graph.database.indexes import node_labels_index as L
from wiggle_query_language.graph.database.indexes import node_relationships_index as R
from wiggle_query_language.graph.database.indexes import relationship_names_index as N
from wiggle_query_language.graph.state.wiggle_number import get_current_wiggle_number, update_wiggle_number

ID = "C15"
RULE = "all states of a finite model of the five collections that its operations reach, and every operation in each of them, on the real files; and all sequences of operations of a fixed length"
ASSUMPTIONS = ["the keys of the database and of the relationship index are texts, as in the code's own use"]

N1 = {"node_label": "A", "properties": {"i": 1, "s": "é \" '"}, "relations": None}
N2 = {"node_label": "B", "properties": None, "relations": [{"wn": 5, "l": [1, "x", None, True, 2.5]}], "long": "y" * 300}
VAL = {"n1": N1, "n2": N2}

# the model state: (db: {key: value name}, labels, names, rels: {key: set}, number)
START = ((), (), (), (), 0)


def ops():
    for items in ([], [["1", "n1"]], [["1", "n2"]], [["10", "n1"]], [["10", "n2"], ["1", "n1"]]):
        yield ["db", "add", items]
    for items in ([], ["A"], ["B"], ["B", "A"]):
        yield ["labels", "add", items]
    for items in ([], ["R"], ["R", "S"]):
        yield ["names", "add", items]
    for items in ([], [["1", [5]]], [["1", [6, 7]]], [["2", [8]]], [["1", [5]], ["10", [9]]]):
        yield ["rels", "add", items]
    for c in ("db", "labels", "names", "rels"):
        for sure in (True, False, None):
            yield [c, "wipe", sure]
    for n in (0, 7, 10, 123456):
        yield ["number", "set", n]
    for c in ("db", "labels", "names", "rels", "number"):
        yield [c, "load"]


OPS = list(ops())
IX = ["db", "labels", "names", "rels", "number"]


def apply_model(st, op):
    """Returns (state, refused)."""
    s = list(st)
    c, what = op[0], op[1]
    i = IX.index(c)
    if what == "load":
        return st, False
    if what == "set":
        s[4] = op[2]
    elif what == "wipe":
        if op[2] is True:
            s[i] = ()
    elif c == "db":
        d = dict(s[0])
        if any(k in d for k, _ in op[2]):
            return st, True
        d.update({k: v for k, v in op[2]})
        s[0] = tuple(sorted(d.items()))
    elif c == "rels":
        d = {k: set(v) for k, v in s[3]}
        for k, v in op[2]:
            d.setdefault(k, set()).update(v)
        s[3] = tuple(sorted((k, tuple(sorted(v))) for k, v in d.items()))
    else:
        s[i] = tuple(sorted(set(s[i]) | set(op[2])))
    return tuple(s), False


def apply_real(g, op):
    """Returns the type of the exception or None."""
    c, what = op[0], op[1]
    d, x, w = g.database_file_path, g.indexes_file_path, g.wiggle_number_file_path
    mod = {"labels": (L.add_items_to_node_labels_index, L.wipe_node_labels_index, L.load_node_labels_index), "names": (N.add_items_to_relationship_names_index, N.wipe_relationship_names_index, N.load_relationship_names_index), "rels": (R.add_items_to_node_relationships_index, R.wipe_node_relationships_index, R.load_node_relationships_index), "db": (add_item_to_database, wipe_database, load_database)}.get(c)
    p = d if c == "db" else x
    try:
        if c == "number":
            if what == "set":
                if update_wiggle_number(w, op[2]) != op[2]:
                    return "update_wiggle_number did not return the number"
            else:
                get_current_wiggle_number(w)
        elif what == "load":
            mod[2](p)
        elif what == "wipe":
            r = mod[1](p) if op[2] is None else mod[1](p, op[2])
            if (r is True) != (op[2] is True):
                return f"wipe returned {r}"
        else:
            if c == "db":
                items = {k: json.loads(json.dumps(VAL[v])) for k, v in op[2]}
            elif c == "rels":
                items = {k: set(v) for k, v in op[2]}
            else:
                items = set(op[2])
            mod[0](p, items)
    except Exception as e:
        return type(e).__name__
    return None


def look(g):
    """What the load functions and the files say."""
    d = load_database(g.database_file_path)
    loaded = (
        tuple(sorted((k, next((n for n, v in VAL.items() if v == x), repr(x))) for k, x in d.items())),
        tuple(sorted(L.load_node_labels_index(g.indexes_file_path))),
        tuple(sorted(N.load_relationship_names_index(g.indexes_file_path))),
        tuple(sorted((str(k), tuple(sorted(v))) for k, v in R.load_node_relationships_index(g.indexes_file_path).items())),
        get_current_wiggle_number(g.wiggle_number_file_path),
    )
    raw = sut.read_raw(g)
    d, x = json.loads(raw[0]), json.loads(raw[1])
    files = (
        tuple(sorted((k, next((n for n, v in VAL.items() if v == y), repr(y))) for k, y in d.items())),
        tuple(sorted(x["node_labels"])),
        tuple(sorted(x["relationship_names"])),
        tuple(sorted((k, tuple(sorted(v))) for k, v in x["node_relationships"].items())),
        int(raw[2]),
    )
    return loaded, files


_w = [None, None, 0]


def step(o, st, op, where):
    g, other, _ = _w
    before = sut.read_raw(g)
    want, refused = apply_model(st, op)
    err = apply_real(g, op)
    after = sut.read_raw(g)
    o.transitions += 1
    o.validated += 1
    if (err is not None) != refused or (refused and err != "NodeExistsError"):
        o.bad(f"{where}: {op} in {st}: {err or 'accepted'}")
    if refused and before != after:
        o.bad(f"{where}: {op} in {st} refused, but the files changed")
    k = {"db": 0, "number": 2}.get(op[0], 1)
    for i in range(3):
        if (i != k or op[1] == "load") and before[i] != after[i]:
            o.bad(f"{where}: {op} in {st} changed another file from {before[i]!r} to {after[i]!r}")
    try:
        loaded, files = look(g)
    except Exception as e:
        o.bad(f"{where}: {op} in {st}: files cannot be read: {type(e).__name__} {e}")
        return want
    if loaded != want:
        o.bad(f"{where}: {op} in {st} leads to {loaded}, expected {want}")
    if files != want:
        o.bad(f"{where}: {op} in {st} leaves {files} in the files, expected {want}")
    if sut.read_raw(other) != _w[2]:
        o.bad(f"{where}: {op} changed another database")
    o.states.add(want)
    o.distinct.add((op[0], op[1], err, want))
    return want


def setup():
    folder = new_dir()
    _w[0], _w[1] = sut.create("d", folder), sut.create("dd", folder)
    sut.query("MAKE (:A)-[:R]->(:B);", _w[1])
    _w[2] = sut.read_raw(_w[1])


def put(g, raw):
    for p, t in zip((g.database_file_path, g.indexes_file_path, g.wiggle_number_file_path), raw):
        with open(p, "w") as f:
            f.write(t)


def many(o, scn):
    """The functions on collections of any size, with items that say where they are."""
    g = _w[0]
    d, x = g.database_file_path, g.indexes_file_path
    k, size, added = scn["kind"], scn["size"], scn["add"]
    have = list(range(size))
    new = [size + i if j is None else j for i, j in enumerate(added)]
    name = scn.get("name", "n")

    def node(i):
        return {"node_label": f"L{i}", "properties": {name: i}, "relations": None}

    words = scn.get("words") or [f"{name}{i}" for i in range(size + len(new))]
    before = sut.read_raw(g)
    err = None
    try:
        if k == "db":
            if have:
                add_item_to_database(d, {str(i): node(i) for i in have})
            mid = sut.read_raw(g)
            add_item_to_database(d, {str(i): node(i) for i in new})
        elif k == "rels":
            if have:
                R.add_items_to_node_relationships_index(x, {str(i): {i + 1, i + 2} for i in have})
            mid = sut.read_raw(g)
            R.add_items_to_node_relationships_index(x, {str(i): {i + 2, i + 3} for i in new})
        elif k in ("labels", "names"):
            f = L.add_items_to_node_labels_index if k == "labels" else N.add_items_to_relationship_names_index
            if have:
                f(x, {words[i] for i in have})
            mid = sut.read_raw(g)
            f(x, {words[i] for i in new})
        else:
            for i in have:
                update_wiggle_number(g.wiggle_number_file_path, i)
            mid = sut.read_raw(g)
            update_wiggle_number(g.wiggle_number_file_path, new[0])
    except Exception as e:
        err = type(e).__name__
    o.transitions += 2
    o.validated += 2
    after = sut.read_raw(g)
    where = f"{k} with {size} items and {added} added"
    refused = k == "db" and any(i < size for i in new)
    if (err is not None) != refused or (refused and err != "NodeExistsError"):
        o.bad(f"{where}: {err or 'accepted'}")
        return
    if refused and after != mid:
        o.bad(f"{where}: refused, but the files changed")
    for i in range(3):
        if i != {"db": 0, "number": 2}.get(k, 1) and before[i] != after[i]:
            o.bad(f"{where}: another file changed")
    labels = names = set()
    db, rels, number = {}, {}, 0
    if k == "db":
        db = {str(i): node(i) for i in have + ([] if refused else new)}
    elif k == "rels":
        for i in have:
            rels[str(i)] = {i + 1, i + 2}
        for i in new:
            rels.setdefault(str(i), set()).update({i + 2, i + 3})
    elif k == "labels":
        labels = {words[i] for i in have + new}
    elif k == "names":
        names = {words[i] for i in have + new}
    else:
        number = new[0]
    raw = sut.read_raw(g)
    j = json.loads(raw[1])
    got = {
        "database": (load_database(d), db),
        "database file": (json.loads(raw[0]), db),
        "labels": (L.load_node_labels_index(x), labels),
        "label file": (sorted(j["node_labels"]), sorted(labels)),
        "names": (N.load_relationship_names_index(x), names),
        "name file": (sorted(j["relationship_names"]), sorted(names)),
        "relationships": ({str(a): set(b) for a, b in R.load_node_relationships_index(x).items()}, rels),
        "relationship file": ({a: sorted(b) for a, b in j["node_relationships"].items()}, {a: sorted(b) for a, b in rels.items()}),
        "number": (get_current_wiggle_number(g.wiggle_number_file_path), number),
    }
    for a, (b, c) in got.items():
        if b != c:
            o.bad(f"{where}: {a} is {b}, expected {c}")
            return
    if k != "number":
        c = {"db": wipe_database, "labels": L.wipe_node_labels_index, "names": N.wipe_relationship_names_index, "rels": R.wipe_node_relationships_index}[k]
        c(d if k == "db" else x, True)
        if look(g)[0][:4] != START[:4]:
            o.bad(f"{where}: not empty after a wipe: {look(g)}")
    if sut.read_raw(_w[1]) != _w[2]:
        o.bad(f"{where}: another database changed")
    o.distinct.add((k, size, len(new), err))
    o.states.add((k, size, repr(new), name))


def relsets(o, scn):
    """Sets of numbers of any shape: what one key has, what is added to it, and what stands beside it."""
    g = _w[0]
    x = g.indexes_file_path
    for have in scn["have"]:
        for add in scn["add"]:
            R.wipe_node_relationships_index(x, True)
            want = {"7": {3, 40, 41}}
            try:
                R.add_items_to_node_relationships_index(x, {"7": {3, 40, 41}})
                if have is not None:
                    R.add_items_to_node_relationships_index(x, {"1": set(have)})
                    want["1"] = set(have)
                R.add_items_to_node_relationships_index(x, {"1": set(add), "12": set(add)})
                want["1"] = want.get("1", set()) | set(add)
                want["12"] = set(add)
                raw = json.loads(sut.read_raw(g)[1])
                got = {str(k): set(v) for k, v in R.load_node_relationships_index(x).items()}
                file = {k: sorted(v) for k, v in raw["node_relationships"].items()}
            except Exception as e:
                o.bad(f"rels {have} and {add} added: {type(e).__name__} {e}")
                return
            o.transitions += 2
            o.validated += 2
            if got != want:
                o.bad(f"rels {have} and {add} added: loaded {got}, expected {want}")
            if file != {k: sorted(v) for k, v in want.items()}:
                o.bad(f"rels {have} and {add} added: the file has {file}, expected {want}")
            if raw["node_labels"] or raw["relationship_names"]:
                o.bad(f"rels {have} and {add} added: other indexes changed")
            o.states.add(repr(sorted(want["1"])))
            o.distinct.add((repr(have), repr(add)))
            if o.violations:
                return
    R.wipe_node_relationships_index(x, True)


def shared(o, scn):
    """Words that labels, names and keys have in common: what is added to one of them does not depend on the others."""
    g = _w[0]
    d, x = g.database_file_path, g.indexes_file_path
    start = sut.read_raw(g)
    for names in scn["subsets"]:
        for which, words in itertools.product(("labels", "names"), scn["subsets"]):
            put(g, start)
            want = {"labels": set(scn["labels"]), "names": set(names)}
            where = f"labels {scn['labels']}, names {names}, keys {scn['keys']}: {words} added to {which}"
            try:
                if scn["keys"]:
                    R.add_items_to_node_relationships_index(x, {k: {int(k)} for k in scn["keys"]})
                    add_item_to_database(d, {k: {"node_label": k, "properties": None, "relations": [int(k)]} for k in scn["keys"]})
                L.add_items_to_node_labels_index(x, set(scn["labels"]))
                N.add_items_to_relationship_names_index(x, set(names))
                mid = sut.read_raw(g)
                (L.add_items_to_node_labels_index if which == "labels" else N.add_items_to_relationship_names_index)(x, set(words))
                want[which] |= set(words)
                raw = sut.read_raw(g)
                j = json.loads(raw[1])
                got = {"labels": L.load_node_labels_index(x), "names": N.load_relationship_names_index(x)}
                file = {"labels": sorted(j["node_labels"]), "names": sorted(j["relationship_names"])}
            except Exception as e:
                o.bad(f"{where}: {type(e).__name__} {e}")
                return
            o.transitions += 1
            o.validated += 1
            if got != want or file != {k: sorted(v) for k, v in want.items()}:
                o.bad(f"{where}: loaded {got}, file {file}, expected {want}")
            if raw[0] != mid[0] or raw[2] != mid[2] or j["node_relationships"] != json.loads(mid[1])["node_relationships"]:
                o.bad(f"{where}: something else changed")
            o.states.add(repr((sorted(want["labels"]), sorted(want["names"]), scn["keys"])))
            o.distinct.add((which, repr(want)))
            if o.violations:
                return


def run(scn):
    o = Outcome()
    setup()
    if scn.get("kind") == "shared":
        shared(o, scn)
        return o
    if scn.get("kind") == "sets":
        relsets(o, scn)
        return o
    if "kind" in scn:
        many(o, scn)
        return o
    st = START
    for op in scn["path"]:
        st = step(o, st, op, f"path {scn['path']}")
    if o.violations or not scn.get("all"):
        return o
    raw = sut.read_raw(_w[0])
    for op in OPS:
        put(_w[0], raw)
        step(o, st, op, f"after {scn['path']}")
        if o.violations:
            break
    return o


def explore(ctx):
    q = ctx.quick

    def reachable():
        """Breadth first search of the model; a shortest path to every state."""
        numbers = (0, 10) if q else (0, 7, 10, 123456)
        moves = [op for op in OPS if op[1] != "load" and not (op[1] == "wipe" and op[2] is not True) and op[2] != [] and not (op[0] == "number" and op[2] not in numbers)]
        if q:
            moves = [op for op in moves if op[0] != "rels" or op[1] == "wipe" or op[2][0][0] == "1" and len(op[2]) == 1]
            moves = [op for op in moves if op not in (["names", "add", ["R"]], ["labels", "add", ["B", "A"]])]
        seen = {START: []}
        todo = [START]
        while todo:
            nxt = []
            for st in todo:
                yield {"path": seen[st], "all": 1}
                for op in moves:
                    s, refused = apply_model(st, op)
                    if s not in seen:
                        seen[s] = seen[st] + [op]
                        nxt.append(s)
            todo = nxt

    ctx.run_all("states", reachable, batch=10, bounds=f"every state of the model that is reachable, and all {len(OPS)} operations in each")

    def seqs():
        a = [op for op in OPS if op[1] != "load"]
        for t in itertools.product(a, repeat=2):
            yield {"path": list(t), "all": 1}
        if not q:
            for t in itertools.product(a, repeat=3):
                yield {"path": list(t), "all": 1}

    ctx.run_all("sequences", seqs, batch=20, bounds=f"all sequences of {3 if q else 4} operations")

    def sizes():
        top = 40 if q else 150
        for k in ("db", "rels", "labels", "names"):
            for n in [*range(0, top), 255, 256, 257, 1000, 1024]:
                yield {"kind": k, "size": n, "add": [None]}
                yield {"kind": k, "size": n, "add": [None, None, None]}
                if n:
                    # an existing one at every place among new ones, and every existing one
                    yield {"kind": k, "size": n, "add": [0, None]}
                    yield {"kind": k, "size": n, "add": [None, n - 1]}
                if n and n <= 20:
                    for i in range(n):
                        yield {"kind": k, "size": n, "add": [i]}
                        yield {"kind": k, "size": n, "add": [None] * i + [n // 2] + [None] * (n - i)}
            for n in (2500, 6000) if q else (2500, 6000, 20000):
                yield {"kind": k, "size": n, "add": [None, None]}
                yield {"kind": k, "size": n, "add": [n // 2, None]}
                yield {"kind": k, "size": 3, "add": [None] * n}
            for a, b in [*W.pairs(), *W.long_pairs(), *W.ALIKE_TEXT]:
                # two words that are almost the same, one at a time and together
                if k in ("labels", "names"):
                    yield {"kind": k, "size": 1, "add": [None], "words": [a, b]}
                    yield {"kind": k, "size": 0, "add": [None, None], "words": [a, b]}
                    yield {"kind": k, "size": 2, "add": [None, 0, None], "words": [a, "z", "", b, a + b]}
            for name in ("é", "a b", '"', "\\", "\n", "\u2028", "", "x" * 5000, "\ud83d\ude00".encode("utf-16", "surrogatepass").decode("utf-16")):
                for n in (0, 1, 3):
                    yield {"kind": k, "size": n, "add": [None, None], "name": name}
        for n in [*range(0, 130), 255, 256, 999, 1000, 9999, 10000, 2**31 - 1, 2**31, 2**32, 2**53, 2**53 + 1, 10**15, 10**16, 10**17, 10**20, 10**22, 10**30]:
            for m in (0, 3):
                yield {"kind": "number", "size": m, "add": [n]}

    ctx.run_all("sizes", sizes, batch=20, bounds="collections of up to 150 and of 255 to 6000 items, items that exist at every place among new ones, odd words, and numbers up to 10^30")

    def sets():
        items = [1, 2, 4, 9, 30] if q else [0, 1, 2, 4, 9, 30, 31, 1000]
        subs = [list(t) for n in range(len(items) + 1) for t in itertools.combinations(items, n)]
        for have in [None, *subs]:
            yield {"kind": "sets", "have": [have], "add": subs}

    ctx.run_all("sets", sets, batch=4, bounds="every set of the numbers of one key, and every set that is added to it, of five (eight) numbers with gaps")

    def shared_words():
        words = ["1", "2", "A"] if q else ["1", "2", "A", "a"]
        subs = [list(t) for n in range(len(words) + 1) for t in itertools.combinations(words, n)]
        for labels in subs:
            for keys in ([], ["1"], ["2", "1"]):
                yield {"kind": "shared", "labels": labels, "keys": keys, "subsets": subs}

    ctx.run_all("shared", shared_words, batch=1, bounds="every set of three (four) words as labels and as names at the same time, every set added to either, with and without nodes of these numbers")
