"""The functions of the repository that the checks drive (imported after mc.core.load_sut set the path)."""
import contextlib
import io
import json
import os
import sys

from models.wigish import GDBMSFilePath  # noqa
from wiggle_shell.core.query.query import query as _query  # noqa
from wiggle_shell.core import select_gdbms as S  # noqa


class Corrupt(Exception):
    pass


@contextlib.contextmanager
def captured(buf):
    old = sys.stdout
    sys.stdout = buf
    try:
        yield buf
    finally:
        sys.stdout = old


def create(name, folder):
    """A new database through the real code."""
    with captured(io.StringIO()):
        return S.get_new_gdbms_file_paths(name, folder)


def query(text, g):
    """Returns (accepted, error text or None, output)."""
    buf = io.StringIO()
    try:
        with captured(buf):
            _query(text, g)
        return True, None, buf.getvalue()
    except Exception as e:
        return False, f"{type(e).__name__}: {e}", buf.getvalue()


def no_results(out):
    return "no results" in out.lower()


def read_raw(g):
    res = []
    for p in (g.database_file_path, g.indexes_file_path, g.wiggle_number_file_path):
        with open(p) as f:
            res.append(f.read())
    return tuple(res)


def tkey(v):
    """A value with its type, comparable and hashable."""
    if isinstance(v, list):
        return ("list",) + tuple(tkey(x) for x in v)
    if isinstance(v, dict):
        return ("dict",) + tuple(sorted((k, tkey(x)) for k, x in v.items()))
    return (type(v).__name__, repr(v))


def pkey(props):
    return tuple(sorted((k, tkey(v)) for k, v in (props or {}).items()))


class Db:
    """The content of the three files of a database, decoded."""

    def __init__(self, g=None, raw=None):
        self.raw = raw or read_raw(g)
        try:
            d = json.loads(self.raw[0])
            i = json.loads(self.raw[1])
        except ValueError as e:
            raise Corrupt(f"file is not readable: {e}")
        try:
            self.next = int(self.raw[2])
        except ValueError:
            raise Corrupt(f"next number is not readable: {self.raw[2]!r}")
        try:
            self.nodes, self.rels, self.meta, self.dup = {}, {}, {}, []
            for k, n in d.items():
                wn = n["node_metadata"]["wn"]
                if str(wn) != k:
                    raise Corrupt(f"node stored under {k} has number {wn}")
                if not isinstance(wn, int):
                    raise Corrupt(f"number {wn!r} is not an integer")
                self.nodes[wn] = (n["node_label"], pkey(n["properties"]))
                self.meta[wn] = (n["node_metadata"]["created_at"], n["node_metadata"]["updated_at"])
            for k, n in d.items():
                for r in n["relations"] or []:
                    wn = r["relationship_metadata"]["wn"]
                    if wn in self.rels or wn in self.nodes:
                        self.dup.append(wn)
                    self.rels[wn] = (r["relationship_name"] or "", r["wn_from_node"], r["wn_to_node"], pkey(r["properties"]), int(k))
                    self.meta[wn] = (r["relationship_metadata"]["created_at"], r["relationship_metadata"]["updated_at"])
            self.ix_rels = {int(k): sorted(v) for k, v in i["node_relationships"].items()}
            self.ix_labels = sorted(i["node_labels"])
            self.ix_names = sorted(i["relationship_names"])
        except Corrupt:
            raise
        except (KeyError, TypeError, AttributeError, ValueError) as e:
            raise Corrupt(f"file has not the documented structure: {type(e).__name__} {e}")

    # -- invariants ---------------------------------------------------------------------
    def integrity(self):
        """Numbers are unique and below the next number, relationships are where they belong."""
        bad = []
        if self.dup:
            bad.append(f"number {self.dup} is used twice")
        used = list(self.nodes) + list(self.rels)
        if used and max(used) >= self.next:
            bad.append(f"number {max(used)} is in use but the next number is {self.next}")
        if used and min(used) < 0:
            bad.append("negative number")
        for wn, (name, a, b, p, holder) in self.rels.items():
            if a not in self.nodes or b not in self.nodes:
                bad.append(f"relationship {wn} from {a} to {b}: no such node")
            if holder != a:
                bad.append(f"relationship {wn} starts at {a} but is stored with node {holder}")
        return bad

    def index_errors(self, superset=False):
        bad = []
        labels = sorted({n[0] for n in self.nodes.values()})
        names = sorted({r[0] for r in self.rels.values() if r[0]})
        rels = {}
        for wn, r in self.rels.items():
            rels.setdefault(r[4], []).append(wn)
        rels = {k: sorted(v) for k, v in rels.items()}
        if superset:
            if not set(labels) <= set(self.ix_labels):
                bad.append(f"label index {self.ix_labels} lacks some of {labels}")
            if not set(names) <= set(self.ix_names):
                bad.append(f"name index {self.ix_names} lacks some of {names}")
            for k, v in rels.items():
                if not set(v) <= set(self.ix_rels.get(k, [])):
                    bad.append(f"relationship index of {k} {self.ix_rels.get(k)} lacks some of {v}")
            return bad
        if labels != self.ix_labels:
            bad.append(f"label index {self.ix_labels}, stored labels {labels}")
        if names != [x for x in self.ix_names if x]:
            bad.append(f"name index {self.ix_names}, stored names {names}")
        if rels != self.ix_rels:
            bad.append(f"relationship index {self.ix_rels}, stored {rels}")
        return bad

    # -- graphs -------------------------------------------------------------------------
    def components(self, nodes=None, rels=None):
        """The canonical forms of the connected components, sorted (numbers abstracted away)."""
        nodes = self.nodes if nodes is None else nodes
        rels = self.rels if rels is None else rels
        return canon_graph({k: v for k, v in nodes.items()}, [(r[0], r[1], r[2], r[3]) for r in rels.values()])

    def key(self):
        return (tuple(sorted(self.nodes.items())), tuple(sorted(self.rels.items())), tuple(self.ix_labels), tuple(self.ix_names), tuple(sorted((k, tuple(v)) for k, v in self.ix_rels.items())), self.next)

    def exact(self):
        return (self.key(), tuple(sorted(self.meta.items())))


def canon_graph(nodes, rels):
    """nodes: {id: data}; rels: [(name, from, to, props)]. A multiset of canonical components."""
    import itertools

    parent = {k: k for k in nodes}

    def find(x):
        while parent[x] != x:
            x = parent[x]
        return x

    for n, a, b, p in rels:
        if a in parent and b in parent:
            parent[find(a)] = find(b)
    comps = {}
    for k in nodes:
        comps.setdefault(find(k), []).append(k)
    by = {}
    for r in rels:
        by.setdefault(find(r[1]) if r[1] in parent else None, []).append(r)
    res = []
    for root, members in comps.items():
        rs = by.get(root, [])
        if len(members) > 6:
            raise Corrupt("component with more than 6 nodes")
        best = None
        for perm in itertools.permutations(members):
            pos = {k: i for i, k in enumerate(perm)}
            form = (tuple(nodes[k] for k in perm), tuple(sorted((pos.get(a, -1), pos.get(b, -1), n, p) for n, a, b, p in rs)))
            if best is None or form < best:
                best = form
        res.append(best)
    return tuple(sorted(res))


def diff(before, after):
    """New nodes and relationships of after; None if anything of before changed."""
    for k, v in before.nodes.items():
        if after.nodes.get(k) != v or after.meta.get(k) != before.meta.get(k):
            return None
    for k, v in before.rels.items():
        if after.rels.get(k) != v or after.meta.get(k) != before.meta.get(k):
            return None
    return ({k: v for k, v in after.nodes.items() if k not in before.nodes}, {k: v for k, v in after.rels.items() if k not in before.rels})


class Bench:
    """A database that is used for many independent queries and replaced when it has grown."""

    def __init__(self, limit=25):
        self.limit, self.g, self.last = limit, None, None

    def query(self, text):
        """Returns (accepted, error, output, new part (nodes, rels) or None if something else changed, Db after)."""
        from mc.core import new_dir

        if self.g is None or len(self.last.nodes) > self.limit:
            self.g = create("db", new_dir())
            self.last = Db(self.g)
        ok, err, out = query(text, self.g)
        after = Db(self.g)
        d = diff(self.last, after)
        self.last = after
        if d is None:
            self.g = None
        return ok, err, out, d, after
