"""Histories of operations on databases, run on the real code and compared with a model step by step.

A history is a list of operations:
    ["q", db, name]    the query QUERIES[name] on the database db
    ["fill", db, n]    a MAKE of n nodes (brings the numbers to a boundary)
    ["new", db]        creates the database
    ["recreate", db]   deletes the database and creates it again
    ["number", db, n]  the next number is n, as after crashes that have used up numbers
    ["restart"]        the process ends; the rest runs in a new process (a fork of a process that
                       has imported the code and has not run any of it)
"""
import io
import json
import os
import re

from mc import core
from mc import model as M
from mc import sut
from mc.core import Outcome, new_dir


def _n(label, props=None):
    return [None, label, props]


def _r(name, d, props=None):
    return [None, name, props, d]


I1 = [["i", "1", 1]]
S1 = [["s", "'x'", "x"], ["b", "true", True]]


def make(*stmts):
    return ("make", "\n".join(M.stmt_text("MAKE", s) for s in stmts), [p for s in stmts for p in s])


HARD = [["f", "0.12345678901", 0.12345678901], ["g", "1234567.123456789", 1234567.123456789], ["z", "0.0000000000001", 1e-13], ["i", "12345678901234567890", 12345678901234567890]]
HARD2 = [["n", "null", None], ["s", "'  a  \"b\" '", '  a  "b" '], ["u", "\"\u00e9\u4e2d ''\"", "\u00e9\u4e2d ''"], ["e", "''", ""], ["z", "0", 0], ["b", "false", False], ["l", "[]", []], ["m", "[0.12345678901, null, 'x', true, 1, 1.0]", [0.12345678901, None, "x", True, 1, 1.0]]]

class Queries(dict):
    """Also makes queries of a given size: nodes300 (patterns), text5000 (the length of a text), wide40 (different labels and names).

    pats:[...] is a MAKE of the patterns that are given as JSON.
    """

    def __missing__(self, name):
        if name.startswith("pats:"):
            # not kept, there are many
            return make(json.loads(name[5:]))
        kind, n = re.fullmatch(r"(nodes|text|wide)(\d+)", name).groups()
        n = int(n)
        if kind == "nodes":
            self[name] = make([[_n("A")]] * n)
        elif kind == "text":
            t = "ab c" * (n // 4) + "d" * (n % 4)
            self[name] = make([[_n("A", [["t", f"'{t}'", t]]), _r("R", ">"), _n("B")]])
        else:
            self[name] = make([[_n(f"L{i}"), _r(f"N{i}".upper(), "<>"[i % 2]), _n(f"L{i + 1}")] for i in range(n)])
        return self[name]


QUERIES = Queries({
    "n": make([[_n("A")]]),
    "np": make([[_n("B", I1)]]),
    "r": make([[_n("A"), _r("R", ">"), _n("B")]]),
    "l": make([[_n("B", S1), _r("R", "<", I1), _n("C")]]),
    "u": make([[_n("A"), _r("", ">"), _n("A", I1)]]),
    "t": make([[_n("A"), _r("R", ">"), _n("B"), _r("S", "<"), _n("D")]]),
    "c": make([[_n("C", I1), _r("S", "<", S1), _n("A"), _r("", ">"), _n("A")]]),
    "o": make([[_n("B"), _r("T", "<"), _n("A"), _r("T", "<"), _n("E")]]),
    "m": make([[_n("A")], [_n("B"), _r("R", "<"), _n("A")]], [[_n("E"), _r("S", ">"), _n("A", S1), _r("R", ">"), _n("C")]]),
    "v": make([[_n("A", HARD), _r("R", ">", HARD2), _n("B", HARD2), _r("", "<", HARD), _n("A")]]),
    "w": make([[_n("F")], [_n("G"), _r("V", ">"), _n("F")], [_n("F")]], [[_n("H", I1)]], [[_n("G")]]),
    "bad": ("bad", "MAKE (:X)-[:Q]->(:Y);\nMAKE (:Z {i: });", []),
    "badrel": ("bad", "MAKE (:X), (:Y)-[:Q]->(:X);\nMAKE (:Z)-[:P]-(:Y);", []),
    "badfind": ("bad", "MAKE (:X)-[:Q]->(:Y);\nFIND (:A {i: None});", []),
    "badprop": ("bad", "MAKE (:X)-[:Q]->(:Y), (:A {b: True});", []),
    "badclause": ("bad", "MAKE (:X)-[:Q]->(:Y); KAME (:A);", []),
    "find": ("find", "FIND (a:A)-[r:R]->(b:B);", []),
    "find1": ("find", "FIND (a:A); REPORT a;", []),
    "findnone": ("find", "FIND (:Nope)<-[:NONE]-(:A);", []),
    "makefind": ("make", "MAKE (:M)-[:N]->(:A); FIND (:M);", [[_n("M"), _r("N", ">"), _n("A")]]),
})


def pats(*patterns):
    return ["q", "p", "pats:" + json.dumps(patterns)]


class State:
    """The model: what must be true of each database, carried from process to process."""

    def __init__(self, folder):
        self.folder = folder
        self.dbs = {}  # name -> dict(last=Db, used=set of all numbers ever seen)


DOCUMENTED = re.compile(r"(database|indexes)_.*\.json|wiggle_number_.*\.txt", re.S)


def tree(path):
    """The documented files of all databases in the folder."""
    res = []
    for root, dirs, files in os.walk(path):
        for f in sorted(files):
            if not DOCUMENTED.fullmatch(f):
                continue
            p = os.path.join(root, f)
            with open(p, "rb") as h:
                res.append((os.path.relpath(p, path), h.read()))
    return sorted(res)


def paths(folder, name):
    return sut.GDBMSFilePath(
        database_file_path=sut.S.get_existing_db_file_path(gdbms_name=name, path_to_dbms_dir=folder),
        indexes_file_path=sut.S.get_existing_indexes_file_path(gdbms_name=name, path_to_dbms_dir=folder),
        wiggle_number_file_path=sut.S.get_existing_wn_file_path(gdbms_name=name, path_to_dbms_dir=folder),
    )


def run_segment(st, ops, want, strict_index=True, extra=None):
    """Runs ops in this process. Returns (state, violations [(kind, text)], visited states, outcomes)."""
    viol, states, outs = [], [], []
    handles = {}
    if extra:
        extra.begin(st)

    def bad(kind, text):
        viol.append((kind, text))

    for k, op in enumerate(ops):
        kind = op[0]
        db = op[1]
        if kind in ("new", "recreate"):
            if kind == "recreate":
                with sut.captured(io.StringIO()):
                    sut.S.delete_gdbms(db, st.folder)
            handles[db] = sut.create(db, st.folder)
            d = sut.Db(handles[db])
            if d.nodes or d.rels or d.next != 0 or d.ix_labels or d.ix_names or d.ix_rels:
                bad("new", f"a new database is not empty: {d.raw}")
            st.dbs[db] = dict(last=d, used=set())
            states.append((db, d.key()))
            continue
        if db not in handles:
            handles[db] = paths(st.folder, db)
        g = handles[db]
        if kind == "number":
            with open(g.wiggle_number_file_path, "w") as f:
                f.write(str(op[2]))
            st.dbs[db]["last"] = sut.Db(g)
            continue
        if kind == "fill":
            n = op[2]
            qk, text, patterns = "make", "MAKE " + ", ".join(["(:Z)"] * n) + ";", [[["", "Z", None]]] * n
        else:
            qk, text, patterns = QUERIES[op[2]]
        others = {o: sut.read_raw(handles.get(o) or paths(st.folder, o)) for o in st.dbs if o != db}
        before = st.dbs[db]["last"]
        pre = tree(st.folder) if qk == "find" else None
        if extra:
            extra.before(st, op)
        ok, err, out = sut.query(text, g)
        where = f"after step {k} ({op}) of {ops}"
        for o, raw in others.items():
            now = sut.read_raw(handles.get(o) or paths(st.folder, o))
            if now != raw:
                bad("stays", f"{where}: database {o} changed")
                st.dbs[o]["last"] = sut.Db(raw=now)
        try:
            after = sut.Db(g)
        except sut.Corrupt as e:
            bad("stays", f"{where}: {e}")
            break
        if ok != (qk != "bad"):
            bad("accept", f"{where}: {'accepted' if ok else 'refused: ' + str(err)}")
        if qk == "find" and tree(st.folder) != pre:
            bad("stays", f"{where}: a FIND wrote to the files")
        d = sut.diff(before, after)
        size = sum(len(p) for p in patterns) if ok else 0
        if d is None:
            bad("stays", f"{where}: stored things changed: nodes {before.nodes} -> {after.nodes}, rels {before.rels} -> {after.rels}, times {before.meta} -> {after.meta}")
        else:
            new = after.components(d[0], d[1])
            exp = M.canon(patterns) if ok else M.canon([])
            if new != exp:
                bad("graph", f"{where}: new is {new}, expected {exp}")
            nn = sorted(list(d[0]) + list(d[1]))
            again = set(nn) & st.dbs[db]["used"]
            if again:
                bad("numbers", f"{where}: numbers {sorted(again)} were in use before")
            if len(nn) != size:
                bad("numbers", f"{where}: {len(nn)} numbers are new for {size} nodes and relationships")
            st.dbs[db]["used"] |= set(nn)
        for t in after.integrity():
            bad("numbers", f"{where}: {t}")
        if after.next != before.next + size:
            bad("numbers", f"{where}: next number {before.next} -> {after.next}, expected {before.next + size}")
        for t in after.index_errors():
            bad("index", f"{where}: {t}")
        if not ok and before.exact() != after.exact():
            bad("refused", f"{where}: the refused query changed {before.raw} to {after.raw}")
        if extra:
            for kd, t in extra.after(st, op, g, before, after, ok, out):
                bad(kd, f"{where}: {t}")
        st.dbs[db]["last"] = after
        states.append((db, after.key()))
        outs.append((op[0], op[2] if kind == "q" else "", ok, sut.no_results(out), size))
        if viol:
            break
    return st, viol, states, outs


def run_history(ops, kinds, extra=None):
    """Runs a history; violations of the given kinds (None: all) are reported."""
    o = Outcome()
    st = State(new_dir())
    seg, segs = [], []
    for op in ops + [["restart"]]:
        if op[0] == "restart":
            segs.append(seg)
            seg = []
        else:
            seg.append(op)
    for seg in segs:
        if not seg:
            continue
        st, viol, states, outs = core.in_fork(run_segment, st, seg, kinds, True, extra, timeout=60)
        o.states.update(states)
        o.distinct.update(outs)
        o.transitions += len(seg)
        o.validated += len(seg)
        for kind, text in viol:
            if kinds is None or kind in kinds:
                o.bad(f"[{kind}] {text}")
        if viol:
            break
    return o
