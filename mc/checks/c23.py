"""C23: a query means the same whatever was asked before in the process.

The process that has a history is compared with a new one that runs the same query on the same files.
"""
import itertools
import os
import re

from mc import core, findpre, shim, sut
from mc.core import Outcome, new_dir

ID = "C23"
RULE = "every sequence of queries of the enumeration runs in one process; each step is compared with a new process that runs the query on a copy of the files"
ASSUMPTIONS = ["creation times are not compared", "messages are compared as texts, without addresses of objects"]

Q = {
    "n": "MAKE (:A);",
    "i1": "MAKE (:A {i: 1});",
    "i1.0": "MAKE (:A {i: 1.0});",
    "i'1'": "MAKE (:A {i: '1'});",
    "itrue": "MAKE (:A {i: true});",
    "i'true'": "MAKE (:A {i: 'true'});",
    "inull": "MAKE (:A {i: null});",
    "i'null'": 'MAKE (:A {i: "null"});',
    "l1": "MAKE (:A {i: [1, 2]});",
    "l1.0": "MAKE (:A {i: [1.0, true]});",
    "l'1'": "MAKE (:A {i: ['1', \"2\"]});",
    "two": "MAKE (:A {i: 1, j: 2});",
    "owt": "MAKE (:A {j: 2, i: 1});",
    "r": "MAKE (a:A {i: 1})-[r:R]->(b:B);",
    "r2": "MAKE (b:A {i: 1})<-[r:R]-(a:B);",
    "r3": "MAKE (a:A)-[:S]->(b:B)<-[s:S {i: 1}]-(c:C);",
    "loop": "MAKE (:A)-[]->(:A);",
    "several": "MAKE (a:A), (b:B)-[a:R]->(c:C); MAKE (a:D);",
    "case": "make (:a {I: 1});",
    "dup": "MAKE (a:A)-[a:R]->(b:B);",
    "badprop": "MAKE (:A {i: });",
    "badrel": "MAKE (:A)-[:R]-(:B);",
    "badsecond": "MAKE (:A); MAKE (:B {i: 1)-[:R]->(:C);",
    "badlist": "MAKE (:A {i: [1, x]});",
    "kame": "KAME (:A);",
    "makekame": "MAKE (:A); KAME (:B);",
    "fa": "FIND (:A);",
    "fb": "FIND (a:B);",
    "fn": "FIND (:Nope);",
    "fr": "FIND (a:A {i: 1})-[r:R]->(b:B);",
    "fs": "FIND (a:A)-[r:S]->(b:B);",
    "ftwo": "FIND (a:A), (b:C)<-[s:S]-(c:B);",
    "frep": "FIND (a:A); REPORT a;",
    "frep2": "FIND (b:A); REPORT a;",
    "frep3": "FIND (a:A)-[r:R]->(b:B); REPORT a.i, wn(r), b;",
    "repall": "FIND (:A); REPORT *;",
    "rep": "REPORT a;",
    "finds": "FIND (:A); FIND (:A);",
    "fbad": "FIND (:A)-(:B);",
    "dnif": "DNIF (:A);",
    "both": "MAKE (a:C); FIND (a:C);",
    "empty": "",
    "junk": "hello",
}
MAIN = ["i1", "i1.0", "i'1'", "r", "r3", "dup", "badprop", "makekame", "fa", "fs", "frep", "frep2"]
SMALL = ["i1", "r", "badprop", "fs", "frep2", "dup"]
PLACES = ["x/p", "x/pq", "y/p"]


def plain_parsed(text):
    from wiggle_shell.core.query.query import parse_query_string

    try:
        p = parse_query_string(text)
    except Exception as e:
        return f"{type(e).__name__}: {e}"
    return repr((
        [(m.raw_statement, [sorted((k, v) for k, v in x.dict().items() if v) for x in m.parsed_pattern_list]) for m in p.make_parsed or []],
        p.find_parsed and (p.find_parsed.raw_statement, sorted(p.find_parsed.parsed_pattern_handles)),
        p.report_parsed and p.report_parsed.raw_statement,
    ))  # fmt: skip


BASES = [
    "MAKE (first:Label {text: 'some words', number: 12}), (left:Left {i: 1})-[rel:NAME {f: 2.5, l: ['ab', 3]}]->(mid:Middle {i: 1})<-[other:NAME {f: 2.5, l: ['ab', 3]}]-(right:Left {b: true});",
    "FIND (first:Label {text: 'some words', number: 12}), (left:Left {i: 1})-[rel:NAME {f: 2.5}]->(mid:Middle)<-[other:OTHER]-(right:Left {b: true}); REPORT first.text, wn(left), right;",
]


def variants(base):
    """Texts that differ from the base in one letter or digit, in two exchanged ones, or in case or layout."""
    seen = {base}
    for i, c in enumerate(base):
        d = {"9": "8", "z": "y", "Z": "Y"}.get(c) or (chr(ord(c) + 1) if c.isalnum() else None)
        for x in (d and base[:i] + d + base[i + 1 :], base[:i] + c.swapcase() + base[i + 1 :], base[:i] + base[i + 1 : i + 2] + c + base[i + 2 :], base[:i] + " " + base[i:], base[:i] + base[i + 1 :]):
            if x and x not in seen:
                seen.add(x)
                yield x
    import re

    words = list(re.finditer(r"\w+", base))
    for a, b in itertools.combinations(words, 2):
        # two words change places
        x = base[: a.start()] + b[0] + base[a.end() : b.start()] + a[0] + base[b.end() :]
        if x not in seen:
            seen.add(x)
            yield x


def do(top, op):
    """One step; plain result."""
    place, what = op
    folder = os.path.join(top, os.path.dirname(place))
    name = os.path.basename(place)
    g = sut.GDBMSFilePath(**{f"{k}_file_path": os.path.join(folder, name, f"{f}_{name}.{e}") for k, f, e in (("database", "database", "json"), ("indexes", "indexes", "json"), ("wiggle_number", "wiggle_number", "txt"))})
    if what == "new":
        from pathlib import Path

        try:
            sut.S.delete_gdbms(name, Path(folder))
        except Exception:
            pass
        sut.create(name, Path(folder))
        return ("new", state(top))
    text = Q.get(what, what)
    parsed = plain_parsed(text)
    prepared = findpre.real_all(text) if "FIND" in text else None
    ok, err, out = sut.query(text, g)
    return (ADDRESS.sub("0x", parsed), ADDRESS.sub("0x", repr(prepared)), ok, err and ADDRESS.sub("0x", err), out, state(top))


def state(top):
    res = []
    for p in PLACES:
        folder, name = os.path.join(top, p), os.path.basename(p)
        if os.path.isdir(folder):
            try:
                res.append((p, sut.Db((sut.GDBMSFilePath(**{f"{k}_file_path": os.path.join(folder, f"{f}_{name}.{e}") for k, f, e in (("database", "database", "json"), ("indexes", "indexes", "json"), ("wiggle_number", "wiggle_number", "txt"))}))).key()))
            except (sut.Corrupt, OSError) as e:
                res.append((p, f"{type(e).__name__}: {e}"))
    return repr(res)


ADDRESS = re.compile("0x[0-9a-f]{6,}")


def history(top, ops):
    return [do(top, op) for op in ops]


def alone(tree, op):
    """The step in a new process on a copy of the files: (result, files afterwards)."""
    top = str(new_dir())
    shim.write_tree(tree, top)
    res = core.in_fork(do, top, op)
    after = shim.read_tree(top)
    _remove(top)
    return res, after


def _remove(top):
    import shutil

    shutil.rmtree(top, ignore_errors=True)


_memo = {}


def start():
    if "start" not in _memo:
        top = str(new_dir())
        core.in_fork(lambda: [do(top, [p, "new"]) for p in PLACES] and None)
        _memo["start"] = shim.read_tree(top)
        _remove(top)
    return _memo["start"]


def run(scn):
    o = Outcome()
    ops = scn["ops"]
    top = str(new_dir())
    shim.write_tree(start(), top)
    got = core.in_fork(history, top, ops)
    _remove(top)
    tree, st = start(), "start"
    for k, op in enumerate(ops):
        # equal content, equal behaviour: creation times play no part
        key = (st, *op)
        if key not in _memo:
            _memo[key] = alone(tree, op)
        want, tree = _memo[key]
        st = want[-1]
        o.transitions += 1
        o.validated += 1
        o.states.add(want[-1])
        o.distinct.add(want[:-1])
        if got[k] != want:
            i = next(i for i, (a, b) in enumerate(zip(got[k], want)) if a != b)
            what = ["the parsed query", "the prepared FIND", "whether it is accepted", "the error", "the output", "what is stored"][i] if len(want) > 2 else "what is stored"
            o.bad(f"{op[0]}: {Q.get(op[1], op[1])!r} after {[(p, Q.get(x, x)) for p, x in ops[:k]]}: {what} is {got[k][i]!r}, in a new process it is {want[i]!r}")
            return o
    return o


def explore(ctx):
    q = ctx.quick
    P = PLACES

    def pairs():
        for a in Q:
            # everything after one query, and that query again at the end
            yield {"ops": [[P[0], a], [P[0], a], [P[0], a]]}
            for b in Q:
                yield {"ops": [[P[0], a], [P[0], b], [P[0], a], [P[0], b]]}

    ctx.run_all("pairs", pairs, batch=200, bounds=f"all ordered pairs of {len(Q)} queries, and both again")

    def chains():
        for a in MAIN:
            for t in itertools.product(MAIN, repeat=1 if q else 2):
                for u in itertools.permutations(SMALL, 2):
                    yield {"ops": [[P[0], x] for x in (a, *t, *u)]}

    ctx.run_all("chains", chains, batch=200, bounds=f"sequences of {4 if q else 5} queries: {2 if q else 3} of {len(MAIN)}, then 2 of {len(SMALL)}")

    def places():
        alpha = [[p, x] for p in P for x in ("i1", "r3", "badprop", "fa", "fs")] + [[P[0], "new"], [P[2], "new"]]
        for t in itertools.product(alpha, repeat=3 if q else 4):
            if len({x[0] for x in t}) > 1:
                yield {"ops": list(t)}

    ctx.run_all("databases", places, batch=200, bounds=f"all sequences of {3 if q else 4} of 17 operations on three databases, two of them with the same name")

    def alike():
        for base in BASES:
            for x in variants(base):
                yield {"ops": [[P[0], base], [P[0], x]]}
                yield {"ops": [[P[0], x], [P[0], base]]}

    ctx.run_all("alike", alike, batch=100, bounds="two long queries, and every text that differs from them in a letter, its case, a space, or two exchanged letters or words, in both orders")

    def all_in_one():
        # every query after all others, in rotated orders
        names = list(Q)
        for k in range(len(names)):
            t = names[k:] + names[:k]
            yield {"ops": [[P[0], x] for x in t + t[::-1]]}
            yield {"ops": [[P[i % 3], x] for i, x in enumerate(t)]}

    ctx.run_all("all", all_in_one, batch=6, bounds=f"all {len(Q)} queries one after another, from every start, forward and backward")
