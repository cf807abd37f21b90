"""C29: a parsed query can be executed again, later and on other databases; reading a query touches nothing.

Every sequence of executions of queries that were parsed once is compared with the queries as texts on copies of the
databases.
"""
import itertools
import os

from mc import core, shim, sut
from mc.core import Outcome, new_dir

ID = "C29"
RULE = "queries are parsed once, in one process, and executed in every sequence of the enumeration; each execution is compared with a new process that runs the text on a copy of the files"
ASSUMPTIONS = ["creation times are not compared"]

Q = {
    "n": "MAKE (:A {i: 1});",
    "r": "MAKE (a:A {i: 1, l: [1, 'x']})-[r:R {s: 'y'}]->(b:B);",
    "r3": "MAKE (a:A)-[:S]->(b:B)<-[s:S {i: 1}]-(c:C);",
    "loop": "MAKE (:A)-[]->(:A);",
    "several": "MAKE (a:A), (b:B)-[a:R]->(c:C); MAKE (a:D {l: []});",
    "same": "MAKE (:A), (:A), (:A {i: 1})-[:R]->(:A {i: 1});",
    "fa": "FIND (a:A);",
    "fr": "FIND (a:A {i: 1})-[r:R {s: 'y'}]->(b:B);",
    "ftwo": "FIND (a:A), (b:C)<-[s:S]-(c:B);",
    "frep": "FIND (a:A)-[r:R]->(b:D); REPORT a.i, wn(r), b;",
    "both": "MAKE (a:C)-[:S]->(b:B); FIND (a:C)-[:S]->(b:B);",
    "none": "FIND (:Nope);",
}
PLACES = ["p", "pq"]


def paths(top, name):
    return sut.GDBMSFilePath(**{f"{k}_file_path": os.path.join(top, name, f"{f}_{name}.{e}") for k, f, e in (("database", "database", "json"), ("indexes", "indexes", "json"), ("wiggle_number", "wiggle_number", "txt"))})


def state(top):
    return repr([(p, sut.Db(paths(top, p)).key()) for p in PLACES])


def execute(parsed, g):
    from wiggle_shell.core.query.query import execute_query
    import io

    buf = io.StringIO()
    try:
        with sut.captured(buf):
            execute_query(parsed, g)
        return True, None, buf.getvalue()
    except Exception as e:
        return False, f"{type(e).__name__}: {e}", buf.getvalue()


def plain(p):
    """What a parsed query says (and not what else an implementation may keep in it)."""

    def pattern(x):
        return [(f"{place}{part}", getattr(x, f"{place}{part}")) for place in ("left_node", "left_middle_rel", "middle_node", "middle_right_rel", "right_node") for part in ("", "_handle", "_label", "_props")]

    return repr((
        [(m.raw_statement, [pattern(x) for x in m.parsed_pattern_list]) for m in p.make_parsed or []],
        p.find_parsed and (p.find_parsed.raw_statement, pattern(p.find_parsed.parsed_pattern), sorted(p.find_parsed.parsed_pattern_handles)),
        p.report_parsed and p.report_parsed.raw_statement,
    ))  # fmt: skip


def history(top, ops):
    from wiggle_shell.core.query.query import parse_query_string

    before = shim.read_tree(top)
    res, parsed = [], {}
    for name in dict.fromkeys(x for _, x in ops):
        parsed[name] = parse_query_string(Q[name])
    start = {k: plain(v) for k, v in parsed.items()}
    if shim.read_tree(top) != before:
        return "reading the queries has changed the files"
    for place, name in ops:
        res.append((*execute(parsed[name], paths(top, place)), state(top)))
        for k, v in parsed.items():
            if plain(v) != start[k]:
                return f"executing {Q[name]!r} has changed the parsed query {Q[k]!r} from {start[k]} to {plain(v)}"
    return res


def text_alone(tree, op):
    top = str(new_dir())
    shim.write_tree(tree, top)
    res = core.in_fork(lambda: (*sut.query(Q[op[1]], paths(top, op[0])), state(top)))
    return res, shim.read_tree(top)


_memo = {}


def start():
    if "start" not in _memo:
        top = new_dir()
        core.in_fork(lambda: [sut.create(p, top) for p in PLACES] and None)
        _memo["start"] = shim.read_tree(str(top))
    return _memo["start"]


def run(scn):
    o = Outcome()
    ops = scn["ops"]
    top = str(new_dir())
    shim.write_tree(start(), top)
    got = core.in_fork(history, top, ops)
    import shutil

    shutil.rmtree(top, ignore_errors=True)
    if isinstance(got, str):
        o.bad(f"{[(p, Q[x]) for p, x in ops]}: {got}")
        return o
    tree, st = start(), "start"
    for k, op in enumerate(ops):
        key = (st, *op)
        if key not in _memo:
            _memo[key] = text_alone(tree, op)
        want, tree = _memo[key]
        st = want[-1]
        o.transitions += 1
        o.validated += 1
        o.states.add(st)
        o.distinct.add((op[1], want[:-1]))
        if got[k] != want:
            o.bad(f"{Q[op[1]]!r} parsed once and executed on {op[0]} after {[(p, Q[x]) for p, x in ops[:k]]}: {got[k]}, as a text {want}")
            return o
    return o


def explore(ctx):
    q = ctx.quick

    def seqs():
        ops = [[p, x] for p in PLACES for x in Q]
        for t in itertools.product(ops, repeat=3 if q else 4):
            names = [x[1] for x in t]
            if len(set(names)) < len(names) - (0 if q else 1) and t[0][0] == PLACES[0]:
                yield {"ops": list(t)}

    ctx.run_all("again", seqs, batch=200, bounds=f"all sequences of {3 if q else 4} executions of {len(Q)} parsed queries on two databases in which one is repeated")

    def many():
        for x in Q:
            for y in Q:
                yield {"ops": [[PLACES[i % 2], (x, y)[i % 3 == 2]] for i in range(14)]}

    ctx.run_all("often", many, batch=20, bounds="every pair of queries executed fourteen times, on two databases in turn")
