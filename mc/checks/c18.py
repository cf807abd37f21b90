"""C18: shells that use one database at the same time do not harm each other.

The processes are real; a scheduler decides before each of their file operations and locks which of them goes on.
All schedules with up to a number of preemptions are run, and the end of each is compared with the serial orders.
"""
import itertools
import shutil

from mc import core, disaster, sched, shim, sut
from mc import history as H
from mc import model as M
from mc.core import Outcome, new_dir

ID = "C18"
SHIM = True
PIN = True
RULE = "one evaluation per set of queries and part of its schedules; transitions count the schedules, states the distinct final states, outcomes the distinct final states with what the FINDs printed"
ASSUMPTIONS = ["processes interleave at file operations, locks and sleeps; an fsync, and the closing of a file that is no lock, are not visible to other processes"]
# the labels and names that the FINDs of mc.history ask for
NEEDS = {"find": ({"A", "B"}, {"R"}), "find1": ({"A"}, set()), "findnone": ({"Nope", "A"}, {"NONE"}), "makefind": ({"M"}, set())}


def merges(lists):
    if not any(lists):
        yield []
        return
    for i, ls in enumerate(lists):
        if ls:
            rest = [list(x) for x in lists]
            h = rest[i].pop(0)
            for m in merges(rest):
                yield [(i, h)] + m


def serial(before, procs):
    """What the FINDs print in the serial orders: {((proc, printed...)...)}"""
    res = set()
    for order in merges([list(enumerate(p)) for p in procs]):
        labels = {n[0] for n in before.nodes.values()}
        names = {r[0] for r in before.rels.values() if r[0]}
        out = {}
        for i, (k, q) in order:
            kind, text, patterns = H.QUERIES[q]
            if kind == "make":
                for p in patterns:
                    labels |= {x[1] for x in p[0::2]}
                    names |= {x[1] for x in p[1::2] if x[1]}
            if q in NEEDS:
                out[(i, k)] = not (NEEDS[q][0] <= labels and NEEDS[q][1] <= names)
        res.add(tuple(sorted(out.items())))
    return res


def job(folder, queries):
    def f():
        g = H.paths(folder, disaster.NAME)
        return [sut.query(H.QUERIES[q][1], g) for q in queries]

    return f


def run(scn):
    o = Outcome()
    top, st = disaster.template(scn["hist"])
    disaster.warm()
    before = st.dbs[disaster.NAME]["last"]
    used = st.dbs[disaster.NAME]["used"]
    procs = scn["procs"]
    allowed = serial(before, procs)
    total = sum(len(p) for ps in procs for q in ps for p in H.QUERIES[q][2])
    if "schedule" in scn:
        one(o, top, st, before, used, procs, allowed, total, scn["schedule"], scn.get("sync", 0))
        return o
    part, n = scn.get("part", [0, 1])
    # a schedule whose switches cost nothing is the root of a large part of the tree: every part of the work runs it
    # and takes its share of the alternatives
    roots, stack, k = [[]], [], 0
    while roots:
        prefix = roots.pop()
        s = one(o, top, st, before, used, procs, allowed, total, prefix, scn.get("sync", 0))
        if o.violations:
            return o
        for alt in list(s.alternatives(scn["bound"])) + (list(s.kills()) if scn.get("kill") else []):
            if not isinstance(alt[-1], tuple) and s.free(len(alt) - 1):
                roots.append(alt)
            else:
                if k % n == part:
                    stack.append(alt)
                k += 1
    while stack:
        prefix = stack.pop()
        s = one(o, top, st, before, used, procs, allowed, total, prefix, scn.get("sync", 0))
        if o.violations:
            return o
        stack += list(s.alternatives(scn["bound"]))
        if scn.get("kill") and not any(isinstance(c, tuple) for c in prefix):
            stack += list(s.kills())
    shutil.rmtree(top, ignore_errors=True)
    return o


def one(o, top, st, before, used, procs, allowed, total, prefix, sync=0):
    d = disaster.clone(top)
    s = sched.Schedule(prefix, sync)
    o.validated += 1
    results, why = sched.execute([job(d, p) for p in procs], d, s)
    o.transitions += 1
    killed = {t[2][1] for t in s.trace if isinstance(t[2], tuple)}
    bad = judge(o, d, before, used, procs, allowed, total, results, why, killed)
    if bad:
        o.bad(f"{bad[0]} with the queries {procs} in the schedule {[t[2] for t in s.trace]}")
    shutil.rmtree(d, ignore_errors=True)
    return s


def judge(o, d, before, used, procs, allowed, total, results, why, killed):
    if why:
        return [why]
    printed = {}
    inflight, must = [], []
    for i, (qs, r) in enumerate(zip(procs, results)):
        if i in killed:
            inflight += [H.QUERIES[q][2] for q in qs]
            continue
        if r is None or not r[0]:
            return [f"process {i} died: {r}"]
        for k, (q, (ok, err, out)) in enumerate(zip(qs, r[1])):
            if ok != (H.QUERIES[q][0] != "bad"):
                return [f"query {q} of process {i} is {'accepted' if ok else 'refused: ' + str(err)}"]
            if q in NEEDS:
                printed[(i, k)] = sut.no_results(out)
            if ok:
                must.append(len(inflight))
                inflight.append(H.QUERIES[q][2])
    bad, db, opt = disaster.check_state(d, before, used, inflight, tuple(must))
    if bad:
        return bad
    if not killed:
        if db.next != before.next + total:
            return [f"the next number is {db.next} after {before.next} and {total} nodes and relationships"]
        bad = db.index_errors()
        if bad:
            return bad
        if tuple(sorted(printed.items())) not in allowed:
            return [f"the FINDs print {printed}, the serial orders explain {allowed}"]
    o.states.add(db.key())
    o.distinct.add((db.key(), tuple(sorted(printed.items()))))
    key = (db.key(), db.exact() if killed else 0)
    if killed:
        return disaster.check_after(d, db, used)
    return []


H0 = []
H1 = [["q", "p", "c"], ["q", "p", "bad"]]


def explore(ctx):
    q = ctx.quick

    def sets(cfgs, bound, n, kill=False, sync=0):
        def gen():
            for h, procs in cfgs:
                for i in range(n):
                    yield {"hist": h, "procs": procs, "bound": bound, "part": [i, n], **({"kill": True} if kill else {}), **({"sync": sync} if sync else {})}

        return gen

    two = [(H0, [["n"], ["r"]]), (H1, [["m"], ["find"]]), (H0, [["makefind"], ["find"]])]
    if not q:
        names = ["n", "c", "m", "bad", "find", "findnone", "makefind"]
        two = [(h, [[a], [b]]) for h in (H0, H1) for a, b in itertools.combinations_with_replacement(names, 2)] + [(H0, [["n", "find1"], ["c", "bad"]]), (H1, [["find", "m"], ["find", "l"]])]
    ctx.run_all("two", sets(two, 2, 8), batch=1, bounds="two processes, all schedules with up to 2 preemptions")
    three = [(H0, [["n"], ["r"], ["find1"]])]
    if not q:
        three += [(H1, [["n"], ["c"], ["find"]]), (H0, [["n"], ["n"], ["n"]]), (H0, [["n"], ["bad"], ["r"]])]
    turns = [(H0, [["n", "r"], ["c"]]), (H0, [["makefind", "find"], ["r"]]), (H0, [["makefind"], ["makefind"]]), (H1, [["r", "n"], ["n", "find"]])]
    if not q:
        turns += [(H1, [["find", "m", "find1"], ["n", "l"]]), (H0, [["r", "bad", "c"], ["n", "find"]])]
    ctx.run_all("turns", sets(turns, 1, 8 if q else 32, sync=1 if q else 2), batch=1, bounds=f"several queries per process, all schedules with up to 1 preemption and {1 if q else 2} more switches just after a lock is taken or given back")
    ctx.run_all("three", sets(three, 1 if q else 2, 8), batch=1, bounds=f"three processes, all schedules with up to {1 if q else 2} preemptions")
    ctx.run_all("killed", sets([(H0, [["n"], ["r"]])] if q else [(H1, [["n"], ["c"]]), (H0, [["m"], ["find"]]), (H0, [["r"], ["n"], ["l"]])], 1, 8, True), batch=1, bounds="one process is killed at any point, all schedules with up to 1 preemption")
    if not q:
        ctx.run_all("deep", sets([(H0, [["n"], ["r"]]), (H0, [["n"], ["find1"]])], 3, 32), batch=1, bounds="two processes, all schedules with up to 3 preemptions")
