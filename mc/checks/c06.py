"""C06: what is stored stays as it is."""
import itertools

from mc import history as H

ID = "C06"
RULE = "every history of the given length over the alphabet is run on the real code; after every step everything stored before is compared, and what is new is compared with the model"
ASSUMPTIONS = ["a restart is a fork of a process that has imported the code and not yet run any of it"]
KINDS = {"stays", "graph", "accept", "new"}


def run(scn):
    return H.run_history([list(x) for x in scn["ops"]], KINDS)


def explore(ctx):
    q = ctx.quick
    P = lambda *names: [["q", "p", n] for n in names]  # noqa
    Q = lambda *names: [["q", "pq", n] for n in names]  # noqa
    alpha = P("l", "v", "m", "bad", "find", "makefind") + Q("t", "badfind") + [["restart"]]

    def deep():
        for n in range(1, (4 if q else 5) + 1):
            for t in itertools.product(alpha, repeat=n):
                if t[-1] == ["restart"] or t[0] == ["restart"]:
                    continue
                yield {"ops": [["new", "p"], ["new", "pq"], *t]}

    ctx.run_all("histories", deep, batch=20, bounds=f"all histories of up to {4 if q else 5} of {len(alpha)} operations on two databases")

    def pairs():
        names = [n for n in H.QUERIES]
        for a in names:
            for b in names:
                for mid in ([], [["restart"]], [["q", "pq", "w"]], [["recreate", "pq"]]):
                    yield {"ops": [["new", "p"], ["new", "pq"], ["q", "p", a], *mid, ["q", "p", b], *mid, ["q", "p", "find1"]]}

    ctx.run_all("pairs", pairs, batch=20, bounds=f"every pair of the {len(H.QUERIES)} queries, in one and in two processes, with another database used or deleted in between")

    def kinds():
        fs = P("find", "find1", "findnone", "bad", "badrel", "badprop", "badclause", "badfind")
        for a in P("m", "c"):
            for t in itertools.product(fs, repeat=2 if q else 3):
                for z in P("o", "w"):
                    yield {"ops": [["new", "p"], a, *t, z]}

    ctx.run_all("finds", kinds, batch=20, bounds="FINDs and refused queries between MAKEs")

    def much():
        for n in (30, 200, 1000):
            for t in itertools.product(P("m", "find", "bad", "c") + [["restart"]], repeat=2):
                yield {"ops": [["new", "p"], ["q", "p", "m"], ["fill", "p", n], *t, ["q", "p", "r"]]}

        for t in (P("m", "find", "c"), P("bad", "m") + [["restart"]], P("c") + [["restart"]] + P("m")):
            for n in (6000,) if q else (3000, 6000, 20000):
                yield {"ops": [["new", "p"], ["q", "p", "m"], ["fill", "p", n], *t, ["q", "p", "r"]]}

    ctx.run_all("much", much, batch=3, bounds="short histories on databases with up to 1000 nodes, and three on 6000 (20000 in thorough)")

    def often():
        for n in (1100,) if q else (1100, 5000):
            for x in ("find", "bad", "findnone", "badprop", "badfind"):
                yield {"ops": [["new", "p"], ["new", "pq"], ["q", "p", "m"], *P(x) * n, ["q", "p", "c"], ["q", "pq", "m"], ["q", "p", "find"]]}
            yield {"ops": [["new", "p"], ["q", "p", "m"], *[["q", "p", ("find", "bad", "m", "findnone", "find1")[i % 5] if i % 50 == 2 or i % 5 != 2 else "find"] for i in range(n)]]}
            for k in (300, 600):
                yield {"ops": [["new", "p"], *P("n", "r", "c") * (k // 3)]}

    ctx.run_all("often", often, batch=1, bounds="1100 queries (5000 in thorough), up to 600 of them MAKEs, in one process")
