"""C04: numbers are unique, never reused, and the next number is above all of them."""
import itertools

from mc import history as H

ID = "C04"
RULE = "every history of the given length over the alphabet is run on the real code; states are the contents of the database files"
ASSUMPTIONS = ["a restart is a fork of a process that has imported the code and not yet run any of it"]
KINDS = {"numbers", "graph"}


class Loader:
    """The number file read through the code's own function."""

    def begin(self, st):
        from wiggle_query_language.graph.state.wiggle_number import get_current_wiggle_number

        self.f = get_current_wiggle_number

    def before(self, st, op):
        pass

    def after(self, st, op, g, before, after, ok, out):
        n = self.f(g.wiggle_number_file_path)
        if n != after.next:
            yield "numbers", f"next number loaded as {n!r}, stored is {after.next}"


def run(scn):
    return H.run_history([list(x) for x in scn["ops"]], KINDS, Loader())


def explore(ctx):
    q = ctx.quick
    P = lambda *names: [["q", "p", n] for n in names]  # noqa
    alpha = P("n", "r", "o", "m", "bad", "badfind", "find") + [["q", "pq", "t"], ["restart"]]
    small = P("r", "c", "badrel", "makefind") + [["restart"]]

    def deep():
        for n in range(1, (4 if q else 5) + 1):
            for t in itertools.product(alpha, repeat=n):
                if t[-1] == ["restart"] or ["restart"] in t[:1]:
                    continue
                yield {"ops": [["new", "p"], ["new", "pq"], *t]}

    ctx.run_all("histories", deep, batch=20, bounds=f"all histories of up to {4 if q else 5} of {len(alpha)} operations on two databases")

    def long():
        for t in itertools.product(small, repeat=5 if q else 7):
            if t[-1] == ["restart"] or t[0] == ["restart"]:
                continue
            yield {"ops": [["new", "p"], *t]}

    ctx.run_all("long", long, batch=20, bounds=f"all histories of {5 if q else 7} of {len(small)} operations")

    def edge():
        ops = P("n", "r", "t", "m", "bad") + [["restart"]]
        for start in (6, 7, 8, 9, 10, 95, 96, 97, 98, 99, 100, 997, 999) + (() if q else (996, 1000, 9997, 9998, 9999)):
            for n in (1, 2, 3) if start < 900 and not q else (1, 2):
                for t in itertools.product(ops, repeat=n):
                    if t[-1] == ["restart"]:
                        continue
                    yield {"ops": [["new", "p"], ["fill", "p", start], *t, ["q", "p", "r"]]}

    ctx.run_all("growth", edge, batch=10, bounds="histories across the growth to 2, 3 and 4 digits")

    def high():
        ops = P("n", "r", "t", "bad") + [["restart"]]
        for start in sorted({b + k for b in [10**e for e in range(3, 21)] + [2**31, 2**32, 2**53, 2**63, 2**64] for k in ((-3, -1, 0) if q else range(-6, 2))}):
            for n in (1,) if q else (1, 2):
                for t in itertools.product(ops, repeat=n):
                    if t[-1] == ["restart"] and n > 1:
                        continue
                    yield {"ops": [["new", "p"], ["q", "p", "r"], ["number", "p", start], ["q", "p", "n"], *t, ["q", "p", "o"]]}

    ctx.run_all("high numbers", high, batch=20, bounds="histories from next numbers around every power of ten up to 10^20, and of two")

    def again():
        ops = P("n", "t") + [["q", "q", "m"], ["recreate", "p"], ["recreate", "q"], ["restart"]]
        for n in range(1, (4 if q else 5) + 1):
            for t in itertools.product(ops, repeat=n):
                if any(x[0] == "recreate" for x in t) and t[-1][0] == "q":
                    yield {"ops": [["new", "p"], ["new", "q"], *t]}

    ctx.run_all("recreate", again, batch=20, bounds="histories in which a database is deleted and made again under the same name")
