"""C19: creation times say when.

The clock of the process is the checker's: every reading of it advances it by a millisecond, and it jumps by a chosen
time between the queries. What a query stores must carry a time between the readings before and after that query.
"""
import itertools
import os
import time

from mc import history as H
from mc import shim

ID = "C19"
SHIM = True
RULE = "every history of the given length, with every choice of the time that passes before each query, at each start of the clock and in each time zone"
ASSUMPTIONS = ["the clock does not go backwards during a history", "the code reads the clock with clock_gettime, gettimeofday or time of the C library"]
KINDS = {"time", "stays"}
_S = [None]
US = 1000
BASES = {
    "now": 1759000000_123457,
    "second": 1759000000_999999,
    "epoch32": 2147483647_999000,
    "autumn": 1761438600_000001,  # 2025-10-26 00:30 UTC, half an hour before the clocks go back in CET
    "spring": 1743294599_500000,  # 2025-03-30 00:29:59 UTC
    "year": 1767225599_999990,
    "old": 86400_000001,
}
ZONES = ["UTC0", "CET-1CEST,M3.5.0,M10.5.0/3", "XXX-13:45", "YYY+11"]


class Clock:
    def __init__(self, area):
        self.area = area

    def begin(self, st):
        self.area.use()

    def before(self, st, op):
        if len(op) > 3:
            self.area.clock_set(self.area.clock_now() + op[3] * US)
        self.t0 = self.area.clock_now() / 1e9

    def after(self, st, op, g, before, after, ok, out):
        t1 = self.area.clock_now() / 1e9
        bad = []
        for wn, (c, u) in after.meta.items():
            if wn in before.meta:
                if before.meta[wn] != (c, u):
                    bad.append(("time", f"the times of {wn} changed from {before.meta[wn]} to {(c, u)}"))
                continue
            if isinstance(c, bool) or not isinstance(c, (int, float)) or not (self.t0 - 2e-6 <= c <= t1 + 2e-6):
                bad.append(("time", f"number {wn} says that it was created at {c!r}; the query ran from {self.t0:.6f} to {t1:.6f}"))
            if u is not None:
                bad.append(("time", f"number {wn} was never updated, but says {u!r}"))
        return bad


def run(scn):
    if _S[0] is None:
        _S[0] = shim.Shim(1 << 14)
    S = _S[0]
    os.environ["TZ"] = scn["zone"]
    time.tzset()
    S.clock(BASES[scn["base"]] * US, 1000 * US)
    try:
        return H.run_history([list(x) for x in scn["ops"]], KINDS, Clock(S))
    finally:
        S.clock_off()
        os.environ.pop("TZ", None)
        time.tzset()


def explore(ctx):
    q = ctx.quick
    gaps = [0, 700_000, 3_600_000_000] if q else [0, 1, 700_000, 3_600_000_000, 86_400_000_000 * 200]
    names = ["n", "m", "bad", "find"] if q else ["n", "m", "c", "bad", "find", "makefind"]
    alpha = [["q", "p", n, g] for n in names for g in gaps] + [["restart"]]

    def hist():
        for n in (1, 2, 3) if q else (1, 2, 3):
            for t in itertools.product(alpha, repeat=n):
                if t[-1] == ["restart"] or t[0] == ["restart"]:
                    continue
                if n == 3 and q and not (t[0][2] in "nm" and t[2][2] in "nm"):
                    continue
                yield {"base": "second", "zone": ZONES[1], "ops": [["new", "p"], *t]}

    ctx.run_all("histories", hist, batch=20, bounds=f"histories of up to 3 of {len(alpha)} operations")

    def zones():
        for b in BASES:
            for z in ZONES:
                for x in names:
                    for y in ("m", "c"):
                        for g in gaps:
                            yield {"base": b, "zone": z, "ops": [["new", "p"], ["q", "p", x, 0], ["q", "p", y, g], ["restart"], ["q", "p", "n", 1]]}

    ctx.run_all("zones", zones, batch=20, bounds="every start of the clock, with changes to and from summer time, in every zone")

    def long():
        for n in (60,) if q else (60, 400):
            for x in names[:2]:
                yield {"base": "autumn", "zone": ZONES[1], "ops": [["new", "p"]] + [["q", "p", x, 61_000_000]] * n}

    ctx.run_all("long", long, batch=1, bounds="a process that runs many queries")

    def named():
        # properties, labels and names that are called as what is stored beside them
        values = [["0", 0], ["1.5", 1.5], ["null", None], ["'x'", "x"], ["true", True], ["[1]", [1]]]
        for k in ("created_at", "updated_at", "wn", "node_metadata", "relationship_metadata", "node_label", "properties", "relations", "timestamp", "time", "now"):
            for text, v in values:
                for where in range(4):
                    p = [[k, text, v]]
                    # where: the first node, the relationship, the last node, all
                    n = [p if where in (i, 3) else None for i in range(3)]
                    ops = [H.pats([[None, "A", n[0]], [None, "R", n[1], "<>"[where % 2]], [None, "B", n[2]]]), ["q", "p", "m", 700_000]]
                    yield {"base": "now", "zone": ZONES[0], "ops": [["new", "p"], *ops]}
            for label in (k, k.upper()):
                yield {"base": "now", "zone": ZONES[0], "ops": [["new", "p"], H.pats([[None, label, None], [None, label.upper(), None, ">"], [None, label, None]])]}

    ctx.run_all("named", named, batch=20, bounds="properties and labels that are called as the fields of what is stored")
