"""Runner shared by all checks: privilege drop, scratch space, exhaustive parallel exploration,
replay artefacts, known findings and evidence.

A check is a module of mc.checks with
    ID        the property
    explore(ctx)   calls ctx.run_all(...) on complete enumerations
    run(scn)       runs ONE scenario (a JSON value) and returns an Outcome
so that a scenario found by the exploration can be replayed on its own (mc/replay.py).
"""
import contextlib
import errno
import io
import json
import logging
import os
import pickle
import shutil
import signal
import struct
import sys
import tempfile
import time
import traceback
import mmap
from pathlib import Path

VERIF = Path(__file__).resolve().parent.parent
REPO = Path(os.environ.get("MC_REPO", "/repo"))
NOBODY = 65534
NPROC = int(os.environ.get("MC_PROCS", "0")) or min(8, os.cpu_count() or 1)


class Outcome:
    """What one scenario showed."""

    __slots__ = ("violations", "states", "transitions", "distinct", "validated")

    def __init__(self):
        self.violations = []  # texts
        self.states = set()  # hashable canonical states (merged over all scenarios)
        self.transitions = 0  # executed steps of the implementation
        self.distinct = set()  # distinct observed outcomes
        self.validated = 0  # model traces compared with the implementation

    def bad(self, text):
        self.violations.append(text)


def h64(x):
    import hashlib

    return int.from_bytes(hashlib.blake2b(repr(x).encode(), digest_size=8).digest(), "big")


# --------------------------------------------------------------------------------------
# the system under test


def load_sut():
    """Imports the code of the repository without its log file and without stale bytecode."""
    sys.dont_write_bytecode = True
    if not sys.pycache_prefix:
        sys.pycache_prefix = "/nonexistent-wgmc"
    logging.FileHandler = lambda *a, **k: logging.NullHandler()
    for p in (str(REPO / "wiggle_shell"), str(REPO)):
        if p not in sys.path:
            sys.path.insert(0, p)
    # /repo itself first: 'core', 'models', ... must come from the repository
    sys.path.remove(str(REPO))
    sys.path.insert(0, str(REPO))
    import mc.sut as sut

    root = logging.getLogger()
    for hd in list(root.handlers):
        root.removeHandler(hd)
    root.addHandler(logging.NullHandler())
    logging.raiseExceptions = False
    return sut


# --------------------------------------------------------------------------------------
# isolation of one piece of work in a fork of this (pristine) process


class ChildDied(Exception):
    pass


def in_fork(fn, *args, timeout=120):
    """Runs fn(*args) in a fork and returns its (pickled) result."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            os.close(r)
            signal.alarm(timeout)
            try:
                res = (True, fn(*args))
            except BaseException as e:  # noqa
                res = (False, f"{type(e).__name__}: {e}\n{traceback.format_exc()}")
            data = pickle.dumps(res)
            with os.fdopen(w, "wb") as f:
                f.write(data)
            code = 0
        finally:
            os._exit(code)
    os.close(w)
    with os.fdopen(r, "rb") as f:
        data = f.read()
    _, status = os.waitpid(pid, 0)
    if not data:
        raise ChildDied(f"child died with status {status}")
    ok, res = pickle.loads(data)
    if not ok:
        raise RuntimeError(res)
    return res


# --------------------------------------------------------------------------------------


class Ctx:
    def __init__(self, check, tier, seed, scratch):
        self.check, self.tier, self.seed, self.scratch = check, tier, seed, scratch
        self.quick = tier == "quick"
        self.states = set()
        self.transitions = 0
        self.distinct = set()
        self.validated = 0
        self.scenarios = 0
        self.violations = []  # (scenario, preceding, text)
        self.samples = []
        self.bounds = {}
        self.parts = {}
        self.extra = {}
        self.errors = []
        self.known = {}
        self.exhaustive = True
        self.t0 = time.time()

    # -- exhaustive exploration --------------------------------------------------------
    def run_all(self, part, scenarios, batch=100, bounds=None, run=None, iso=True, maxviol=3):
        """Runs every scenario of the (deterministic, re-iterable) generator function.

        scenarios: a function without arguments that returns an iterable of JSON values.
        batch: number of scenarios that share one fork of the pristine process (1: each its own).
        """
        if self.violations or self.errors:
            return 0
        t0 = time.time()
        run = run or self.check.run
        flag = mmap.mmap(-1, 8)
        procs = []
        for wid in range(NPROC):
            out = self.scratch / f"w{part}{wid}.pickle"
            pid = os.fork()
            if pid == 0:
                code = 1
                try:
                    if getattr(self.check, "PIN", False):
                        # only one of a worker's processes runs at a time: no wake-ups across processors
                        cpus = sorted(os.sched_getaffinity(0))
                        os.sched_setaffinity(0, {cpus[wid % len(cpus)]})
                    res = self._worker(wid, scenarios, batch, run, flag, iso, maxviol)
                    with open(out, "wb") as f:
                        pickle.dump(res, f)
                    code = 0
                except BaseException:
                    traceback.print_exc()
                    sys.stderr.flush()
                finally:
                    os._exit(code)
            procs.append((pid, out))
        n = 0
        for pid, out in procs:
            _, status = os.waitpid(pid, 0)
            if status != 0 or not out.exists():
                self.errors.append(f"worker of {part} ended with status {status}")
                continue
            with open(out, "rb") as f:
                res = pickle.load(f)
            out.unlink()
            n += res["n"]
            self.states |= res["states"]
            self.distinct |= res["distinct"]
            self.transitions += res["transitions"]
            self.validated += res["validated"]
            self.violations += res["violations"]
            self.samples += res["samples"]
            self.errors += res["errors"]
        self.scenarios += n
        self.parts[part] = {"scenarios": n, "seconds": round(time.time() - t0, 1)}
        if bounds:
            self.bounds[part] = bounds
        if flag[0]:
            self.exhaustive = False
        return n

    def _worker(self, wid, scenarios, batch, run, flag, iso, maxviol):
        tot = dict(n=0, states=set(), distinct=set(), transitions=0, validated=0, violations=[], samples=[], errors=[])
        buf = []

        def flush():
            if not buf:
                return
            items = list(buf)
            buf.clear()
            if len(tot["violations"]) >= maxviol or flag[0]:
                return

            def work():
                if iso:
                    fresh_dir(self.scratch)
                res = []
                for s in items:
                    o = Outcome()
                    try:
                        run_one(run, s, o)
                    except HarnessError:
                        raise
                    res.append((o.violations, {h64(x) for x in o.states}, o.transitions, {h64(x) for x in o.distinct}, o.validated))
                    if o.violations:
                        break
                if iso:
                    drop_dir()
                return res

            done = 0
            try:
                res = in_fork(work, timeout=batch_timeout(batch))
            except ChildDied as e:
                # the code under test ended or hung the whole process: find the scenario
                for i, s in enumerate(items):
                    try:
                        in_fork(lambda: run_one(run, s, Outcome()).violations, timeout=30)
                    except ChildDied as e2:
                        tot["violations"].append((s, [], f"the process under test died or hung: {e2}"))
                        flag[0] = 1
                        return
                tot["violations"].append((items[-1], items[:-1], f"the process under test died or hung: {e}"))
                flag[0] = 1
                return
            except RuntimeError as e:
                tot["errors"].append(f"{e}"[:3000])
                flag[0] = 1
                return
            for s, (viol, st, tr, di, va) in zip(items, res):
                done += 1
                tot["n"] += 1
                tot["states"] |= st
                tot["distinct"] |= di
                tot["transitions"] += tr
                tot["validated"] += va
                if len(tot["samples"]) < 1 and not viol:
                    tot["samples"].append(s)
                for v in viol[:1]:
                    tot["violations"].append((s, items[: done - 1], v))
            if tot["violations"]:
                flag[0] = 1
                return

        for i, s in enumerate(scenarios()):
            if flag[0]:
                break
            if (i // batch) % NPROC != wid:
                continue
            buf.append(s)
            if len(buf) >= batch:
                flush()
        flush()
        return tot


def batch_timeout(batch):
    return 200


class HarnessError(Exception):
    pass


class Hang(BaseException):
    pass


def _alarm(*a):
    raise Hang()


def run_one(run, s, o):
    """An exception out of run() is an outcome that the check did not foresee: a violation,
    unless the sandbox itself is short of something."""
    try:
        out = run(s)
    except HarnessError:
        raise
    except OSError as e:
        if e.errno in (errno.ENOSPC, errno.ENOMEM, errno.EMFILE, errno.ENFILE, errno.EAGAIN):
            raise HarnessError(str(e))
        o.bad(f"unexpected {type(e).__name__}: {e}\n{traceback.format_exc()[-1500:]}")
        return o
    except ChildDied as e:
        o.bad(f"the process under test died or hung: {e}")
        return o
    except Exception as e:
        o.bad(f"unexpected {type(e).__name__}: {e}\n{traceback.format_exc()[-1500:]}")
        return o
    if out is not None and out is not o:
        o.violations += out.violations
        o.states |= out.states
        o.transitions += out.transitions
        o.distinct |= out.distinct
        o.validated += out.validated
    return o


def fresh_top(name):
    """A folder of the scratch space of the check that is removed when the check ends."""
    return Path(tempfile.mkdtemp(prefix=name, dir=SCRATCH[0]))


SCRATCH = [None]


# -- scratch directories of one fork -----------------------------------------------------
_dir = [None, 0]


def fresh_dir(base=None):
    base = base or (Path("/dev/shm") if os.access("/dev/shm", os.W_OK) else Path(tempfile.gettempdir()))
    _dir[0] = Path(tempfile.mkdtemp(prefix="f", dir=base))
    _dir[1] = 0
    return _dir[0]


def drop_dir():
    if _dir[0]:
        shutil.rmtree(_dir[0], ignore_errors=True)
        _dir[0] = None


def new_dir():
    """A new empty folder of the scratch space of this fork."""
    if _dir[0] is None:
        fresh_dir()
    while True:
        _dir[1] += 1
        d = _dir[0] / str(_dir[1])
        try:
            d.mkdir()
            return d
        except FileExistsError:
            # made by a fork
            continue


# --------------------------------------------------------------------------------------
# known findings


def known_findings(pid):
    res = []
    p = VERIF / "known-findings.txt"
    if p.exists():
        for line in p.read_text().splitlines():
            line = line.strip()
            if not line.startswith("{"):
                continue
            e = json.loads(line)
            if e.get("property") == pid and e.get("kind") == "known":
                res.append(e)
    return res


# --------------------------------------------------------------------------------------
# main


def drop_privileges():
    if os.geteuid() != 0:
        return
    try:
        os.setgroups([])
        os.setresgid(NOBODY, NOBODY, NOBODY)
        os.setresuid(NOBODY, NOBODY, NOBODY)
    except OSError:
        pass


def main(check, tier):
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    base = "/dev/shm" if os.path.isdir("/dev/shm") and os.access("/dev/shm", os.W_OK) else tempfile.gettempdir()
    scratch = Path(tempfile.mkdtemp(prefix=f"wgmc-{check.ID}-", dir=base))
    code = 2
    SCRATCH[0] = scratch
    try:
        os.chmod(scratch, 0o755)
        if os.geteuid() == 0:
            with contextlib.suppress(OSError):
                os.chown(scratch, NOBODY, NOBODY)
        load_sut()
        if hasattr(check, "prepare"):
            check.prepare(scratch)
        result = scratch / "result.pickle"
        pid = os.fork()
        if pid == 0:
            rc = 1
            try:
                drop_privileges()
                os.chdir(scratch)
                os.environ["TMPDIR"] = str(scratch)
                tempfile.tempdir = str(scratch)
                ctx = Ctx(check, tier, seed, scratch)
                check.explore(ctx)
                with open(result, "wb") as f:
                    keep = dict(ctx.__dict__)
                    keep.pop("check")
                    pickle.dump(keep, f)
                rc = 0
            except BaseException:
                traceback.print_exc()
            finally:
                sys.stderr.flush()
                os._exit(rc)
        _, status = os.waitpid(pid, 0)
        if status != 0 or not result.exists():
            print(f"check {check.ID}: the exploration ended with status {status}", file=sys.stderr)
            return 2
        with open(result, "rb") as f:
            r = pickle.load(f)
        code = report(check, tier, seed, r)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    return code


def report(check, tier, seed, r):
    viol = r["violations"]
    for e in known_findings(check.ID):
        if r["known"].get(e["id"]):
            print(f"KNOWN-FINDING: property={check.ID} {e['what']}")
    ev = {
        "property": check.ID,
        "tier": tier,
        "seed": seed,
        "level": getattr(check, "LEVEL", "model_checking"),
        "coverage": {
            "states": len(r["states"]),
            "transitions": r["transitions"],
            "traces_validated_against_impl": r["validated"],
            "evaluations": r["scenarios"],
            "distinct_nontrivial": len(r["distinct"]),
            "rule": getattr(check, "RULE", "one scenario per element of the enumeration; distinct by observed outcome"),
            "exhaustive": bool(r["exhaustive"] and not viol),
            "samples": r["samples"][:6],
            "bounds": r["bounds"],
            "parts": r["parts"],
            **r["extra"],
        },
        "assumptions": getattr(check, "ASSUMPTIONS", []),
        "wall_s": round(time.time() - r["t0"], 1),
        "violations": len(viol),
    }
    (VERIF / "evidence").mkdir(exist_ok=True)
    with open(VERIF / "evidence" / f"{check.ID}.json", "w") as f:
        json.dump(ev, f, indent=1, default=str)
    print(
        f"{check.ID} {tier}: scenarios={r['scenarios']} states={len(r['states'])} transitions={r['transitions']} "
        f"validated={r['validated']} outcomes={len(r['distinct'])} wall={ev['wall_s']}s parts={r['parts']}"
    )
    if viol:
        (VERIF / "replays").mkdir(exist_ok=True)
        for i, (scn, before, text) in enumerate(viol[:5]):
            p = VERIF / "replays" / f"{check.ID}-{i}.json"
            with open(p, "w") as f:
                json.dump({"property": check.ID, "scenario": scn, "preceding": before, "what": text, "errors": r["errors"]}, f, indent=1, default=str)
            print(f"  {text[:600]}")
            print(f"  scenario: {json.dumps(scn, default=str)[:600]}")
            print(f"VIOLATION property={check.ID} replay={p}")
        return 1
    if r["errors"]:
        for e in r["errors"][:5]:
            print(f"ERROR in check {check.ID}: {e}", file=sys.stderr)
        return 2
    return 0
