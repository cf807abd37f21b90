"""Controlled interleaving of the file operations of several processes (mc/shim.c, mode 2), and the
enumeration of all schedules up to a number of preemptions."""
import os
import pickle
import select
import signal
import struct
import time
import traceback

from mc import core, shim

LIMIT_SLEEPS = 400
LIMIT_STEPS = 20000


class Proc:
    def __init__(self, i, fn, folder, area):
        self.i, self.area = i, area
        a_r, a_w = os.pipe()  # process -> scheduler
        b_r, b_w = os.pipe()  # scheduler -> process
        c_r, c_w = os.pipe()  # result
        pid = os.fork()
        if pid == 0:
            code = 1
            try:
                os.close(a_r), os.close(b_w), os.close(c_r)
                signal.alarm(60)
                area.prefix(folder)
                struct.pack_into("<4i", area.mm, 0, 0, 0, 0, 0)
                struct.pack_into("<2i", area.mm, 148, b_r, a_w)
                area.use()
                struct.pack_into("<i", area.mm, 0, 2)
                try:
                    res = (True, fn())
                except BaseException as e:  # noqa
                    res = (False, f"{type(e).__name__}: {e}\n{traceback.format_exc()}")
                struct.pack_into("<i", area.mm, 0, 0)
                shim._lib.wgmc_use(None)
                os.write(c_w, pickle.dumps(res))
                code = 0
            finally:
                os._exit(code)
        os.close(a_w), os.close(b_r), os.close(c_w)
        self.pid, self.r, self.w, self.c = pid, a_r, b_w, c_r
        self.buf = b""
        self.state = "run"  # run, ready, blocked, sleeping, done, killed
        self.op = None
        self.locked = set()
        self.result = None
        self.sleeps = 0
        self.synced = False  # its last operation took or gave back a lock

    def _read(self, n):
        while len(self.buf) < n:
            rl, _, _ = select.select([self.r], [], [], 30)
            if not rl:
                raise Stuck(f"process {self.i} neither asks nor ends")
            b = os.read(self.r, 65536)
            if not b:
                return None
            self.buf += b
        res, self.buf = self.buf[:n], self.buf[n:]
        return res

    def listen(self):
        """The next operation that the process asks for, or its end."""
        h = self._read(16)
        if h is None:
            data = b""
            while True:
                b = os.read(self.c, 65536)
                if not b:
                    break
                data += b
            self.result = pickle.loads(data) if data else (False, "the process died")
            os.waitpid(self.pid, 0)
            self.state = "done"
            self.op = None
            return
        op, arg, l1, l2 = struct.unpack("<4i", h)
        p = self._read(l1).decode(errors="surrogateescape")
        q = self._read(l2).decode(errors="surrogateescape") if l2 else ""
        self.op = (op, arg, p, q)
        self.state = {shim.BLOCKED: "blocked", shim.SLEEP: "sleeping"}.get(op, "ready")

    def grant(self):
        op = self.op
        os.write(self.w, b"g")
        self.state = "run"
        return op

    def kill(self):
        os.write(self.w, b"k")
        os.waitpid(self.pid, 0)
        self.state = "killed"
        self.op = None

    def drop(self):
        for fd in (self.r, self.w, self.c):
            try:
                os.close(fd)
            except OSError:
                pass
        if self.state not in ("done", "killed"):
            try:
                os.kill(self.pid, signal.SIGKILL)
                os.waitpid(self.pid, 0)
            except (ProcessLookupError, ChildProcessError):
                pass


class Stuck(Exception):
    pass


def visible(p):
    """Whether the scheduler may switch at the operation that the process asks for."""
    op, arg, path, _ = p.op
    if op == shim.SYNC:
        return False
    if op == shim.CLOSE:
        return path in p.locked
    return True


_areas = []


def execute(fns, folder, choose):
    """Runs the functions as processes. choose(enabled, current, kills) -> index (or ("kill", i)).

    Returns (results, why) with why None, or the reason for which not all ended.
    """
    while len(_areas) < len(fns):
        _areas.append(shim.Shim(1 << 14))
    ps = [Proc(i, fn, folder, _areas[i]) for i, fn in enumerate(fns)]
    why = None
    try:
        for p in ps:
            p.listen()
            settle(p, ps)
        current = None
        steps = 0
        while True:
            ready = [p.i for p in ps if p.state == "ready"]
            sleeping = [p.i for p in ps if p.state == "sleeping"]
            if not ready:
                if sleeping:
                    for i in sleeping:
                        step(ps[i], ps)
                        ps[i].sleeps += 1
                    if any(ps[i].sleeps > LIMIT_SLEEPS for i in sleeping):
                        why = f"waits forever: processes {sleeping} sleep again and again"
                        break
                    continue
                if any(p.state == "blocked" for p in ps):
                    why = f"blocked forever: {[(p.i, p.state, p.op and os.path.basename(p.op[2])) for p in ps]}"
                break
            c = choose(ready, current if current in ready else None, ps)
            if isinstance(c, tuple):
                ps[c[1]].kill()
                for p in ps:
                    if p.state == "blocked":
                        p.state = "ready"
                continue
            current = c
            step(ps[c], ps)
            for p in ps:
                if p.state == "sleeping" and p.i != c:
                    # it wakes when another process has made a step
                    p.sleeps += 1
                    if p.sleeps <= LIMIT_SLEEPS:
                        p.state = "ready"
            steps += 1
            if steps > LIMIT_STEPS:
                why = "does not end"
                break
        return [p.result for p in ps], why
    except Stuck as e:
        return [p.result for p in ps], str(e)
    finally:
        for p in ps:
            p.drop()


def step(p, ps):
    """Lets the process carry out its operation, and the invisible ones after it."""
    p.synced = False
    advance(p, ps)
    settle(p, ps)


def settle(p, ps):
    while p.state == "ready" and not visible(p):
        advance(p, ps)


def advance(p, ps):
    op, arg, path, q = p.grant()
    if op in (shim.LOCK, shim.UNLOCK) or (op == shim.CLOSE and path in p.locked):
        p.synced = True
    if op == shim.LOCK:
        p.locked.add(path)
    p.listen()
    if op in (shim.CLOSE, shim.UNLOCK) or p.state == "done":
        for x in ps:
            if x.state == "blocked" and (p.state == "done" or x.op[2] == path):
                x.state = "ready"


class Schedule:
    """Follows a prefix of choices and goes on without preemption; remembers the alternatives.

    Up to sync switches just after a process has taken or given back a lock do not count as preemptions."""

    def __init__(self, prefix, sync=0):
        self.prefix = prefix
        self.sync = sync
        self.trace = []  # (ready, current, chosen, preemptions before)
        self.cheap = []  # whether a switch there does not count
        self.ops = []
        self.pre = 0
        self.syncs = 0

    def __call__(self, ready, current, ps):
        k = len(self.trace)
        cheap = current is not None and self.syncs < self.sync and ps[current].synced
        self.cheap.append(cheap)
        if k < len(self.prefix):
            c = self.prefix[k]
            if isinstance(c, (list, tuple)):
                self.trace.append((ready, current, tuple(c), self.pre))
                self.ops.append(None)
                return tuple(c)
            if c not in ready:
                raise core.HarnessError(f"the schedule {self.prefix} cannot be followed: {ready} at {k}")
        else:
            c = current if current is not None else ready[0]
        self.trace.append((ready, current, c, self.pre))
        self.ops.append(ps[c].op)
        if current is not None and c != current:
            if cheap:
                self.syncs += 1
            else:
                self.pre += 1
        return c

    def alternatives(self, bound):
        """The prefixes that differ first at a position behind this prefix."""
        for k in range(len(self.prefix), len(self.trace)):
            ready, current, chosen, pre = self.trace[k]
            if isinstance(chosen, tuple):
                continue
            for a in ready:
                if a == chosen:
                    continue
                cost = 1 if current is not None and a != current and not self.cheap[k] else 0
                if pre + cost <= bound:
                    yield [t[2] for t in self.trace[:k]] + [a]

    def free(self, k):
        """Whether another choice at position k costs no preemption, nor did those before."""
        return (self.trace[k][1] is None or self.cheap[k]) and self.trace[k][3] == 0

    def kills(self):
        """The prefixes that kill a process at a position behind this prefix, before an operation that
        changes something (before any other the outcome is that of the kill before the next such)."""
        for k in range(len(self.prefix), len(self.trace)):
            ready, current, chosen, pre = self.trace[k]
            if isinstance(chosen, tuple):
                break
            op, arg = self.ops[k][:2]
            if op in (shim.READ, shim.STAT, shim.LIST) or (op == shim.OPEN and not arg & (os.O_CREAT | os.O_TRUNC)):
                continue
            yield [t[2] for t in self.trace[:k]] + [("kill", chosen)]
