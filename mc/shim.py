"""Python side of mc/shim.c: loading, plans, logs, and a model of the disk that replays a log."""
import ctypes
import mmap
import os
import shutil
import signal
import struct
import subprocess
import sys
import tempfile
from pathlib import Path

HERE = Path(__file__).resolve().parent
(OPEN, CLOSE, READ, WRITE, TRUNC, FTRUNC, SYNC, RENAME, UNLINK, RMDIR, MKDIR, LOCK, UNLOCK, STAT, LINK, SYMLINK, LIST, SLEEP, COPY, SEEK, CHMOD, BLOCKED, DONE) = range(1, 24)
NAMES = "? OPEN CLOSE READ WRITE TRUNC FTRUNC SYNC RENAME UNLINK RMDIR MKDIR LOCK UNLOCK STAT LINK SYMLINK LIST SLEEP COPY SEEK CHMOD BLOCKED DONE".split()
PASS, FAIL, SHORT, KILL, TORN = range(5)
SIZE = 4 << 20
HEAD = 720
_lib = None


def ensure_loaded():
    """Restarts this process with the interposer, once."""
    global _lib
    try:
        if ctypes.CDLL(None).wgmc_present() == 4242:
            _lib = ctypes.CDLL(None)
            _lib.wgmc_use.argtypes = [ctypes.c_void_p]
            so = os.environ.pop("WGMC_SO", None)
            os.environ.pop("LD_PRELOAD", None)
            if so:
                shutil.rmtree(os.path.dirname(so), ignore_errors=True)
            return
    except AttributeError:
        pass
    if os.environ.get("WGMC_SO"):
        raise SystemExit("the interposer could not be loaded")
    base = "/dev/shm" if os.path.isdir("/dev/shm") and os.access("/dev/shm", os.W_OK | os.X_OK) else tempfile.gettempdir()
    last = None
    for base in (tempfile.gettempdir(), base):
        d = tempfile.mkdtemp(prefix="wgmc-so-", dir=base)
        so = os.path.join(d, "wgmc.so")
        for cc in ("gcc", "clang", "cc"):
            try:
                subprocess.run([cc, "-shared", "-fPIC", "-O1", "-w", "-o", so, str(HERE / "shim.c"), "-ldl"], check=True)
                break
            except (OSError, subprocess.CalledProcessError) as e:
                last = e
        else:
            shutil.rmtree(d, ignore_errors=True)
            raise SystemExit(f"no compiler: {last}")
        env = dict(os.environ, LD_PRELOAD=so, WGMC_SO=so)
        p = subprocess.run([sys.executable, "-c", "import ctypes; print(ctypes.CDLL(None).wgmc_present())"], env=env, capture_output=True, text=True)
        if p.stdout.strip() != "4242":
            shutil.rmtree(d, ignore_errors=True)
            continue
        os.execve(sys.executable, [sys.executable] + sys.orig_argv[1:], env)
    raise SystemExit("the interposer could not be loaded")


class Shim:
    """The area shared with the interposer of a process and of its forks."""

    def __init__(self, size=SIZE):
        self.mm = mmap.mmap(-1, size)
        self.size = size
        self.addr = ctypes.addressof(ctypes.c_char.from_buffer(self.mm))
        struct.pack_into("<qq", self.mm, 176, 0, size - HEAD)

    def use(self):
        _lib.wgmc_use(self.addr)

    def prefix(self, folder):
        p = str(folder).encode()
        self.mm[208 : 208 + len(p) + 1] = p + b"\0"

    def arm(self, folder, plan=(), mode=1):
        """plan: [(number of the operation, action, argument, persistent class)]"""
        self.prefix(folder)
        struct.pack_into("<4i", self.mm, 0, 0, 0, len(plan), 0)
        for i, (at, action, arg, persist) in enumerate(plan):
            struct.pack_into("<4i", self.mm, 16 + 16 * i, at, action, arg, persist)
        struct.pack_into("<i", self.mm, 156, 0)
        struct.pack_into("<q", self.mm, 176, 0)
        self.use()
        struct.pack_into("<i", self.mm, 0, mode)

    def off(self):
        struct.pack_into("<i", self.mm, 0, 0)

    @property
    def hits(self):
        return struct.unpack_from("<i", self.mm, 156)[0]

    @property
    def nops(self):
        return struct.unpack_from("<i", self.mm, 4)[0]

    def clock(self, ns, step, limit=0):
        struct.pack_into("<qq", self.mm, 160, ns, step)
        struct.pack_into("<qq", self.mm, 192, 0, limit)
        struct.pack_into("<i", self.mm, 144, 1)
        self.use()

    def clock_now(self):
        return struct.unpack_from("<q", self.mm, 160)[0]

    def clock_set(self, ns):
        struct.pack_into("<q", self.mm, 160, ns)

    def clock_calls(self):
        return struct.unpack_from("<q", self.mm, 192)[0]

    def clock_off(self):
        struct.pack_into("<i", self.mm, 144, 0)

    def log(self):
        if struct.unpack_from("<i", self.mm, 12)[0]:
            raise RuntimeError("the log of the interposer is full")
        n = struct.unpack_from("<q", self.mm, 176)[0]
        res = []
        o, end = HEAD, HEAD + n
        while o < end:
            op, no, fd, err, arg, ret, l1, l2, l3, _ = struct.unpack_from("<4i2q4i", self.mm, o)
            o += 48
            p1 = self.mm[o : o + l1].decode(errors="surrogateescape")
            o += l1
            p2 = self.mm[o : o + l2].decode(errors="surrogateescape")
            o += l2
            data = bytes(self.mm[o : o + l3])
            o += l3
            res.append(Rec(op, no, fd, err, arg, ret, p1, p2, data))
        return res


class Rec:
    __slots__ = ("op", "no", "fd", "err", "arg", "ret", "p1", "p2", "data")

    def __init__(self, *a):
        for k, v in zip(self.__slots__, a):
            setattr(self, k, v)

    def __repr__(self):
        return f"{self.no}:{NAMES[self.op]} {os.path.basename(self.p1)}{' -> ' + os.path.basename(self.p2) if self.p2 else ''} fd={self.fd} arg={self.arg} ret={self.ret} err={self.err}"

    def changes(self):
        """Whether the operation changed the disk."""
        if self.err:
            return False
        if self.op == OPEN:
            return bool(self.arg & (os.O_CREAT | os.O_TRUNC))
        return self.op in (WRITE, TRUNC, FTRUNC, RENAME, UNLINK, RMDIR, MKDIR, LINK, SYMLINK)


def in_child(fn, timeout=60):
    """Runs fn in a fork; returns (status, result): status 0, or minus the signal that ended it."""
    import pickle
    import traceback

    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            os.close(r)
            signal.alarm(timeout)
            try:
                res = (True, fn())
            except BaseException as e:  # noqa
                res = (False, f"{type(e).__name__}: {e}\n{traceback.format_exc()}")
            if _lib is not None:
                _lib.wgmc_use(None)
            os.write(w, pickle.dumps(res))
            code = 0
        finally:
            os._exit(code)
    os.close(w)
    data = b""
    while True:
        b = os.read(r, 1 << 16)
        if not b:
            break
        data += b
    os.close(r)
    _, status = os.waitpid(pid, 0)
    if not data:
        return (-(status & 127) or status >> 8), None
    ok, res = pickle.loads(data)
    if not ok:
        raise RuntimeError(res)
    return 0, res


# --------------------------------------------------------------------------------------
# the model of the disk


class Inode:
    __slots__ = ("versions", "synced", "isdir")

    def __init__(self, isdir=False, content=b""):
        self.versions = [content]  # contents that can be on the disk after a power loss, oldest first
        self.synced = 0  # index of the oldest one that is still possible
        self.isdir = isdir

    def now(self):
        return self.versions[-1]


class Disk:
    """Applies a log to the files of a folder. Every state keeps the whole history of names:
    metadata operations reach the disk in order (journal), at the latest with the next fsync of a
    folder; the data of a file reaches it at the latest with an fsync of that file."""

    def __init__(self, root):
        self.root = str(root)
        self.names = {}  # path relative to the root -> Inode
        self.history = []  # namespaces after each metadata operation
        self.safe = 0  # index of the oldest namespace that is still possible
        self.fds = {}

    def rel(self, p):
        return os.path.relpath(p, self.root)

    @classmethod
    def of(cls, root):
        d = cls(root)
        for dp, dn, fn in os.walk(root):
            if dp != str(root):
                d.names[d.rel(dp)] = Inode(True)
            for f in fn:
                p = os.path.join(dp, f)
                with open(p, "rb") as h:
                    d.names[d.rel(p)] = Inode(False, h.read())
        d.history = [dict(d.names)]
        d.safe = 0
        return d

    def _meta(self):
        self.history.append(dict(self.names))

    def apply(self, r):
        if r.err:
            return
        p = self.rel(r.p1)
        if r.op == OPEN:
            ino = self.names.get(p)
            if ino is None and r.arg & os.O_CREAT:
                ino = self.names[p] = Inode()
                self._meta()
            elif ino is not None and r.arg & os.O_TRUNC and ino.now():
                ino.versions.append(b"")
            self.fds[r.fd] = ino
        elif r.op == CLOSE:
            self.fds.pop(r.fd, None)
        elif r.op == WRITE:
            ino = self.fds.get(r.fd)
            if ino is not None and r.data:
                old = ino.now()
                off = len(old) if r.arg < 0 else r.arg
                old = old.ljust(off, b"\0")
                half = r.data[: len(r.data) // 2]
                torn = old[:off] + half + old[off + len(half) :]
                if torn != old:
                    ino.versions.append(torn)
                ino.versions.append(old[:off] + r.data + old[off + len(r.data) :])
        elif r.op in (FTRUNC, TRUNC):
            ino = self.fds.get(r.fd) if r.op == FTRUNC else self.names.get(p)
            if ino is not None:
                ino.versions.append(ino.now()[: r.arg].ljust(r.arg, b"\0"))
        elif r.op == SYNC:
            if r.arg == 2:
                for ino in self.names.values():
                    ino.synced = len(ino.versions) - 1
                self.safe = len(self.history) - 1
                return
            ino = self.fds.get(r.fd)
            if ino is None or ino.isdir:
                self.safe = len(self.history) - 1
            else:
                ino.synced = len(ino.versions) - 1
        elif r.op == RENAME:
            q = self.rel(r.p2)
            for k in [k for k in self.names if k == p or k.startswith(p + "/")]:
                self.names[q + k[len(p) :]] = self.names.pop(k)
            self._meta()
        elif r.op in (UNLINK, RMDIR):
            self.names.pop(p, None)
            self._meta()
        elif r.op == MKDIR:
            self.names[p] = Inode(True)
            self._meta()
        elif r.op == LINK:
            self.names[self.rel(r.p2)] = self.names[p]
            self._meta()

    def current(self):
        """What a process sees: {path: content or None for a folder}"""
        return {k: (None if i.isdir else i.now()) for k, i in self.names.items()}

    def losses(self, cap=256):
        """Every disk that a power loss can leave now (distinct): the namespaces since the last
        fsync of a folder, and each file with any of its contents since its last fsync."""
        import itertools

        seen = set()
        for ns in self.history[self.safe :]:
            files = [(k, i) for k, i in sorted(ns.items()) if not i.isdir]
            dirs = {k: None for k, i in ns.items() if i.isdir}
            choice = [list(dict.fromkeys(i.versions[i.synced :])) for k, i in files]
            total = 1
            for c in choice:
                total *= len(c)
            if total <= cap:
                combos = itertools.product(*choice)
            else:
                combos = []
                for ext in (0, -1):
                    base = [c[ext] for c in choice]
                    for x in range(len(choice)):
                        for v in choice[x]:
                            combos.append(tuple(base[:x] + [v] + base[x + 1 :]))
            for combo in combos:
                d = dict(dirs)
                d.update({k: v for (k, i), v in zip(files, combo)})
                key = tuple(sorted(d.items(), key=lambda t: t[0]))
                if key not in seen:
                    seen.add(key)
                    yield d


def write_tree(tree, folder):
    for k in sorted(tree):
        p = os.path.join(folder, k)
        if tree[k] is None:
            os.makedirs(p, exist_ok=True)
        else:
            os.makedirs(os.path.dirname(p), exist_ok=True)
            with open(p, "wb") as f:
                f.write(tree[k])


def read_tree(folder):
    res = {}
    for dp, dn, fn in os.walk(folder):
        for x in dn:
            res[os.path.relpath(os.path.join(dp, x), folder)] = None
        for x in fn:
            with open(os.path.join(dp, x), "rb") as h:
                res[os.path.relpath(os.path.join(dp, x), folder)] = h.read()
    return res
