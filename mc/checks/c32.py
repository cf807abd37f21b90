"""C32: a query leaves the program that runs it as it found it.

What the program has and is set to (working folder, mask, variables, signal handlers, streams, limits, open files, threads,
children, files of its folders, memory) is read before and after every step of the enumeration.
"""
import ast
import atexit
import base64
import builtins
import collections
import copy
import datetime
import decimal
import faulthandler
import functools
import gc
import io
import itertools
import json
import locale
import logging
import math
import os
import pathlib
import random
import re
import resource
import shutil
import signal
import socket
import string
import sys
import tempfile
import threading
import time
import tracemalloc
import types
import uuid
import warnings

from mc import core, sut
from mc import history as H
from mc import bad as B
from mc.checks import c20, c23, c25, c28
from mc.core import Outcome, new_dir

ID = "C32"
SHIM = True
RULE = "every query of the list, and every other operation, on every content of the files, alone, after another one and many times over; the state is what the program has and is set to"
ASSUMPTIONS = ["what the program needs once (modules, caches that a repetition fills) is made by a first round of the same steps", "memory is counted in blocks of the allocator of Python, under repetition of the same query"]

BIG = "MAKE " + ", ".join(f"(a{i}:A{i} {{i: {i}, l: [1, 'x', 2.5]}})-[r{i}:R{i} {{f: 1.5}}]->(b{i}:B)" for i in range(30)) + ";"
EXTRA = {
    "big": BIG,
    "bigfind": BIG.replace("MAKE", "FIND") + " REPORT " + ", ".join(f"a{i}.i" for i in range(30)) + ";",
    "float": "MAKE (:A {f: 1." + "9" * 400 + ", g: " + "8" * 400 + ".5});",
    "digits": "MAKE (:A {i: " + "7" * 5000 + "});",
    "nested": "MAKE (:A {l: [" + "[" * 60 + "]" * 60 + "]});",
    "open": "MAKE (:A {t: 'x)-[:R]->(:B);",
    "illegal": "MAKE (:A {t: 'a & b'});",
    "lower": "MAKE (:A)-[:r]->(:B);",
    "undirected": "MAKE (:A)-[:R]-(:B);",
    "twice": "MAKE (:A {i: 1, i: 2});",
    "true": "MAKE (:A {b: True});",
    "makefind": "MAKE (:M)-[:N]->(:A); FIND (m:M)-[n:N]->(a:A); REPORT m, wn(n), a.i;",
    "makebadfind": "MAKE (:M); FIND (:A {b: True});",
    "report star": "FIND (a:A); REPORT *;",
    "tropre": "FIND (a:A); TROPER a;",
}
CONTENTS = ["new", "data", "no database", "no indexes", "no number", "bad database", "empty database", "bad indexes", "bad number", "other number", "no folder", "not readable"]
OPS = ["create", "create taken", "create odd", "delete", "delete missing", "list", "display", "paths", "paths missing", "select", "load", "wipe", "wipe not"]


def text(q):
    return EXTRA.get(q, c23.Q.get(q, q))


# -- what the program is set to ------------------------------------------------------------


def settings():
    mask = os.umask(0o77)
    os.umask(mask)
    s = {
        "the working folder": os.getcwd(),
        "the mask": oct(mask),
        "the environment": dict(os.environ),
        "the signal handlers": {i: repr(signal.getsignal(i)) for i in range(1, 65) if i not in (signal.SIGKILL, signal.SIGSTOP, 32, 33)},
        "the blocked signals": sorted(signal.pthread_sigmask(signal.SIG_BLOCK, [])),
        "the timers": [signal.getitimer(i)[1] for i in (signal.ITIMER_REAL, signal.ITIMER_VIRTUAL, signal.ITIMER_PROF)] + [signal.getitimer(signal.ITIMER_VIRTUAL)[0], signal.getitimer(signal.ITIMER_PROF)[0]],
        "the recursion limit": sys.getrecursionlimit(),
        "the switch interval": sys.getswitchinterval(),
        "the limit of digits": sys.get_int_max_str_digits(),
        "the locale": locale.setlocale(locale.LC_ALL),
        "the streams": [id(x) for x in (sys.stdin, sys.stdout, sys.stderr, sys.__stdout__, sys.__stderr__)],
        "the hooks": [sys.displayhook is sys.__displayhook__, sys.excepthook is sys.__excepthook__, sys.getprofile() is None, sys.gettrace() is None, threading.excepthook is threading.__excepthook__],
        "the collector": [gc.isenabled(), gc.get_threshold()],
        "the limits": {k: resource.getrlimit(getattr(resource, k)) for k in dir(resource) if k.startswith("RLIMIT_")},
        "the decimal context": repr(decimal.getcontext()),
        "the random numbers": hash(random.getstate()),
        "the time zone": [time.tzname, time.timezone],
        "the arguments": list(sys.argv),
        "the program's group": [os.getpgid(0), os.getsid(0), os.getuid(), os.getgid(), os.nice(0)],
        "the builtins": {k: id(v) for k, v in vars(builtins).items() if k != "_"},
        "asserts": __debug__,
        "what the log leaves out": [logging.root.manager.disable, logging.root.level, logging.raiseExceptions, logging.lastResort is not None],
        "the filters of warnings": [repr(x) for x in warnings.filters],
        "the sockets' timeout": socket.getdefaulttimeout(),
        "the threads": [threading.stack_size(), threading.current_thread().name],
        "the tracers": [tracemalloc.is_tracing(), faulthandler.is_enabled()],
        "the library": library(),
        "the folder for temporary files": None if tempfile.tempdir in (None, os.environ.get("TMPDIR")) else tempfile.tempdir,
    }
    return s


LIBRARY = [ast, base64, collections, copy, datetime, decimal, functools, io, itertools, json, json.decoder, json.encoder, locale, logging, math, os, os.path, pathlib, random, re, resource, shutil, signal, socket, string, sys, tempfile, threading, time, types, uuid, warnings]
CLASSES = [json.JSONEncoder, json.JSONDecoder, pathlib.Path, pathlib.PurePath, logging.Logger, logging.Handler, logging.Formatter, threading.Thread]
CHANGE = {"environ", "environb", "modules", "path_importer_cache", "last_exc", "last_type", "last_value", "last_traceback", "argv", "tempdir", "filters", "path", "stdout", "stdin", "stderr", "excepthook", "displayhook"}


def library():
    """Which functions, classes and values the modules of Python have."""
    res = {m.__name__: {k: id(v) if not isinstance(v, (int, str, float)) else v for k, v in vars(m).items() if k[0] != "_" and k not in CHANGE} for m in LIBRARY}
    for c in CLASSES:
        res[c.__name__] = {k: id(v) if not isinstance(v, (int, str, float)) else v for k, v in vars(c).items() if k[0] != "_" or k == "__init__"}
    for m in res:
        res[m] = hash(tuple(sorted((k, str(v)) for k, v in res[m].items())))
    return res


def logs():
    res = {"": (len(logging.getLogger().handlers), len(logging.getLogger().filters))}
    for k, v in list(logging.Logger.manager.loggerDict.items()):
        if isinstance(v, logging.Logger):
            res[k] = (len(v.handlers), len(v.filters))
    return res


FD = re.compile(r"(pipe|socket|anon_inode):.*")


def holds(folders):
    fds = []
    for n in sorted(os.listdir("/proc/self/fd"), key=int):
        try:
            t = os.readlink(f"/proc/self/fd/{n}")
        except OSError:
            continue
        if not re.fullmatch(r"/proc/\d+/fd", t):
            fds.append(FD.sub(r"\1", t))
    files = []
    for f in folders:
        for d, ds, fs in os.walk(f):
            files += [os.path.join(d, x) for x in fs + ds]
    with open("/proc/self/task/%d/children" % os.getpid()) as f:
        children = len(f.read().split())
    return {
        "open files": sorted(fds),
        "threads": len(threading.enumerate()) + len(os.listdir("/proc/self/task")),
        "children": children,
        "files": sorted(files),
        "functions for the end": atexit._ncallbacks(),
        "loggers": logs(),
        "the level of the log": logging.getLogger().level,
        "the search path": list(sys.path),
        "filters of warnings": len(warnings.filters),
        "importers": [len(sys.meta_path), len(sys.path_hooks)],
    }


def differs(a, b):
    for k in a:
        if a[k] != b[k]:
            x, y = a[k], b[k]
            if isinstance(x, dict) and isinstance(y, dict):
                x, y = {i: v for i, v in x.items() if y.get(i) != v or i not in y}, {i: v for i, v in y.items() if x.get(i) != v or i not in x}
            elif isinstance(x, list) and isinstance(y, list) and k in ("open files", "files"):
                more = list(y)
                for i in x:
                    if i in more:
                        more.remove(i)
                    else:
                        more.append(f"-{i}")
                return f"{k}: {str(more)[:300]} more"
            return f"{k} was {str(x)[:300]}, is {str(y)[:300]}"
    return None


# -- steps ---------------------------------------------------------------------------------


class Place:
    def __init__(self, content, many=False):
        self.top = new_dir()
        self.dbms = self.top / "dbms"
        self.home, self.tmp, self.cwd = (self.top / x for x in ("home", "tmp", "cwd"))
        for p in (self.home, self.tmp, self.cwd):
            p.mkdir()
        enter(self)
        self.s0 = settings()
        self.g = sut.create("p", self.dbms)
        sut.create("other", self.dbms)
        self.odd = content
        if content != "new":
            for q in ("r3", "i1", "several") if not many else [BIG]:
                sut.query(text(q), self.g)
        g = self.g
        d, i, n = g.database_file_path, g.indexes_file_path, g.wiggle_number_file_path
        match content:
            case "no database":
                d.unlink()
            case "no indexes":
                i.unlink()
            case "no number":
                n.unlink()
            case "bad database":
                d.write_text(d.read_text()[:-20])
            case "empty database":
                d.write_text("")
            case "bad indexes":
                i.write_text("[1,")
            case "bad number":
                n.write_text("x")
            case "other number":
                n.write_text("2")
            case "no folder":
                shutil.rmtree(d.parent)
            case "not readable":
                for p in (d, i, n):
                    p.chmod(0)
        self.keep = {}
        for p in (d, i, n):
            self.keep[p] = None if not p.exists() else (p.stat().st_mode & 0o777, b"" if content == "not readable" else p.read_bytes())
        self.folder = d.parent
        self.kept = set(self.list())

    def list(self):
        return [os.path.join(a, x) for a, b, c in os.walk(self.top) for x in b + c]

    def strange(self):
        """Files that were not there and belong to no database."""
        inside = [str(self.dbms / x) + os.sep for x in ("p", "other", "fresh", "a b.é")]
        return [x for x in self.list() if x not in self.kept and not (x + os.sep).startswith(tuple(inside))]

    def restore(self):
        """Only what belongs to databases is put back: what else appears stays."""
        if self.odd == "no folder":
            return
        if not os.path.isdir(self.folder):
            os.mkdir(self.folder)
        for p, v in self.keep.items():
            if v is None:
                p.unlink(missing_ok=True)
            else:
                if not p.exists() or v[0] != 0 and p.read_bytes() != v[1]:
                    p.write_bytes(v[1])
                p.chmod(v[0])
        for name in ("fresh", "a b.é"):
            shutil.rmtree(self.dbms / name, ignore_errors=True)

    def do(self, step):
        import io

        from pathlib import Path

        buf = io.StringIO()
        if step not in OPS:
            return repr(sut.query(text(step), self.g))
        from wiggle_query_language.graph.database import database as D
        from wiggle_query_language.graph.database.indexes import node_labels_index as NL
        from wiggle_query_language.graph.database.indexes import relationship_names_index as RN

        old, sys.stdout = sys.stdout, buf
        stdin = sys.stdin
        try:
            match step:
                case "create":
                    r = sut.S.get_new_gdbms_file_paths("fresh", self.dbms)
                case "create taken":
                    r = sut.S.get_new_gdbms_file_paths("other", self.dbms)
                case "create odd":
                    r = sut.S.get_new_gdbms_file_paths("a b.é", self.dbms)
                case "delete":
                    r = sut.S.delete_gdbms("p", self.dbms)
                case "delete missing":
                    r = sut.S.delete_gdbms("missing", self.dbms)
                case "list":
                    r = sut.S.list_existing_dbms(None, self.dbms)
                case "display":
                    r = sut.S.get_and_display_available_dbms(self.dbms)
                case "paths":
                    r = sut.S.get_existing_gdbms_file_paths("p", self.dbms)
                case "paths missing":
                    r = sut.S.get_existing_gdbms_file_paths("missing", self.dbms)
                case "select":
                    sys.stdin = io.StringIO("b\nB\nA\n")
                    r = sut.S.select_gdbms(self.dbms)
                case "load":
                    r = D.load_database(self.g.database_file_path), sorted(NL.load_node_labels_index(self.g.indexes_file_path)), sorted(RN.load_relationship_names_index(self.g.indexes_file_path))
                case "wipe":
                    r = D.wipe_database(self.g.database_file_path, True), NL.wipe_node_labels_index(self.g.indexes_file_path, True), RN.wipe_relationship_names_index(self.g.indexes_file_path, True)
                case "wipe not":
                    r = D.wipe_database(self.g.database_file_path), NL.wipe_node_labels_index(self.g.indexes_file_path)
            return repr((True, r, buf.getvalue()))
        except (Exception, SystemExit) as e:
            return repr((False, f"{type(e).__name__}: {e}"))
        finally:
            sys.stdout, sys.stdin = old, stdin


def enter(place):
    os.environ["HOME"], os.environ["TMPDIR"] = str(place.home), str(place.tmp)
    import tempfile

    tempfile.tempdir = None
    os.chdir(place.cwd)
    locale.setlocale(locale.LC_ALL, "C.UTF-8")
    gc.collect()


def child(scn):
    o = Outcome()
    p = Place(scn["content"], scn.get("many"))
    s0 = p.s0
    steps = scn["steps"]
    # what is needed once
    known = set(p.list())
    for n in range(2):
        for x in steps:
            p.do(x)
            known.update(p.list())
            p.restore()
            d = differs(s0, settings())
            if not d and p.strange():
                d = f"files: {p.strange()} more"
            if d:
                o.bad(f"content {scn['content']!r}, {x!r}: {d}")
                return o
        gc.collect()
        h0 = holds([])
    for n in range(scn.get("rounds", 1)):
        for k, x in enumerate(steps):
            r = p.do(x)
            p.restore()
            d = differs(s0, settings())
            if not d:
                d = differs(h0, holds([]))
                if d:
                    # what only waits for the collector is not held
                    gc.collect()
                    d = differs(h0, holds([]))
                more = set(p.list()) - known
                if not d and more:
                    d = f"files: {sorted(more)} more"
            o.transitions += 1
            o.distinct.add(r[:200].replace(str(p.top), ""))
            if d:
                o.bad(f"content {scn['content']!r}, round {n + 3} of {steps}, {x!r}: {d}")
                return o
            o.states.add(json.dumps([scn["content"], len(h0["open files"]), h0["threads"], len(h0["files"]), x]))
    if scn.get("grow"):
        grow(o, p, scn)
    return o


def blocks(p, x, n):
    # the rounds use the same objects of the checker
    for _ in range(n):
        p.do(x)
        p.restore()
    gc.collect()
    return sys.getallocatedblocks()


def grow(o, p, scn):
    """Blocks of memory under repetition of each step."""
    # pathlib interns every name for ever, which is not the program's doing
    pathlib.sys = types.SimpleNamespace(**{**vars(sys), "intern": str})
    N = scn["grow"]
    for x in scn["steps"]:
        blocks(p, x, 150)
        least = None
        for t in range(6):
            a = blocks(p, x, 1)
            b = blocks(p, x, N)
            o.transitions += N
            least = b - a if least is None else min(least, b - a)
            if b - a < N / 2:
                break
        else:
            o.bad(f"content {scn['content']!r}: {N} times {x!r} leave at least {least} blocks of memory each time")
            return
        h = holds([p.top])
        o.states.add(repr((x, "memory")))


def faulty(scn):
    """Every single file operation of a step fails, with every error."""
    o = Outcome()
    p = Place(scn["content"])
    x = scn["steps"][0]
    s0 = p.s0
    for n in range(2):
        p.do(x)
        p.restore()
    S = c20.area()
    S.arm(p.top)
    p.do(x)
    S.off()
    log = S.log()
    p.restore()
    gc.collect()
    h0 = holds([])
    for r in log:
        for f in c20.faults(r):
            S.arm(p.top, [f])
            res = p.do(x)
            S.off()
            p.restore()
            o.transitions += 1
            o.distinct.add(res[:120].replace(str(p.top), ""))
            d = differs(s0, settings()) or differs(h0, holds([]))
            if d:
                gc.collect()
                d = differs(s0, settings()) or differs(h0, holds([]))
            if d:
                o.bad(f"content {scn['content']!r}, {x!r}: after {f} of {r}: {d}")
                return o
        o.states.add(repr((x, r.op, h0["threads"])))
    return o


def texts(scn):
    """Many queries, most of them refused, each in its own way."""
    o = Outcome()
    p = Place(scn["content"])
    for n in range(2):
        for t in scn["texts"]:
            res = p.do(t)
            o.transitions += 1
            o.distinct.add(res[:60])
            d = differs(p.s0, settings())
            if d:
                o.bad(f"content {scn['content']!r}, {t!r}: {d}")
                return o
        p.restore()
        gc.collect()
        h = holds([p.top])
        if n:
            d = differs(h0, h)
            if d:
                o.bad(f"content {scn['content']!r}, after {scn['texts']}: {d}")
        h0 = h
    o.states.add(repr(scn["texts"]))
    return o


def stopped(scn):
    """A step is interrupted at every call."""
    o = Outcome()
    p = Place(scn["content"])
    x = scn["steps"][0]
    s0 = p.s0
    for n in range(2):
        p.do(x)
        p.restore()
    at = 0
    while True:
        ok, err, out, i = c28.interrupted(text(x), p.g, at, scn["kind"])
        if i.n <= at:
            break
        at += 1
        p.restore()
        o.transitions += 1
        o.distinct.add(repr(err)[:100])
        o.states.add(repr((x, i.place)))
        d = differs(s0, settings())
        if d:
            o.bad(f"content {scn['content']!r}, {x!r} interrupted in {i.place}: {d}")
            return o
    return o


def run(scn):
    return core.in_fork({"faulty": faulty, "texts": texts, "stopped": stopped}.get(scn.get("how"), child), scn, timeout=150)


def explore(ctx):
    q = ctx.quick
    queries = [*c23.Q, *EXTRA]

    def single():
        for c in CONTENTS:
            for x in [*queries, *OPS]:
                if c in ("new", "data") or x in SHORT or not q:
                    yield {"content": c, "steps": [x], "rounds": 2}

    ctx.run_all("single", single, batch=8, bounds=f"{len(queries)} queries and {len(OPS)} other operations on {len(CONTENTS)} contents of the files")

    def pairs():
        names = SHORT if q else [*queries, *OPS]
        for a, b in itertools.permutations(names, 2):
            yield {"content": "data", "steps": [a, b]}

    ctx.run_all("pairs", pairs, batch=8, bounds="every two of them, one after the other")

    def memory():
        for c in ("data",) if q else CONTENTS:
            for x in SHORT if q else [*queries, *OPS]:
                yield {"content": c, "steps": [x], "grow": 120 if q else 400}
        if q:
            for c in CONTENTS:
                for x in ("r3", "fr", "load"):
                    yield {"content": c, "steps": [x], "grow": 120}

    ctx.run_all("memory", memory, batch=1, bounds=f"{120 if q else 400} repetitions")

    def long():
        for x in SHORT:
            yield {"content": "data", "steps": [x], "rounds": 100 if q else 1500}

    ctx.run_all("long", long, batch=1, bounds="many rounds in one program")

    def refused():
        # a few of them at a time
        def all():
            for word in ("MAKE", "FIND"):
                for sh in B.SHAPES[:4] if q else B.SHAPES:
                    for kind, t, e, says in c25.faults(sh, word == "FIND"):
                        yield f"{word} {t};"
                        yield f"MAKE (:A); {word} (:A), {t};"
            for n in (0, 1, 2) if q else (0, 1, 2, 3):
                for f in c25.FRAMES if n < 3 else c25.FRAMES[::3]:
                    for t in itertools.product(c25.TOK if n < 2 or not q else c25.TOK[::2], repeat=n):
                        yield f % "".join(t)
            for f in c25.FRAMES:
                for x in VALUES:
                    yield f % x
                    yield f % f"x: {x}"

        it = all()
        while part := list(itertools.islice(it, 40)):
            yield {"how": "texts", "content": "data", "texts": part}

    ctx.run_all("refused", refused, batch=4, bounds="every mistake in a MAKE or FIND of every shape, and all sequences of up to 2 tokens and all odd values in every place")

    def disturbed():
        for c in ("data", "new") if q else CONTENTS:
            for x in SHORT if q else [*queries, *OPS]:
                yield {"how": "faulty", "content": c, "steps": [x]}
                if x not in OPS and len(text(x)) < 200:
                    for k in ("KeyboardInterrupt", "MemoryError", "SystemExit") if not q else ("KeyboardInterrupt",):
                        yield {"how": "stopped", "content": c, "steps": [x], "kind": k}

    ctx.run_all("disturbed", disturbed, batch=2, bounds="every file operation fails with every error; an interrupt at every call")


VALUES = ["[1, 1e999]", "[-1e999]", "[()]", "[{}]", "[[1]]", "[1, [2, 'x']]", "[b'x']", "[u'x']", "['a' 'b']", "[01]", "[1_0]", "1_0", "[1+2]", "[1j]", "[-x]", "[None]", "[True]", "[nul]", "1e5", "1e999", "1.5e999", "0x10", "1.2.3", ".5", "5.", "-", "+1", "- 1", "nan", "inf", "[nan]", "'", "''", '"', "'a\"", "[", "]", "[,]", "[1,]", "{}", "{i: 1}", "[1, 2", "true1", "True", "None", "NULL", "null", "9" * 400 + ".5", "9" * 5000, "[" + "9" * 5000 + "]", "[" * 200 + "]" * 200, "١", "[" + "'x', " * 500 + "1]"]
SHORT = ["i1", "r3", "several", "badprop", "badsecond", "kame", "fa", "fn", "fr", "frep2", "fbad", "both", "makefind", "makebadfind", "illegal", "digits", "big", "create", "create taken", "delete", "select", "load", "wipe", "paths missing"]
