"""C17: the shell runs every line once and survives every error."""
import atexit
import itertools
import json
import os
import shutil
import subprocess
import sys

from mc import core
from mc import sut
from mc.core import Outcome, new_dir

ID = "C17"
RULE = "every session of the enumeration is run in the real shell (of a copy of the repository, because the shell works in the folder of the repository) and compared with running its lines directly"
ASSUMPTIONS = ["the answers to input() are given by a stand-in; everything else is the real shell"]

_server = [None, None]


def server():
    """One shell server for this worker process and its forks, started on first use."""
    if _server[0] is None or _server[0].poll() is not None:
        top = core.fresh_top("shell")
        copy = top / "repo"
        shutil.copytree(core.REPO, copy, ignore=shutil.ignore_patterns(".git", "__pycache__", ".pytest_cache", "dbms"), symlinks=True)
        env = dict(os.environ)
        p = subprocess.Popen([sys.executable, str(core.VERIF / "mc" / "shellserver.py"), str(copy)], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, env=env)
        if p.stdout.readline().strip() != "ready":
            raise RuntimeError("the shell cannot be imported")
        _server[:] = [p, copy]
    return _server


def start(lines, clean, inject=None):
    p, copy = server()
    p.stdin.write(json.dumps({"lines": lines, "clean": clean, "inject": inject}) + "\n")
    p.stdin.flush()
    res = json.loads(p.stdout.readline())
    chunks = res["out"].split("\0")
    # chunks: text, "1", text, "2", text ...: what was printed before input 1, after input 1, ...
    res["chunks"] = [chunks[0]] + chunks[2::2]
    return res, copy / "dbms"


LINES = {
    "n": "MAKE (:A);",
    "r": "MAKE (a:A {i: 1})-[r:R]->(b:B {s: 'x y'});",
    "m": "make (:C)<-[:S]-(:A); MAKE (:D);",
    "bad": "MAKE (:A)-[:R]-(:B);",
    "badprop": "MAKE (:A); MAKE (:B {i: });",
    "kame": "KAME (:A);",
    "junk": "hello",
    "nothing": "",
    "find": "FIND (:A);",
    "findr": "FIND (a:A)-[r:R]->(:B); REPORT a;",
    "none": "FIND (:Nope);",
    "both": "MAKE (:E); FIND (:E)-[:S]->(:A);",
    "help": "help",
    "Help": "HELP",
    "spacehelp": "  help ",
    "withhelp": "MAKE (:Help {help: 'help'});",
    "helpfind": "FIND (:help);",
    "withq": "MAKE (q:Q {q: 'q'});",
    "Q": "Q",
    "qsemi": "q;",
}
# lines that are not in the products
ODD = {
    "qq": "qq",
    "quit": "quit",
    "exit": "exit",
    "qmake": "q MAKE (:A);",
    "makeq": "MAKE (:A);q",
    "spaces": "   MAKE (:A {i: 5});   ",
    "tabs": "\tMAKE\t(:A);",
    "blank": "   ",
    "tab": "\t",
    "lines": "MAKE (:A);\nMAKE (:A)-[:R]->(:B);\nFIND (:A);",
    "percent": "MAKE (:A {s: '%s %d'});",
    "braces": "MAKE (:A {s: '{0} {}'});",
    "backslash": "MAKE (:A {s: 'a\\nb'});",
    "accents": "MAKE (:A {s: 'é ü ☃'});",
    "badaccents": "MÂKE (:A);",
    "badpercent": "MAKE (:%s);",
    "badbraces": "MAKE {0} {};",
    "helphelp": "help help",
    "helpsemi": "help;",
    "helpme": "help me",
    "wide": "MAKE " + ", ".join(f"(:A {{i: {i}}})" for i in range(300)) + ";",
    "text": "MAKE (:A {s: '" + "x" * 20000 + "'});",
    "badlong": "MAKE " + ", ".join(f"(:A {{i: {i}}})" for i in range(300)) + ", (:A;",
    "two": "MAKE (:A); FIND (:A); FIND (:B);",
    "report": "REPORT a;",
    "number": "1",
    "y": "y",
    "A": "A",
    "n_": "n",
    "None": "None",
    "wipe": "wipe",
    "path": "../x",
}
HELP = {"help", "Help", "spacehelp"}
STARTS = {
    "new": ["n", "db"],
    "no": ["no", "db"],
    "anything": ["x", "db"],
    "taken": ["n", "db0", "db"],
    "y": ["y", "A"],
    "yes": ["yes", "A"],
    "ywrong": ["y", "Z", "", "A"],
    "yB": ["y", "B"],
}
# the errors of shellserver.py
ERRORS = ["empty", "lines", "newline", "denied", "memory", "assert", "recursion", "key", "object", "none", "format", "surrogate", "accents", "stop", "timeout", "missing", "json", "attribute", "index"]
LINES_ALL = {**LINES, **ODD}
PRE = [["n", "db0"], "MAKE (:P)-[:O]->(:P);", "q"]


def content(folder):
    res = {}
    if folder.exists():
        for d in sorted(folder.iterdir()):
            if d.is_dir():
                g = sut.GDBMSFilePath(database_file_path=d / f"database_{d.name}.json", indexes_file_path=d / f"indexes_{d.name}.json", wiggle_number_file_path=d / f"wiggle_number_{d.name}.txt")
                res[d.name] = sut.Db(g).key()
    return res


def run(scn):
    o = Outcome()
    direct_folder = new_dir()
    direct = {}
    first = True
    for part in scn["sessions"]:
        names = part["lines"]
        names = [x for x in names for _ in range(part.get("times", 1))]
        lines = [LINES_ALL[x] for x in names]
        tail = ["q", "MAKE (:AfterQ);", "q"]
        answers = STARTS[part["start"]]
        # errors that strike while the lines at these positions are worked on
        hit = {str(len(answers) + 1 + k): e for k, e in part.get("hit", {}).items() for k in [int(k)]}
        res, folder = start([*answers, *lines, *tail], first, hit)
        first = False
        o.transitions += len(lines) + 1
        o.validated += 1
        where = f"session {answers} {names}"
        # which database it must use
        if answers[0] in ("y", "yes") and direct:
            existing = sorted(direct)
            letter = next(a for a in answers[1:] if a and ord(a) - 65 < len(existing))
            target = existing[ord(letter) - 65]
            asked = 1 + answers[1:].index(letter) + 1
        elif answers[0] in ("y", "yes"):
            # no databases: the first answer is the name of a new one
            target = answers[1]
            asked = 2
        else:
            target = next(a for a in answers[1:] if a not in direct)
            asked = 1 + answers[1:].index(target) + 1
        if target not in direct:
            direct[target] = sut.create(target, direct_folder)
        if res["end"] != "returned":
            o.bad(f"{where}: the shell ended with {res['end']}")
            return o
        rest = [*answers, *lines, *tail][asked:]
        k = asked
        for line in rest:
            k += 1
            shown = res["chunks"][k] if k < len(res["chunks"]) else None
            if shown is None:
                o.bad(f"{where}: ended before line {line!r}")
                return o
            if line == "q":
                break
            helped = "helpful guide" in shown.lower()
            is_help = line.strip().lower() == "help"
            if helped != is_help:
                o.bad(f"{where}: line {line!r} printed {shown!r}")
            if is_help:
                o.distinct.add("help")
                continue
            if k in res["fired"]:
                # an error struck it
                o.distinct.add(("struck", hit[str(k)], line))
                continue
            ok, err, out = sut.query(line, direct[target])
            o.distinct.add((line, ok, sut.no_results(out)))
            if not ok:
                msg = err.split(": ", 1)[1].strip()
                if msg not in shown.replace(line, "", 1) and msg not in shown:
                    o.bad(f"{where}: the error of line {line!r} is {msg!r}, but it printed {shown!r}")
                if not msg:
                    o.bad(f"{where}: the error of line {line!r} has no text")
            if sut.no_results(shown) != sut.no_results(out):
                o.bad(f"{where}: line {line!r} printed {shown!r}, directly {out!r}")
        if res["asked"] != k:
            o.bad(f"{where}: asked {res['asked']} times, but q was answer {k}")
        try:
            got = content(folder)
        except (sut.Corrupt, OSError) as e:
            o.bad(f"{where}: {e}")
            return o
        want = content(direct_folder)
        o.states.add(repr(sorted(want.items())))
        if got != want:
            o.bad(f"{where}: the databases hold {got}, running the lines directly gives {want}")
        if o.violations:
            return o
    return o


def explore(ctx):
    q = ctx.quick
    all_lines = list(LINES)

    def two():
        for n in (0, 1, 2):
            for t in itertools.product(all_lines, repeat=n):
                yield {"sessions": [{"start": "new", "lines": list(t)}]}

    ctx.run_all("lines", two, batch=20, bounds=f"all sessions of up to 2 of {len(all_lines)} lines")
    small = ["r", "m", "badprop", "none", "findr", "help", "kame"]

    def longer():
        for t in itertools.product(small, repeat=3 if q else 5):
            yield {"sessions": [{"start": "new", "lines": list(t)}]}

    ctx.run_all("longer", longer, batch=20, bounds=f"all sessions of {3 if q else 5} of {len(small)} lines")

    def starts():
        for s in STARTS:
            for t in itertools.product(["r", "bad", "find", "withhelp"], repeat=2):
                if s in ("y", "yes", "ywrong", "yB", "taken"):
                    pre = [{"start": "new0", "lines": ["n"]}, {"start": "new1", "lines": ["m"]}]
                else:
                    pre = []
                yield {"sessions": [*pre, {"start": s, "lines": list(t)}]}
        for t in itertools.product(small, repeat=1 if q else 2):
            for u in itertools.product(small, repeat=2):
                yield {"sessions": [{"start": "new0", "lines": list(t)}, {"start": "y", "lines": list(u)}, {"start": "new1", "lines": ["m"]}, {"start": "yB", "lines": list(t)}, {"start": "y", "lines": ["find"]}]}
        yield {"sessions": [{"start": "y", "lines": ["r", "find"]}]}

    ctx.run_all("starts", starts, batch=10, bounds="every way to choose a database; several sessions one after another")


    def odd():
        for x in ODD:
            for t in ([x], [x, x], ["r", x, "m"], ["bad", x, "find"], [x, "findr"]):
                yield {"sessions": [{"start": "new", "lines": t}]}
        if not q:
            for t in itertools.product(ODD, repeat=2):
                yield {"sessions": [{"start": "new", "lines": [*t, "r"]}]}

    ctx.run_all("odd lines", odd, batch=10, bounds=f"{len(ODD)} unusual lines alone and among others")

    def long():
        for n in (10, 50, 100) if q else (10, 25, 50, 99, 100, 101, 127, 128, 255, 256, 257, 400):
            for x in ["n", "bad", "nothing", "help", "find", "none", "kame"]:
                yield {"sessions": [{"start": "new", "lines": [x], "times": n}, {"start": "y", "lines": ["r", "findr", x]}]}
            for t in (["n", "bad"], ["bad", "help", "nothing"], ["find", "r"], ["kame", "find"]):
                yield {"sessions": [{"start": "new", "lines": t * (n // len(t)) + ["r", "findr"]}]}
        for n in (600,) if q else (600, 1100, 2500):
            yield {"sessions": [{"start": "new", "lines": ["r"] + ["bad", "nothing", "help", "kame", "none", "find"] * (n // 6) + ["r", "findr"]}]}
        # many sessions
        yield {"sessions": [{"start": "new", "lines": ["n"]}] + [{"start": "y", "lines": ["r", "bad", "find"]} for _ in range(12 if q else 60)]}

    def struck():
        for e in ERRORS:
            for x in ("n", "r", "find", "both"):
                for t in (["n", x, "m", "findr"], [x, "r", "bad"], ["r", x]):
                    yield {"sessions": [{"start": "new", "lines": t, "hit": {t.index(x) if t[0] != x or x != "n" else 0: e}}, {"start": "y", "lines": ["r", "findr"]}]}
                yield {"sessions": [{"start": "new", "lines": [x] * 5 + ["r"], "hit": {0: e, 1: e, 3: e}}]}
        for e, f in itertools.product(ERRORS, repeat=2):
            yield {"sessions": [{"start": "new", "lines": ["r", "r", "find", "r"], "hit": {1: e, 2: f}}]}

    ctx.run_all("struck", struck, batch=10, bounds=f"{len(ERRORS)} errors, with every kind of message, strike the first file of a line")

    ctx.run_all("long", long, batch=1, bounds=f"sessions of up to {600 if q else 2500} lines, {12 if q else 60} sessions one after another")


STARTS["new0"] = ["n", "db0"]
STARTS["new1"] = ["n", "db1"]
