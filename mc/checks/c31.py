"""C31: a query means the same in every environment.

Real processes, each started with its own options, variables, locale, time zone, hash seed, mask, folder and limits,
run the steps of a history; what each step does is compared with processes of a plain environment.
"""
import itertools
import json
import os
import shutil
import subprocess
import sys

from mc import core, shim
from mc.checks import c23
from mc.core import Outcome, new_dir

ID = "C31"
RULE = "every query of the list in every environment, and every history in every pair of environments, against a plain environment; states are the stored states, transitions the steps"
ASSUMPTIONS = ["messages are compared as texts, without addresses of objects", "which locales are installed is that of the sandbox"]

PLAIN = {"PATH": "/usr/bin:/bin", "LANG": "C.UTF-8", "PYTHONHASHSEED": "0", "TZ": "UTC0", "HOME": "/nonexistent"}


def env(flags=(), drop=(), cwd=None, **more):
    e = {k: v for k, v in PLAIN.items() if k not in drop}
    pre = {k: more.pop(k) for k in ("umask", "nofile", "stdin", "stack") if k in more}
    e.update({k: str(v) for k, v in more.items()})
    return {"flags": list(flags), "env": e, "cwd": cwd, **pre}


ENVS = {
    "plain": env(),
    "-O": env(["-O"]),
    "-OO": env(["-OO"]),
    "-b": env(["-bb"]),
    "-u": env(["-u"]),
    "dev": env(["-X", "dev", "-W", "ignore"]),
    "C": env(LC_ALL="C", PYTHONUTF8="0", PYTHONCOERCECLOCALE="0"),
    "POSIX": env(LC_ALL="POSIX", LANG="POSIX", PYTHONUTF8="0", PYTHONCOERCECLOCALE="0", PYTHONIOENCODING="ascii"),
    "latin": env(PYTHONIOENCODING="latin-1"),
    "utf16": env(PYTHONIOENCODING="utf-16"),
    "utf8": env(LC_ALL="C", PYTHONUTF8="1"),
    "none": env(drop=list(PLAIN)),
    "CET": env(TZ="CET-1CEST,M3.5.0,M10.5.0/3"),
    "far": env(TZ="XXX-13:45", LANG="de_DE.UTF-8", LC_NUMERIC="de_DE.UTF-8"),
    "turkish": env(LC_ALL="tr_TR.UTF-8", LANGUAGE="tr"),
    "mask77": env(umask=0o077),
    "mask0": env(umask=0),
    "root": env(cwd="/"),
    "odd cwd": env(cwd="odd"),
    "gone cwd": env(cwd="gone"),
    "stdin": env(stdin=0),
    "files": env(nofile=24),
    "names": env(USER="x", LOGNAME="", HOME="/", TMPDIR="/nonexistent", DEBUG="1", ENV="test", TESTING="1", CI="true", PYTEST_CURRENT_TEST="x", COLUMNS="20", TERM="dumb", NO_COLOR="1", WIGGLE_HOME="/nonexistent", DATABASE="x", WG_DEBUG="1"),
}
SEEDS = [1, 2, 3, 4, 5, 6, 7, 8, "random"]


def get(name):
    return env(PYTHONHASHSEED=name[5:]) if name.startswith("seed ") else ENVS[name]


class Worker:
    def __init__(self, name, top):
        e = get(name)
        a, self.w = os.pipe()
        self.r, b = os.pipe()
        self.cwd = {"odd": f"{top}/a b/[é]", "gone": f"{top}/gone"}.get(e["cwd"], e["cwd"] or str(top))
        os.makedirs(self.cwd, exist_ok=True)
        self.gone = self.cwd if e["cwd"] == "gone" else None

        def before():
            os.setpgid(0, 0)
            os.umask(e.get("umask", 0o022))
            if e.get("nofile"):
                import resource

                resource.setrlimit(resource.RLIMIT_NOFILE, (e["nofile"], e["nofile"]))

        v = {**e["env"], "PYTHONPATH": str(core.VERIF), "PYTHONDONTWRITEBYTECODE": "1", "MC_REPO": str(core.REPO)}
        self.p = subprocess.Popen(
            [sys.executable, *e["flags"], "-m", "mc.envworker", str(a), str(b)],
            env=v, cwd=self.cwd, pass_fds=(a, b), preexec_fn=before, stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE,
        )  # fmt: skip
        os.close(a)
        os.close(b)
        self.src = os.fdopen(self.r, "rb")
        if self.src.readline() != b'"ready"\n':
            err = self.p.communicate()[1].decode(errors="replace")
            raise Dead(f"the program does not start: {err[-600:]}")
        if self.gone:
            os.rmdir(self.gone)

    def do(self, job):
        os.write(self.w, json.dumps(job).encode() + b"\n")
        line = self.src.readline()
        if not line:
            raise Dead("the process died")
        return json.loads(line)

    def close(self):
        os.close(self.w)
        self.src.close()
        try:
            self.p.wait(20)
        except subprocess.TimeoutExpired:
            self.p.kill()
            self.p.wait()
        self.p.stderr.close()


class Dead(Exception):
    pass


HARD = {
    "values": "MAKE (é:Ünï {t: 'ä ß ñ', u: \"日本\", f: 0.1, g: 1234567.123456789, h: 12345678901234567890, l: [1, 2.5, 'é', null, true]})-[r:ÉÖ {ı: 'İ'}]->(:ſ);",
    "many": "MAKE " + ", ".join(f"(h{i}:L{i} {{p{i}: {i}, q: 'x{i}'}})-[r{i}:N{i}]->(k{i}:M{i})" for i in range(12)) + ";",
    "findmany": "FIND " + ", ".join(f"(h{i}:L{i} {{p{i}: {i}, q: 'x{i}'}})-[r{i}:N{i}]->(k{i}:M{i})" for i in range(12)) + "; REPORT " + ", ".join(f"h{i}.q, wn(r{i}), k{11 - i}" for i in range(12)) + ";",
    "findhard": "FIND (é:Ünï {t: 'ä ß ñ'})-[r:ÉÖ]->(:ſ); REPORT é.t;",
    "wrongtwo": "FIND (a:A), (b:B); REPORT x, y, z, a;",
    "dups": "MAKE (a:A)-[b:R]->(b:B)<-[a:R]-(c:C);",
    "badé": "MAKE (:A {é: 'ü' ö: 1});",
    "bad日": "MAKE (:A)-[:é]->(:B);",
    "long": "MAKE (:A {t: '" + "x y " * 300 + "é'});",
    "deep": "MAKE (:A {l: [" + ", ".join(str(i) for i in range(300)) + "]});",
    "manymakes": "MAKE (:A); MAKE (:B)-[:R]->(:C); MAKE (:A); MAKE (:D {i: 1}); MAKE (:E), (:F); FIND (:A), (:D); MAKE (:D {i: 1}); MAKE (:B)-[:R]->(:C);",
    "manyprops": "MAKE (:A {" + ", ".join(f"{x * 3}: '{x}'" for x in "qwertyuiop") + "})-[:R {" + ", ".join(f"{x}: ['{x}', 1]" for x in "qwertyuiop") + "}]->(:B);",
    "i": "MAKE (:I)-[:I {i: 'i I'}]->(:i);",
    "lower": "mAkE (:İ {ß: 'ẞ'}); fInD (i:İ); rEpOrT i;",
}
CONTENTS = [[], ["i1", "r3", "values", "badprop"]]


def text(q):
    return HARD.get(q, c23.Q.get(q, q))


def base(workers, top, content):
    """The files of a content, made in the plain environment."""
    d = f"{top}/base{content}"
    if not os.path.isdir(d):
        for p in ("x", "y"):
            os.makedirs(f"{d}/{p}")
        for q in ["new", *CONTENTS[content]]:
            workers["plain"].do({"scratch": str(top), "top": d, "place": "x/p", "what": text(q)})
    return d


def play(workers, top, d, steps, content):
    """Runs the steps (environment, place, query) on a copy of the content; the results."""
    shutil.copytree(base(workers, top, content), d)
    res = [strip(workers[e].do({"scratch": str(top), "top": d, "place": place, "what": text(q)}), d) for e, place, q in steps]
    shutil.rmtree(d, ignore_errors=True)
    return res


WHAT = ["the parsed query", "the prepared FIND", "whether it is accepted", "the error", "the output", "what is stored"]


def compare(o, steps, got, want, where):
    for k, (g, w) in enumerate(zip(got, want)):
        o.transitions += 1
        o.validated += 1
        o.distinct.add(repr(w)[:300])
        o.states.add(repr(w[-1]) if isinstance(w, list) else repr(w))
        if g != w:
            if isinstance(g, str) or isinstance(w, str) or len(g) != len(w):
                what = f"{g}, expected {w}"
            else:
                i = next(i for i in range(len(g)) if g[i] != w[i])
                what = f"{WHAT[i] if len(g) > 2 else 'what is stored'} is {str(g[i])[:300]!r}, expected {str(w[i])[:300]!r}"
            o.bad(f"{where}: step {k} {steps[k]}: {what}")
            return


def run(scn):
    o = Outcome()
    top = new_dir()
    workers = {}
    try:
        for e in dict.fromkeys(["plain", *scn["envs"]]):
            try:
                workers[e] = Worker(e, top)
            except Dead as x:
                if e == "plain":
                    raise
                o.bad(f"in the environment {e!r}: {x}")
                return o
        n = 0
        for content, steps in scn["runs"]:
            want = play(workers, top, f"{top}/w{n}", [("plain", p, q) for e, p, q in steps], content)
            # an environment * stands for all of them
            for e in scn["envs"] if steps[0][0] == "*" else [None]:
                now = [(e or x[0], x[1], x[2]) for x in steps]
                n += 1
                got = play(workers, top, f"{top}/w{n}", now, content)
                compare(o, now, got, want, f"content {content}")
                if o.violations:
                    return o
            n += 1
    except Dead as x:
        o.bad(f"{scn['envs']}: {x}")
    finally:
        for w in workers.values():
            w.close()
    return o


def strip(x, top):
    return json.loads(json.dumps(x).replace(top, "TOP"))


def explore(ctx):
    q = ctx.quick
    queries = [*c23.Q, *HARD]
    seeds = [f"seed {i}" for i in (SEEDS if q else [*range(1, 65), *["random"] * 4])]

    def single():
        es = [*ENVS, *seeds]
        for i in range(0, len(es), 4):
            for j in range(3):
                yield {"envs": es[i : i + 4], "runs": [[c, [["*", "x/p", x]]] for c in (0, 1) for x in queries[j::3]]}

    ctx.run_all("single", single, batch=1, bounds=f"{len(queries)} queries on two contents in {len(ENVS) + len(seeds)} environments")
    pick = ["plain", "-O", "C", "utf16", "none", "far", "mask77", "root", "files", "seed 3"]
    if not q:
        pick = [*ENVS, "seed 3", "seed 4"]

    def pairs():
        ws = ["values", "r3", "many"]
        rs = ["findhard", "fs", "findmany", "makekame"]
        for a, b in itertools.combinations(pick, 2):
            runs = []
            for i, w in enumerate(ws):
                steps = [[a, "x/p", w], [b, "x/p", rs[i]], [b, "x/p", ws[(i + 1) % 3]], [a, "x/p", rs[(i + 1) % 3]], [a, "x/p", "several"], [b, "y/p", "new"], [a, "y/p", w], [b, "y/p", "both"], [a, "x/p", "new"], [b, "x/p", w], [a, "x/p", rs[i]], [a, "y/p", rs[3]], [b, "y/p", rs[i]]]
                runs.append([i % 2, steps])
            yield {"envs": [a, b], "runs": runs}

    ctx.run_all("pairs", pairs, batch=1, bounds=f"3 histories of 13 steps that two environments take turns in, for all pairs of {len(pick)}")
