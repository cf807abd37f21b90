#!/usr/bin/env python3
"""Mutation testing of the checks (a development tool; no check uses it).

  mutants.py list OUT.jsonl            all mutants of /repo that pass its tests
  mutants.py run OUT.jsonl RES.jsonl   runs the checks on each until one reports a violation

A mutant is (file, start, end, replacement) on the text of a file of /repo's current tree.
"""
import ast
import json
import os
import re
import shutil
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor
from pathlib import Path

REPO = Path("/repo")
WORK = Path("/tmp/m/mut")
ORDER = "C01 C03 C09 C05 C21 C12 C13 C11 C15 C07 C08 C02 C10 C14 C17 C04 C06 C19 C22 C20 C16 C18".split()


# the checks that come first for the files of a path, and how many more of ORDER follow
FIRST = [("clauses/find", "C08 C07 C03 C11 C12 C10 C13"), ("clauses/make", "C03 C01 C11 C09 C19 C12 C05 C04"), ("clauses/report", "C12 C13"), ("parsing_helpers", "C11 C09 C03 C13 C12 C10 C08"), ("regexes", "C11 C10 C13 C03 C08 C09 C12"),
         ("transform_helpers", "C01 C03 C08"), ("select_gdbms", "C14 C22 C17 C15"), ("models/wigish", "C14 C22"), ("wiggleshell", "C17 C22"), ("query/", "C12 C13 C02 C17 C18 C16 C20"), ("graph/", "C15 C05 C20 C16 C04 C18 C01"),
         ("models/wql", "C21 C01 C09 C07 C12"), ("", "C17 C14 C01 C20")]


def order(f):
    first = next(v for k, v in FIRST if k in f).split()
    return first if os.environ.get("FIRST_ONLY") else first + [c for c in ORDER if c not in first]


def files():
    for p in sorted(REPO.rglob("*.py")):
        r = str(p.relative_to(REPO))
        if "tests/" in r or r.startswith(("testing", "conftest", ".")) or "venv" in r or "/test_" in r:
            continue
        yield r


def offsets(text):
    res = [0]
    for l in text.splitlines(keepends=True):
        res.append(res[-1] + len(l.encode()))
    return res


SWAP = {"left_middle": ["middle_right"], "middle_right": ["left_middle"], "left_node": ["middle_node"], "middle_node": ["right_node", "left_node"], "right_node": ["middle_node"], "wn_from_node": ["wn_to_node"], "wn_to_node": ["wn_from_node"],
        "node_labels": ["relationship_names"], "relationship_names": ["node_labels"], "props_dict_yes": ["props_dict_no"], "props_dict_no": ["props_dict_yes"], "_handle": ["_label"], "_label": ["_handle"], "_props": ["_handle"]}
CMP = {ast.Eq: "!=", ast.NotEq: "==", ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">", ast.In: "not in", ast.NotIn: "in", ast.Is: "is not", ast.IsNot: "is"}


def mutants(rel):
    raw = (REPO / rel).read_bytes()
    text = raw.decode()
    tree = ast.parse(text)
    off = offsets(text)

    def span(n):
        return off[n.lineno - 1] + n.col_offset, off[n.end_lineno - 1] + n.end_col_offset

    def src(n):
        a, b = span(n)
        return raw[a:b].decode()

    out = []

    def add(n, repl, what):
        a, b = span(n)
        if raw[a:b].decode() != repl:
            out.append((rel, a, b, repl, what, n.lineno))

    skip = set()
    doc = set()
    for n in ast.walk(tree):
        if isinstance(n, ast.If) and "__name__" in src(n.test):
            skip.update(id(x) for x in ast.walk(n))
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant):
            skip.update(id(x) for x in ast.walk(n))
        if isinstance(n, ast.Call) and src(n.func).startswith("graph_logger"):
            skip.update(id(x) for x in ast.walk(n))
        if isinstance(n, ast.Raise):
            skip.update(id(x) for x in ast.walk(n) if x is not n)
        if isinstance(n, (ast.JoinedStr,)):
            for x in ast.walk(n):
                if x is not n:
                    doc.add(id(x))
        if isinstance(n, (ast.arg, ast.AnnAssign)):
            a = n.annotation
            if a is not None:
                skip.update(id(x) for x in ast.walk(a))
        if isinstance(n, ast.FunctionDef) and n.returns is not None:
            skip.update(id(x) for x in ast.walk(n.returns))
    regexy = "regexes" in rel
    for n in ast.walk(tree):
        if id(n) in skip:
            continue
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            add(n, f"{src(n.left)} {CMP[type(n.ops[0])]} {src(n.comparators[0])}", "compare")
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            add(n, f"({src(n.operand)})", "drop not")
        if isinstance(n, ast.BoolOp):
            o = " or " if isinstance(n.op, ast.And) else " and "
            add(n, "(" + o.join(f"({src(v)})" for v in n.values) + ")", "and/or")
            for v in n.values:
                add(n, f"({src(v)})", "one operand")
        if isinstance(n, (ast.If, ast.IfExp, ast.While)):
            t = src(n.test)
            if ":=" in t:
                add(n.test, f"({t}) or True", "if True")
                add(n.test, f"({t}) and False", "if False")
            else:
                add(n.test, "True", "if True")
                add(n.test, "False", "if False")
        if isinstance(n, ast.comprehension):
            for c in n.ifs:
                add(c, "True", "comprehension without if")
                add(c, f"not ({src(c)})", "comprehension not if")
        if isinstance(n, ast.Constant) and id(n) not in doc:
            if isinstance(n.value, bool):
                add(n, str(not n.value), "bool")
            elif isinstance(n.value, int):
                add(n, str(n.value + 1), "int+1")
                if n.value:
                    add(n, str(n.value - 1), "int-1")
            elif isinstance(n.value, str) and n.value and not regexy:
                add(n, '""', "empty string")
        if isinstance(n, (ast.Constant, ast.JoinedStr)) and id(n) not in doc and regexy and src(n)[:1] in "rf\"'":
            s = src(n)
            for m in re.finditer(r"\\s\*|\\s\?|\]\+|\]\*|\\w\+|\\w\*|\\d\+|\)\?|\\b|\(\?i:|\^\||\[\^;\]\+", s):
                g = m.group()
                for r in {"\\s*": ["", " *", "\\s?"], "\\s?": ["", "\\s*"], "]+": ["]*", "]"], "]*": ["]+"], "\\w+": ["\\w*", "\\w"], "\\w*": ["\\w+", "\\w"], "\\d+": ["\\d"], ")?": [")"], "\\b": [""], "(?i:": ["(?:"], "^|": [""], "[^;]+": [".+", "[^;\\n]+"]}.get(g, []):
                    add(n, s[: m.start()] + r + s[m.end() :], f"regex {g} -> {r} at {m.start()}")
        if isinstance(n, ast.keyword) and n.arg == "flags":
            add(n, "flags=0", "flags")
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Call):
            add(n, "pass", "drop call")
        if isinstance(n, ast.AugAssign):
            add(n, "pass", "drop augmented assignment")
        if isinstance(n, ast.Assign) and isinstance(n.targets[0], (ast.Attribute, ast.Subscript)):
            add(n, "pass", "drop assignment")
        if isinstance(n, ast.Continue):
            add(n, "break", "break")
        if isinstance(n, ast.Break):
            add(n, "continue", "continue")
        if isinstance(n, ast.Raise):
            add(n, "pass", "drop raise")
        if isinstance(n, ast.Return) and n.value is not None:
            add(n, "return None", "return None")
        if isinstance(n, ast.For):
            add(n.iter, f"list({src(n.iter)})[:1]", "first only")
            add(n.iter, f"list({src(n.iter)})[1:]", "not the first")
            add(n.iter, f"list({src(n.iter)})[::-1]", "reversed")
        if isinstance(n, ast.comprehension):
            add(n.iter, f"list({src(n.iter)})[:1]", "first only")
            add(n.iter, f"list({src(n.iter)})[1:]", "not the first")
        if isinstance(n, (ast.Attribute, ast.Name)):
            nm = n.attr if isinstance(n, ast.Attribute) else n.id
            if not isinstance(getattr(n, "ctx", None), ast.Store):
                for k, vs in SWAP.items():
                    if k in nm:
                        for v in vs:
                            s = src(n)
                            i = s.rfind(nm)
                            add(n, s[:i] + nm.replace(k, v), f"swap {k}")
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute):
            f = n.func.attr
            for x, ys in {"union": ["intersection", "difference", "symmetric_difference"], "strip": ["lstrip", "rstrip"], "findall": [], "append": [], "issubset": ["issuperset", "isdisjoint"], "isupper": ["istitle"], "add": ["discard"], "update": [], "is_file": ["exists"], "is_dir": ["exists"]}.items():
                if f == x:
                    for y in ys:
                        s = src(n)
                        h = src(n.func)
                        add(n, h[: -len(x)] + y + s[len(h) :], f"{x} -> {y}")
            if f in ("strip", "lower", "title", "copy") and not n.args and not n.keywords:
                add(n, src(n.func.value), f"drop {f}")
        if isinstance(n, ast.ExceptHandler) and n.type is not None:
            add(n.type, "ZeroDivisionError", "except nothing")
            add(n.type, "Exception", "except all")
        if isinstance(n, ast.With):
            pass
    # statements swapped with the next
    for n in ast.walk(tree):
        if id(n) in skip:
            continue
        for body in (getattr(n, "body", None), getattr(n, "orelse", None)):
            if not isinstance(body, list):
                continue
            for a, b in zip(body, body[1:]):
                if isinstance(a, (ast.Import, ast.ImportFrom, ast.FunctionDef, ast.ClassDef)) or isinstance(b, (ast.FunctionDef, ast.ClassDef, ast.Return, ast.Raise)):
                    continue
                if id(a) in skip or id(b) in skip or not isinstance(n, (ast.FunctionDef, ast.For, ast.While, ast.If, ast.With, ast.Try)):
                    continue
                sa, sb = span(a), span(b)
                out.append((rel, sa[0], sb[1], raw[sb[0] : sb[1]].decode() + raw[sa[1] : sb[0]].decode() + raw[sa[0] : sa[1]].decode(), "swap statements", a.lineno))
    res, seen = [], set()
    for f, a, b, r, w, l in out:
        if (a, b, r) not in seen:
            seen.add((a, b, r))
            new = raw[:a] + r.encode() + raw[b:]
            try:
                compile(new, f, "exec")
            except SyntaxError:
                continue
            res.append(dict(file=f, a=a, b=b, repl=r, what=w, line=l, old=raw[a:b].decode()))
    return res


def apply(m, root):
    p = root / m["file"]
    raw = (REPO / m["file"]).read_bytes()
    p.write_bytes(raw[: m["a"]] + m["repl"].encode() + raw[m["b"] :])


def copy(i):
    w = WORK / str(i)
    shutil.rmtree(w, ignore_errors=True)
    w.parent.mkdir(parents=True, exist_ok=True)
    subprocess.run(["cp", "-a", "/repo", str(w)], check=True)
    return w


def tests(w):
    data = w / "testing/test_gdbms"
    subprocess.run(["rsync", "-a", "--delete", "/repo/testing/test_gdbms/", str(data) + "/"], check=False) if shutil.which("rsync") else (shutil.rmtree(data, ignore_errors=True), shutil.copytree("/repo/testing/test_gdbms", data))
    try:
        r = subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider", "--timeout=30"], cwd=w, capture_output=True, text=True, timeout=120, stdin=subprocess.DEVNULL,
                           env=dict(os.environ, PYTHONPATH=str(w), PYTHONDONTWRITEBYTECODE="1"))
    except subprocess.TimeoutExpired:
        return False
    return r.returncode == 0 and "181 passed" in r.stdout


def do_list(outp, only):
    ms = [m for f in files() if not only or re.search(only, f) for m in mutants(f)]
    print(len(ms), "mutants", flush=True)
    n = 8
    ws = [copy(i) for i in range(n)]

    def work(k):
        res = []
        for m in ms[k::n]:
            apply(m, ws[k])
            if tests(ws[k]):
                res.append(m)
            shutil.copy(REPO / m["file"], ws[k] / m["file"])
        return res

    with ThreadPoolExecutor(n) as ex:
        res = [m for r in ex.map(work, range(n)) for m in r]
    with open(outp, "w") as f:
        for m in res:
            f.write(json.dumps(m) + "\n")
    print(len(res), "pass the tests", flush=True)
    shutil.rmtree(WORK, ignore_errors=True)


def do_run(inp, outp, par=1):
    ms = [json.loads(l) for l in open(inp)]
    done = set()
    if os.path.exists(outp):
        done = {(d["file"], d["a"], d["b"], d["repl"]) for d in map(json.loads, open(outp))}
    w = copy("run" + os.environ.get("PART", "").replace("/", "-"))
    part, n = map(int, os.environ.get("PART", "0/1").split("/"))
    for m in ms[part::n]:
        if (m["file"], m["a"], m["b"], m["repl"]) in done:
            continue
        apply(m, w)
        killed = None
        broken = []
        for c in order(m["file"]):
            try:
                r = subprocess.run(["/verif/run.sh", c], capture_output=True, text=True, timeout=400, env=dict(os.environ, MC_REPO=str(w)))
            except subprocess.TimeoutExpired:
                broken.append(c + " timeout")
                continue
            if r.returncode == 1:
                killed = c
                break
            if r.returncode:
                broken.append(c + " " + r.stderr[-200:])
        shutil.copy(REPO / m["file"], w / m["file"])
        with open(outp, "a") as f:
            f.write(json.dumps({**m, "killed": killed, "broken": broken}) + "\n")
    shutil.rmtree(w, ignore_errors=True)


if __name__ == "__main__":
    if sys.argv[1] == "list":
        do_list(sys.argv[2], sys.argv[3] if len(sys.argv) > 3 else None)
    else:
        do_run(sys.argv[2], sys.argv[3])
