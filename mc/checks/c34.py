"""C34: a query changes the content of a database's files and nothing else about them, and a protected file is left alone.

The rights of the files and folders of a small database, and how they are linked, are set in every way of the enumeration; then
queries are run (as an ordinary user, whom the rights bind). The model says from the rights whether a query can be run.
"""
import itertools
import os
import stat

from mc import sut
from mc.checks.c14 import answers, letters, NoMoreAnswers
from mc.core import Outcome, new_dir

ID = "C34"
RULE = "rights and links of the files, then queries: accepted if the rights allow it, refused if they do not; rights and links as before; nothing stored is lost; with the rights given back the database works"
ASSUMPTIONS = [
    "a query that makes something needs all three files and may need to write in their folders; a FIND needs to read the indexes only",
    "new databases get the rights that the mask of the process leaves, or fewer",
]

MAKES = {
    "one": ["MAKE (:A {i: 1});"],
    "rel": ["MAKE (:A)-[:R {s: 'x'}]->(:B);"],
    "more": ["MAKE (:A {i: 1})-[:R]->(:B)<-[:S]-(:C);", "MAKE (:D), (:A {l: [1, 'x']});"],
    "none": [],
}
QUERIES = {
    "n": ("MAKE (:N);", 1, 0, None),
    "r3": ("MAKE (:A)-[:R]->(:M)-[:R]->(:N); MAKE (:A);", 4, 2, None),
    "f": ("FIND (:A)-[:R]->(:B);", 0, 0, False),
    "f0": ("FIND (:Z);", 0, 0, True),
    "both": ("MAKE (:N); FIND (:N);", 1, 0, False),
    "bad": ("MAKE (:N {i: });", None, None, None),
}
PATHS = ("database_file_path", "indexes_file_path", "wiggle_number_file_path")


def mode(p):
    return stat.S_IMODE(os.stat(p).st_mode)


def tree(top):
    """Everything about the files below a folder but their content (rights, links, names)."""
    res = {}
    for root, dirs, files in os.walk(top):
        for n in dirs + files:
            p = os.path.join(root, n)
            r = os.path.relpath(p, top)
            res[r] = ("link", os.readlink(p)) if os.path.islink(p) else (os.path.isdir(p), mode(p))
    return res


class Database:
    """A database with a history, in a folder of its own."""

    def __init__(self, h, folder_link=False, links=("file",) * 3):
        self.h = h
        self.top = new_dir()
        self.folder = self.top / "dbms"
        self.g = sut.create("db", self.folder)
        self.other = sut.create("other", self.folder)
        for q in MAKES[h]:
            assert sut.query(q, self.g)[0]
        assert sut.query("MAKE (:O);", self.other)[0]
        self.paths = [str(getattr(self.g, p)) for p in PATHS]
        self.own = os.path.dirname(self.paths[0])
        store = str(self.top / "store")
        os.mkdir(store)
        for k, (p, how) in enumerate(zip(self.paths, links)):
            if how == "file":
                continue
            real = os.path.join(store, f"kept {k}")
            os.rename(p, real)
            if how == "absolute":
                os.symlink(real, p)
            elif how == "relative":
                os.symlink(os.path.join("..", "..", "store", f"kept {k}"), p)
            elif how == "chain":
                os.symlink(real, real + ".a")
                os.symlink(f"kept {k}.a", real + ".b")
                os.symlink(real + ".b", p)
            elif how == "beside":
                os.rename(real, p + ".kept")
                os.symlink(os.path.basename(p) + ".kept", p)
            else:
                raise KeyError(how)
        if folder_link:
            os.rename(self.own, os.path.join(store, "moved"))
            os.symlink(os.path.join(store, "moved"), self.own)
        self.before = sut.Db(self.g)

    def protect(self, modes, folder):
        for p, m in zip(self.paths, modes):
            os.chmod(p, m)
        os.chmod(self.own, folder)

    def free(self):
        os.chmod(self.own, 0o755)
        for p in self.paths:
            os.chmod(p, 0o644)


def judge(o, d, q, res, modes, folder, where):
    """One query against what the rights say. Returns whether it was accepted."""
    text, nodes, rels, none = QUERIES[q]
    ok, err, out = res
    enter = folder & 0o500 == 0o500
    readable = [enter and bool(m & 0o400) for m in modes]
    writable = [enter and bool(m & 0o200) for m in modes]
    makes = bool(nodes)
    where = f"{where}: {text!r} ({'accepted' if ok else 'refused: ' + str(err)[:100]})"
    if nodes is None:
        may, must = False, False
    elif makes:
        may = all(readable) and all(writable)
        must = may and bool(folder & 0o200)
    else:
        may = must = readable[1]
    if ok and not may:
        o.bad(f"{where}, though the rights do not allow it")
    if not ok and must:
        o.bad(f"{where}, though the rights allow it")
    if ok and none is not None and sut.no_results(out) != (none or (q == "f" and d.h in ("one", "none"))):
        o.bad(f"{where}: prints {out!r}")
    return ok


def content(o, d, before, where, nodes, rels, index=True):
    try:
        after = sut.Db(d.g)
    except (sut.Corrupt, OSError) as e:
        o.bad(f"{where}: {type(e).__name__}: {e}")
        return None
    new = sut.diff(before, after)
    if new is None:
        o.bad(f"{where}: something stored has changed")
    elif (len(new[0]), len(new[1])) != (nodes, rels):
        o.bad(f"{where}: {len(new[0])} nodes and {len(new[1])} relationships are new, not {nodes} and {rels}")
    if after.next < before.next:
        o.bad(f"{where}: the next number went back")
    for e in after.integrity() + after.index_errors(superset=not index):
        o.bad(f"{where}: {e}")
    return after


def run(scn):
    o = Outcome()
    if os.geteuid() == 0:
        raise AssertionError("rights do not bind the superuser")
    return globals()["run_" + scn["kind"]](scn, o)


def run_rights(scn, o):
    """A sequence of queries on a database with certain rights and links."""
    old = os.umask(scn.get("umask", 0o022))
    d = None
    try:
        d = Database(scn["h"], scn.get("folder_link", False), scn.get("links", ("file",) * 3))
        raw_other = sut.read_raw(d.other)
        modes, folder = scn["modes"], scn["folder"]
        d.protect(modes, folder)
        os.chmod(d.own, 0o755)
        tree_before = tree(d.top)
        d.protect(modes, folder)
        before, nodes, rels, whole = d.before, 0, 0, True
        for q in scn["queries"]:
            where = f"{scn}"
            res = sut.query(QUERIES[q][0], d.g)
            o.transitions += 1
            o.validated += 1
            o.states.add((repr(modes), folder, q, repr(scn.get("links")), scn["h"]))
            if mode(d.own) != folder:
                o.bad(f"{where}: the rights of the folder are {oct(mode(d.own))}")
            os.chmod(d.own, 0o755)
            now = tree(d.top)
            for k, v in tree_before.items():
                if now.get(k) != v and k != os.path.relpath(d.own, d.top):
                    o.bad(f"{where}: after {QUERIES[q][0]!r}, {k} is {describe(now.get(k))} and was {describe(v)}")
            d.protect(modes, folder)
            ok = judge(o, d, q, res, modes, folder, where)
            o.distinct.add((q, ok, (res[1] or "").split(":")[0]))
            if ok:
                nodes, rels = nodes + QUERIES[q][1], rels + QUERIES[q][2]
                extra = sorted(set(now) - set(tree_before))
                if extra:
                    o.bad(f"{where}: after {QUERIES[q][0]!r} there is {extra}")
            elif QUERIES[q][1]:
                whole = False
            if o.violations:
                return o
        d.free()
        after = content(o, d, before, f"{scn}", nodes, rels, whole)
        if sut.read_raw(d.other) != raw_other:
            o.bad(f"{scn}: another database has changed")
        if o.violations:
            return o
        for q in ("r3", "f", "both"):
            ok, err, out = sut.query(QUERIES[q][0], d.g)
            o.transitions += 1
            if not ok:
                o.bad(f"{scn}: with the rights given back, {QUERIES[q][0]!r} is refused: {err}")
                return o
        content(o, d, after, f"{scn}, with the rights given back", 5, 2, whole)
    finally:
        os.umask(old)
        if d is not None:
            d.free()
    return o


def describe(v):
    return "gone" if v is None else f"a link to {v[1]}" if v[0] == "link" else f"a {'folder' if v[0] else 'file'} with {oct(v[1])}"


def run_change(scn, o):
    """A sequence of queries and changes of rights in between, in one process."""
    d = Database("rel")
    try:
        modes, folder = [0o644] * 3, 0o755
        before, nodes, rels, whole = d.before, 0, 0, True
        for op in scn["ops"]:
            if op[0] == "set":
                if op[1] == 3:
                    folder = op[2]
                else:
                    modes[op[1]] = op[2]
                d.free()
                d.protect(modes, folder)
                continue
            res = sut.query(QUERIES[op[1]][0], d.g)
            o.transitions += 1
            o.validated += 1
            o.states.add((repr(modes), folder, repr(scn["ops"])))
            ok = judge(o, d, op[1], res, modes, folder, f"{scn}")
            if ok:
                nodes, rels = nodes + QUERIES[op[1]][1], rels + QUERIES[op[1]][2]
            elif QUERIES[op[1]][1]:
                whole = False
            os.chmod(d.own, 0o755)
            for p, m in zip(d.paths, modes):
                if mode(p) != m:
                    o.bad(f"{scn}: after {QUERIES[op[1]][0]!r} the rights of {os.path.basename(p)} are {oct(mode(p))}, not {oct(m)}")
            d.protect(modes, folder)
            if o.violations:
                return o
        o.distinct.add((nodes, rels, whole))
        d.free()
        content(o, d, before, f"{scn}", nodes, rels, whole)
    finally:
        d.free()
    return o


def run_create(scn, o):
    """A new database has no rights that the mask forbids."""
    old = os.umask(scn["umask"])
    try:
        folder = new_dir() / "dbms"
        g = sut.create("db", folder)
        t = tree(folder)
        ok = sut.query(QUERIES[scn["q"]][0], g)
        t2 = tree(folder)
    finally:
        os.umask(old)
    o.transitions += 2
    o.validated += 1
    o.states.add((scn["umask"], scn["q"]))
    o.distinct.add((ok[0], scn["umask"]))
    for k, v in t.items():
        if v[1] & scn["umask"] or v[1] & 0o7000 or (not v[0] and v[1] & 0o111):
            o.bad(f"{scn}: {k} is {describe(v)}")
    if t2 != t:
        o.bad(f"{scn}: a query changed {sorted((k, describe(t.get(k)), describe(t2.get(k))) for k in set(t) | set(t2) if t.get(k) != t2.get(k))}")
    if not ok[0] and QUERIES[scn["q"]][1] is not None:
        o.bad(f"{scn}: {ok[1]}")
    return o


def run_dialogue(scn, o):
    """Databases that cannot be used among others: the selection goes on."""
    import io

    folder = new_dir() / "dbms"
    names = ("aa", "bb", "cc")
    gs = {n: sut.create(n, folder) for n in names}
    paths = [str(getattr(gs["bb"], p)) for p in PATHS]
    kind, k = scn["damage"]
    own = os.path.dirname(paths[0])
    try:
        if kind == "gone":
            os.remove(paths[k])
        elif kind == "folder":
            os.remove(paths[k])
            os.mkdir(paths[k])
        elif kind == "dangling":
            os.remove(paths[k])
            os.symlink("nowhere", paths[k])
        elif kind == "loop":
            os.remove(paths[k])
            os.symlink(os.path.basename(paths[k]), paths[k])
        elif kind == "empty":
            for p in paths:
                os.remove(p)
        elif kind == "rights":
            os.chmod(own, k)
        elif kind == "files":
            for p, m in zip(paths, k):
                os.chmod(p, m)
        was = None if kind == "rights" else tree(folder)
        out = io.StringIO()
        g = err = None
        try:
            with sut.captured(out), answers(scn["answers"]):
                g = sut.S.get_existing_gdbms(folder)
        except NoMoreAnswers:
            err = "asks again"
        except Exception as e:
            err = f"{type(e).__name__}: {e}"
        o.transitions += 1
        o.validated += 1
        o.states.add(repr(scn))
        table = letters(out.getvalue())
        if table != dict(zip("ABC", names)):
            o.bad(f"{scn}: the table is {table}")
        want = next((x for x in scn["answers"] if x in "AC"), None)
        usable = kind == "files" or kind == "rights" and k & 0o100
        if was is not None and tree(folder) != was:
            o.bad(f"{scn}: the selection changed rights or links")
        if usable and "B" in scn["answers"]:
            want = next(x for x in scn["answers"] if x in "ABC")
        o.distinct.add((err, want, kind))
        if want is None and err != "asks again":
            o.bad(f"{scn}: {err or 'selected ' + str(g)}")
        if want is not None and (g is None or str(g.database_file_path) != str(gs[names["ABC".index(want)]].database_file_path)):
            o.bad(f"{scn}: {err or g}, not {names['ABC'.index(want)]}")
        if sut.S.list_existing_dbms(path_to_dbms_dir=folder) != list(names):
            o.bad(f"{scn}: the list is {sut.S.list_existing_dbms(path_to_dbms_dir=folder)}")
    finally:
        os.chmod(own, 0o755)
    return o


def explore(ctx):
    q = ctx.quick
    few = (0o644, 0o600, 0o444, 0o200, 0o000)
    many = (0o644, 0o600, 0o666, 0o664, 0o640, 0o755, 0o444, 0o400, 0o200, 0o000)
    folders = (0o755, 0o700, 0o777, 0o555, 0o500, 0o300, 0o000)

    def rights():
        for modes in itertools.product(few, repeat=3):
            for f in (0o755, 0o555, 0o000) if q else folders:
                for x in QUERIES if not q else ("r3", "f", "f0", "both"):
                    yield {"kind": "rights", "h": "rel", "modes": list(modes), "folder": f, "queries": [x]}

    ctx.run_all("rights", rights, batch=50, bounds="5 rights for each of the three files, of the folder, then a query")

    def kept():
        for modes in itertools.product((0o600, 0o644, 0o666, 0o640, 0o664, 0o606, 0o777, 0o700) if not q else (0o600, 0o666, 0o640, 0o777), repeat=3):
            for u in (0o022, 0o077, 0, 0o027):
                for h in ("rel", "none") if q else MAKES:
                    for xs in (["n", "both"], ["r3", "f", "n"]):
                        yield {"kind": "rights", "h": h, "modes": list(modes), "folder": 0o755 if u else 0o700, "queries": xs, "umask": u}

    ctx.run_all("kept", kept, batch=50, bounds="usable rights of each of the files, 4 masks, 2 and 3 queries")

    def links():
        hows = ("file", "absolute", "relative", "chain", "beside")
        for ls in itertools.product(hows, repeat=3):
            for fl in (False, True):
                if fl and any(x == "relative" for x in ls):
                    continue
                for xs in (["n"], ["r3", "both", "f"], ["f0", "n", "n", "bad"]):
                    for modes in ([0o644] * 3, [0o600] * 3, [0o644, 0o444, 0o600]):
                        yield {"kind": "rights", "h": "rel", "modes": modes, "folder": 0o755, "queries": xs, "links": ls, "folder_link": fl}

    ctx.run_all("links", links, batch=50, bounds="each file a file or one of four kinds of links, the folder a folder or a link, up to 4 queries")

    def change():
        ops = [["q", x] for x in ("n", "r3", "f", "bad")] + [["set", f, m] for f in range(3) for m in (0o444, 0o644, 0o600)] + [["set", 3, 0o555], ["set", 3, 0o755]]
        for n in (2, 3) if q else (2, 3, 4):
            for t in itertools.product(ops, repeat=n):
                # something is set, a query comes after it
                if t[-1][0] == "q" and any(x[0] == "set" for x in t) and not any(a[0] == b[0] == "set" and a[1] >= b[1] for a, b in zip(t, t[1:])):
                    yield {"kind": "change", "ops": list(t)}

    ctx.run_all("change", change, batch=50, bounds="all sequences of queries and changes of rights")

    def create():
        for u in range(0o000, 0o100):
            for x in ("n", "bad", "f") if q else QUERIES:
                yield {"kind": "create", "umask": u, "q": x}

    ctx.run_all("create", create, batch=50, bounds="every mask of group and others")

    def dialogue():
        damages = [(k, i) for k in ("gone", "folder", "dangling", "loop") for i in range(3)] + [("empty", 0)] + [("rights", m) for m in (0o000, 0o400, 0o600, 0o500, 0o100, 0o700)] + [("files", list(t)) for t in itertools.product((0o644, 0o444, 0o600, 0o000), repeat=3)]
        for dmg in damages:
            for n in range(1, 4):
                for t in itertools.product("ABCx", repeat=n):
                    yield {"kind": "dialogue", "damage": list(dmg), "answers": list(t)}

    ctx.run_all("dialogue", dialogue, batch=50, bounds="a database that cannot be used in 19 ways, or whose files have one of 64 combinations of rights, all dialogues of up to three answers")
