"""C14: databases are created, listed, selected and deleted one at a time."""
import builtins
import contextlib
import io
import itertools
import os

from mc import model as M
from mc import sut
from mc.core import Outcome, new_dir

ID = "C14"
RULE = "every sequence of operations is run on the real code in a scratch folder; after every step the whole folder tree around the databases is compared with the model"
ASSUMPTIONS = [
    "names: a name that is no single folder name ('', '.', '..', with '/') may be refused or become a database of that name, but nothing else",
    "databases named tests or __pycache__, and more than 26 databases, are not offered for selection and are out of scope",
    "alphabetical order: by character code, or ignoring case",
]


def snapshot(top):
    res = {}
    for root, dirs, files in os.walk(top):
        rel = os.path.relpath(root, top)
        res[rel + "/"] = None
        for f in files:
            p = os.path.join(root, f)
            with open(p, "rb") as h:
                res[os.path.normpath(os.path.join(rel, f))] = h.read()
    return res


@contextlib.contextmanager
def answers(xs):
    """input() answers from the list; RuntimeError when it asks for more."""
    old = builtins.input
    it = iter(xs)
    asked = []

    def fake(prompt=""):
        asked.append(prompt)
        try:
            return next(it)
        except StopIteration:
            raise NoMoreAnswers()

    builtins.input = fake
    try:
        yield asked
    finally:
        builtins.input = old


class NoMoreAnswers(Exception):
    pass


def letters(text):
    """The last table of letters and names that was displayed (a name may contain spaces)."""
    res, cur = {}, {}
    for line in text.splitlines():
        if line.strip().lower().startswith("letter"):
            cur = {}
            res = cur
        elif len(line) > 1 and line[0].isalpha() and line[0].isupper() and line[1:2] == " ":
            cur[line[0]] = line[1:].strip()
    return res


def alphabetical(xs):
    return list(xs) in (sorted(xs), sorted(xs, key=str.lower), sorted(xs, key=str.casefold))


class World:
    def __init__(self):
        self.top = new_dir()
        (self.top / "keep.txt").write_text("keep")
        (self.top / "outside").mkdir()
        (self.top / "outside" / "database_outside.json").write_text("{}")
        self.folder = self.top / "dbms"
        self.other = self.top / "other"
        self.dbs = {}  # name -> GDBMSFilePath
        sut.create("a", self.other)
        sut.create("zz", self.other)
        self.n = 0
        self.expect = snapshot(self.top)

    def inside(self, name):
        """Paths that belong to a database of that name."""
        return lambda p: p == f"dbms/{name}/" or os.path.dirname(p) == f"dbms/{name}"

    def step(self, op, o):
        kind, name = op[0], op[1] if len(op) > 1 else None
        where = f"{op} after {self.trace}"
        before = self.expect
        odd = name is not None and (name in ("", ".", "..") or "/" in name)
        if kind in ("create", "ask"):
            out = io.StringIO()
            g, err = None, None
            try:
                with sut.captured(out):
                    if kind == "create":
                        g = sut.S.get_new_gdbms_file_paths(name, self.folder)
                    else:
                        with answers(op[1:]):
                            g = sut.S.create_new_dbms(path_to_dbms_dir=self.folder)
            except Exception as e:
                err = f"{type(e).__name__}: {e}"
            if kind == "ask":
                free = [x for x in op[1:] if x not in self.dbs and x not in ("", ".", "..") and "/" not in x]
                name = free[0] if free else None
                if (g is None) != (name is None):
                    o.bad(f"{where}: {'refused ' + str(err) if g is None else 'created'}")
                    return
                odd = False
            taken = name in self.dbs
            after = snapshot(self.top)
            if g is None:
                if after != before and not (set(after) - set(before) == {"dbms/"} and all(after[k] == v for k, v in before.items())):
                    o.bad(f"{where}: refused ({err}), but {changes(before, after)}")
                if not taken and not odd and name is not None:
                    o.bad(f"{where}: refused ({err}) although the name is not taken")
                self.expect = after
                o.distinct.add((kind, "refused", taken))
                return
            if taken:
                o.bad(f"{where}: accepted although the name is taken; {changes(before, after)}")
                return
            if odd:
                if name not in self.listed():
                    o.bad(f"{where}: accepted, but it is not listed as {name!r}; {changes(before, after)}")
                return
            inside = self.inside(name)
            for p in set(before) | set(after):
                if before.get(p, 0) != after.get(p, 0) and not inside(p) and p != "dbms/":
                    o.bad(f"{where}: {changes(before, after)}")
                    return
            try:
                d = sut.Db(g)
            except sut.Corrupt as e:
                o.bad(f"{where}: {e}")
                return
            for p in (g.database_file_path, g.indexes_file_path, g.wiggle_number_file_path):
                if not inside(os.path.relpath(p, self.top)):
                    o.bad(f"{where}: its files are elsewhere: {g}")
                    return
            if d.nodes or d.rels or d.next or d.ix_labels or d.ix_names or d.ix_rels:
                o.bad(f"{where}: the new database is not empty: {d.raw}")
            self.dbs[name] = g
            self.expect = after
            o.distinct.add((kind, "created", len(self.dbs)))
        elif kind == "delete":
            err = None
            try:
                with sut.captured(io.StringIO()):
                    sut.S.delete_gdbms(name, self.folder)
            except Exception as e:
                err = f"{type(e).__name__}: {e}"
            after = snapshot(self.top)
            if name in self.dbs:
                inside = self.inside(name)
                want = {p: v for p, v in before.items() if not inside(p)}
                if err:
                    o.bad(f"{where}: failed with {err}")
                del self.dbs[name]
            else:
                want = before
                if err is None:
                    o.bad(f"{where}: a database that does not exist was deleted")
            if after != want:
                o.bad(f"{where}: {changes(want, after)}")
            self.expect = after
            o.distinct.add(("delete", err is None))
        elif kind == "make":
            self.n += 1
            label = f"N{self.n}"
            ok, err, out = sut.query(f"MAKE (:{label} {{i: {self.n}}})-[:R{self.n}]->(:B);", self.dbs[name]) if name in self.dbs else (True, None, "")
            after = snapshot(self.top)
            inside = self.inside(name)
            if not ok:
                o.bad(f"{where}: the database is not usable: {err}")
            for p in set(before) | set(after):
                if before.get(p, 0) != after.get(p, 0) and not inside(p):
                    o.bad(f"{where}: {changes(before, after)}")
                    return
            if name in self.dbs:
                d = sut.Db(self.dbs[name])
                if label not in {n[0] for n in d.nodes.values()}:
                    o.bad(f"{where}: the database does not hold what was made")
                for t in d.integrity() + d.index_errors():
                    o.bad(f"{where}: {t}")
            self.expect = after
        elif kind == "select":
            self.select(op[1:], o, where)
        if snapshot(self.top) != self.expect:
            o.bad(f"{where}: {changes(self.expect, snapshot(self.top))}")
        self.check_list(o, where)

    def listed(self):
        with sut.captured(io.StringIO()):
            return sut.S.list_existing_dbms(path_to_dbms_dir=self.folder)

    def check_list(self, o, where):
        got = list(self.listed())
        if sorted(got) != sorted(self.dbs) or not alphabetical(got):
            o.bad(f"{where}: listed {got}, existing are {sorted(self.dbs)}")
        out = io.StringIO()
        with sut.captured(out):
            m = sut.S.get_and_display_available_dbms(self.folder)
        if not self.dbs:
            if m:
                o.bad(f"{where}: {m} displayed, but there are no databases")
            return
        m = dict(m or {})
        if list(m) != [chr(65 + i) for i in range(len(m))] or sorted(m.values()) != sorted(self.dbs) or not alphabetical(m.values()):
            o.bad(f"{where}: letters {m}, existing are {sorted(self.dbs)}")
        if letters(out.getvalue()) != {k: v.strip() for k, v in m.items()}:
            o.bad(f"{where}: displayed {out.getvalue()!r}, letters {m}")

    def select(self, tries, o, where):
        out = io.StringIO()
        g, err = None, None
        names = sorted(self.dbs)
        with answers(tries):
            try:
                with sut.captured(out):
                    g = sut.S.get_existing_gdbms(self.folder)
            except NoMoreAnswers:
                err = "asked again"
            except Exception as e:
                err = f"{type(e).__name__}: {e}"
        if not self.dbs:
            # it asks for the name of a new database
            self.expect = snapshot(self.top)
            if g is not None:
                name = g.database_file_path.parent.name
                self.dbs[name] = g
                if name not in tries:
                    o.bad(f"{where}: created {name}")
            return
        table = letters(out.getvalue())
        if {k: v for k, v in table.items()} != {chr(65 + i): n.strip() for i, n in enumerate(table.values())} or sorted(table.values()) != sorted(n.strip() for n in self.dbs):
            o.bad(f"{where}: displayed {out.getvalue()!r}, existing are {names}")
            return
        good = [t for t in tries if t in table]
        o.distinct.add(("select", len(table), bool(good)))
        if not good:
            if g is not None:
                # another spelling of a letter may be understood, but then as that letter
                u = [t for t in tries if t.strip().upper() in table]
                if not u or g not in [self.dbs[n] for n in self.full(table[u[0].strip().upper()])]:
                    o.bad(f"{where}: selected {g} without a letter of {table}")
            elif err != "asked again":
                o.bad(f"{where}: {err}")
            return
        if g is None:
            o.bad(f"{where}: letter {good[0]} of {table} not accepted: {err}")
            return
        first = next(t for t in tries if t.strip().upper() in table)
        want = [self.dbs[n] for t in {first, good[0]} for n in self.full(table[t.strip().upper()])]
        if g not in want:
            o.bad(f"{where}: letter {good[0]} of {table} selected {g}")

    def full(self, shown):
        """The databases that are displayed like that."""
        return [n for n in self.dbs if n.strip() == shown]


def changes(a, b):
    gone = sorted(set(a) - set(b))
    new = sorted(set(b) - set(a))
    diff = sorted(k for k in set(a) & set(b) if a[k] != b[k])
    return f"removed {gone}, added {new}, changed {diff}"


def crowd(names):
    """Many databases, or long names, in one folder."""
    o = Outcome()
    w = World()
    want = []
    for n in names:
        with sut.captured(io.StringIO()):
            w.dbs[n] = sut.S.get_new_gdbms_file_paths(n, w.folder)
        want.append(n)
    w.expect = snapshot(w.top)

    def same(where):
        o.transitions += 1
        o.validated += 1
        got = w.listed()
        o.distinct.add(len(got))
        if sorted(got) != sorted(want) or not alphabetical(got):
            o.bad(f"{where}: missing {sorted(set(want) - set(got))[:9]}, surplus {sorted(set(got) - set(want))[:9]}, {len(got)} listed of {len(want)}")
        if snapshot(w.top) != w.expect:
            o.bad(f"{where}: {changes(w.expect, snapshot(w.top))}"[:2000])

    same(f"{len(names)} databases {names[:2]}")
    for n in dict.fromkeys([names[0], names[-1], names[len(names) // 2]]):
        try:
            with sut.captured(io.StringIO()):
                sut.S.get_new_gdbms_file_paths(n, w.folder)
            o.bad(f"{n!r} accepted a second time among {len(names)}")
        except Exception:
            pass
        same(f"{n!r} refused among {len(names)}")
        ok, err, out = sut.query("MAKE (:N {i: 1})-[:R]->(:B);", w.dbs[n])
        if not ok or len(sut.Db(w.dbs[n]).nodes) != 2:
            o.bad(f"{n!r} among {len(names)} is not usable: {err}")
        inside = w.inside(n)
        after = snapshot(w.top)
        if {p: v for p, v in after.items() if not inside(p)} != {p: v for p, v in w.expect.items() if not inside(p)}:
            o.bad(f"a query of {n!r} among {len(names)}: {changes(w.expect, after)}")
        out = io.StringIO()
        with sut.captured(out):
            m = dict(sut.S.get_and_display_available_dbms(w.folder) or {})
        if letters(out.getvalue()) != m or not set(m.values()) <= set(want) or len(m) < min(len(want), 26) or not alphabetical(m.values()):
            o.bad(f"{len(want)} databases displayed as {out.getvalue()[:300]!r}")
        for k in [k for k, v in m.items() if v == n] + list(m)[-1:]:
            with sut.captured(io.StringIO()), answers([k]):
                g = sut.S.get_existing_gdbms(w.folder)
            if g != w.dbs[m[k]]:
                o.bad(f"letter {k} is {m[k]!r}, but selects {g}")
        with sut.captured(io.StringIO()):
            sut.S.delete_gdbms(n, w.folder)
        want.remove(n)
        w.expect = {p: v for p, v in w.expect.items() if not inside(p)}
        same(f"{n!r} deleted among {len(names)}")
        if o.violations:
            break
    o.states.add((len(names), names[0][:9]))
    return o


def run(scn):
    if "crowd" in scn:
        return crowd(scn["crowd"])
    o = Outcome()
    w = World()
    w.trace = []
    if scn.get("file"):
        w.folder.mkdir()
        (w.folder / "file.txt").write_text("x")
        w.expect = snapshot(w.top)
    for op in scn["ops"]:
        w.step(op, o)
        o.transitions += 1
        o.validated += 1
        o.states.add(tuple(sorted((k, v) for k, v in snapshot(w.top).items() if k.startswith("dbms"))))
        w.trace.append(op)
        if o.violations:
            break
    return o


ODD = ["", ".", "..", "a/b", "a/", "/", "../outside", "../other/a", "./a", "a/../b", "../dbms/a", "*", "?", "[ab]", "a*", "**"]


def explore(ctx):
    q = ctx.quick
    C = lambda *ns: [["create", n] for n in ns]  # noqa
    D = lambda *ns: [["delete", n] for n in ns]  # noqa

    alpha = C("a", "a*", "ab", "[ab]", "..") + D("a", "a*", "ab", "[ab]", "*") + [["make", "a"]]

    def seqs():
        for n in range(1, (3 if q else 4) + 1):
            for t in itertools.product(alpha, repeat=n):
                if t[0][0] == "make":
                    continue
                yield {"ops": list(t)}

    ctx.run_all("sequences", seqs, batch=30, bounds=f"all sequences of up to {3 if q else 4} of {len(alpha)} operations")

    deep_alpha = C("a", "b", "A") + D("a", "b") + [["make", "a"], ["make", "b"]]

    def deep():
        for t in itertools.product(deep_alpha, repeat=4 if q else 6):
            if t[0][0] == "create":
                yield {"ops": list(t)}

    ctx.run_all("deep", deep, batch=30, bounds=f"all sequences of {4 if q else 6} of {len(deep_alpha)} operations")

    names = ["a", "ab", "b", "A", "a*", "a?", "[ab]", "*", "?", ".a", "a b", " a", "-a", "~a", "é", "a.json", "database_a", "!a", "{a}", "$HOME", "a\\b", "a;b", "%s", "x" * 60, "tests2", "mytests", "test", "Tests", "__pycache__x", "new", "a.new", "indexes_a", "v1.2", "a.b.c", "1.0", "a.txt", "a.", "b.json.json"]

    def pairs():
        for a, b in itertools.permutations(names, 2):
            for victim in (a, b):
                yield {"ops": [["create", a], ["make", a], ["create", b], ["make", b], ["create", a], ["delete", victim], ["delete", victim], ["make", a if victim == b else b], ["create", victim], ["select", "A"], ["select", "B"]]}

    ctx.run_all("pairs of names", pairs, batch=30, bounds=f"all ordered pairs of {len(names)} names: both made, one deleted, made again")

    def odd():
        for x in ODD:
            for ops in itertools.product(["create", "delete"], repeat=2):
                yield {"ops": [[k, x] for k in ops]}
                yield {"ops": [["create", "a"], ["make", "a"], ["create", "b"], *[[k, x] for k in ops], ["make", "b"]]}
                yield {"ops": [["create", "a"], ["create", "ab"], ["delete", "a"], *[[k, x] for k in ops]]}
                yield {"ops": [["create", "a"], *[[k, x] for k in ops]], "file": 1}

    ctx.run_all("odd names", odd, batch=30, bounds=f"{len(ODD)} names that are patterns or paths, created and deleted with and without databases")

    def select():
        sets = [c for n in range(0, 4) for c in itertools.combinations(["a", "ab", "B", "c d", "a*", "Z"], n)]
        tries = ["A", "B", "C", "D", "a", "b", "AB", "", " A", "1", "ab"]
        for s in sets:
            for order in (s, tuple(reversed(s))):
                base = [x for n in order for x in (["create", n], ["make", n])]
                for t in tries:
                    for u in ("", "A", "C"):
                        yield {"ops": base + [["select", t, *([u] if u else [])]]}
                if len(s) == 3:
                    for v in s:
                        for t in "ABC":
                            yield {"ops": base + [["delete", v], ["select", t, "A"], ["create", v], ["select", t]]}

    ctx.run_all("select", select, batch=30, bounds="sets of up to 3 of 6 databases x answers; after a deletion and a new creation")

    def ask():
        for pre in itertools.product([0, 1], repeat=2):
            base = [["create", n] for n, k in zip(("a", "b"), pre) if k]
            for n in (1, 2, 3):
                for t in itertools.product(["a", "b", "c", ""], repeat=n):
                    yield {"ops": base + [["ask", *t]]}

    ctx.run_all("ask", ask, batch=30, bounds="up to 3 answers to the question for a new name")

    def crowds():
        for n in (27, 50, 100, 257, 600) if q else (27, 30, 50, 64, 65, 100, 101, 128, 129, 256, 257, 512, 600, 1001, 2500):
            yield {"crowd": [f"d{k:04d}" for k in range(n)]}
            yield {"crowd": [f"{'dcba'[k % 4]}{k}" for k in range(n)]}
        for n in (60, 100, 130, 180, 200) if q else range(50, 202, 3):
            yield {"crowd": ["n" * n, "n" * (n - 1), "n" * (n - 1) + "o", "short", ("long name " * 30)[: n - 1] + "."]}

    ctx.run_all("crowds", crowds, batch=1, bounds=f"up to {600 if q else 2500} databases in one folder, names of up to 200 characters: the list, three of them used and deleted")

    def many():
        for n in range(1, 27):
            names = [f"d{k:02d}" for k in range(n)]
            base = [["create", names[(k * 7 + 3) % n] if n % 7 else names[-k - 1]] for k in range(n)]
            yield {"ops": base + [["select", chr(65 + k)] for k in range(n)] + [["select", chr(65 + n)], *([["create", "e"], ["select", chr(65 + n)]] if n < 26 else [])]}
            for k in range(n):
                if q and n > 12 and k % 5 != n % 5:
                    continue
                yield {"ops": base + [["make", names[k]], ["delete", names[k]], ["select", chr(65 + k)], ["select", chr(64 + n)], ["create", names[k]], ["select", chr(65 + k)], ["make", names[k]]]}
                if n < 26:
                    yield {"ops": base + [["create", names[k]], ["create", names[k] + "x"], ["delete", names[k] + "x"], ["select", chr(65 + k)]]}

    ctx.run_all("many", many, batch=1, bounds="1 to 26 databases, every letter, each one deleted and made again")
