"""C03: an accepted MAKE stores, and an accepted FIND uses, everything that is written in it."""
import itertools

from mc import findpre
from mc import model as M
from mc import refparse
from mc import sut
from mc import words as W
from mc.core import Outcome, new_dir

ID = "C03"
RULE = "every token sequence / edit is given to the real query function; what is accepted must be readable by the reference parser and mean the same"
ASSUMPTIONS = ["text between statements that has no clause word is not part of any statement", "the reference parser (mc/refparse.py) is lenient where nothing is lost"]

_db = [None, 0]


def run(scn):
    o = Outcome()
    if _db[0] is None or _db[1] > 5000:
        _db[0], _db[1] = sut.create("db", new_dir()), 0
    _db[1] += 1
    g = _db[0]
    text = scn["q"]
    ok, err, out = sut.query(text, g)
    o.transitions += 1
    if not ok:
        o.distinct.add(err.split(":")[0])
        return o
    _db[0] = None
    o.states.add(text)
    o.validated += 1
    try:
        stmts = refparse.read_query(text)
    except refparse.Unreadable as e:
        o.bad(f"accepted {text!r}, but it cannot be read completely: {e}")
        return o
    makes = [p for w, ps in stmts if w == "MAKE" for p in ps]
    try:
        db = sut.Db(g)
        want = M.canon(makes)
        got = db.components()
    except sut.Corrupt as e:
        o.bad(f"{text!r}: {e}")
        return o
    o.distinct.add(got)
    if got != want:
        o.bad(f"{text!r} stored {got}, but says {want}")
    finds = [ps for w, ps in stmts if w == "FIND"]
    if len(finds) == 1 and not makes:
        got, err = findpre.real_all(text)
        want = findpre.flat([findpre.expected(p) for p in finds[0]])
        o.distinct.add(got)
        if got != want:
            o.bad(f"{text!r} prepared as {got} ({err}), but says {want}")
    return o


CHARS = ["(", ")", ":", "A", "R", "a", "-[", "]->", "<-[", "]-", ",", "{i: 1}", "{", "}"]
PIECES = ["(:A)", "(a:A)", "(:B {i: 1})", "-[:R]->", "<-[:R]-", "-[]->", "-[:R]-", ",", ";", "MAKE", "FIND", "x", "(", ")", "(A)", "->", "\n"]
PROP = ["i", ":", "1", ",", '"', "'", "[", "]", " ", "null", "true", ".", "x", "2.5", "{", "}"]
REL = ["r", "R", ":", " ", "{i: 1}", "[", "]", "-", ">", "<"]
BASES = [
    "MAKE (a:A {i: 1, s: 'x y'})-[r:R {f: 2.5}]->(b:B);",
    'MAKE (:A)<-[:R]-(:B {l: [1, "q", true]})-[:S]->(:C), (:D);',
    "MAKE (:A);\nMAKE (:B {n: null})<-[]-(:C);",
    "FIND (a:A {i: 1})<-[r:R {s: \"x\"}]-(b:B)-[:S]->(:C);",
    "MAKE (:A {b: true, t: bare text}), (:B); FIND (:A)-[:R]->(:B);",
]
INS = list("()[]{}<>-:;,.'\" aR1_@+\n") + ["MAKE", "null", "true"]


def edits(s):
    for i in range(len(s) + 1):
        for c in INS:
            yield s[:i] + c + s[i:]
        if i < len(s):
            yield s[:i] + s[i + 1 :]
            yield s[:i] + s[i] + s[i:]
            for c in INS:
                yield s[:i] + c + s[i + 1 :]
        if i + 1 < len(s):
            yield s[:i] + s[i + 1] + s[i] + s[i + 2 :]
    for i in range(len(s)):
        for j in range(i + 1, min(len(s), i + 25) + 1):
            yield s[:i] + s[j:]
            yield s[:j] + s[i:]


def explore(ctx):
    q = ctx.quick

    def seqs(alpha, n, pre, post, words=("MAKE",)):
        def gen():
            for k in range(0, n + 1):
                for t in itertools.product(alpha, repeat=k):
                    for w in words:
                        yield {"q": f"{w} {pre}{''.join(t)}{post};"}

        return gen

    ctx.run_all("tokens", seqs(CHARS, 4 if q else 6, "(", ")"), batch=2000, bounds=f"MAKE ( w ); for all w of up to {4 if q else 6} of {len(CHARS)} tokens")
    ctx.run_all("pieces", seqs(PIECES, 4 if q else 5, "", "", ("MAKE",)), batch=2000, bounds=f"all sequences of up to {4 if q else 5} of {len(PIECES)} pieces of statements")
    ctx.run_all("pieces of FIND", seqs(PIECES, 3 if q else 5, "", "", ("FIND",)), batch=2000)
    ctx.run_all("properties", seqs(PROP, 4 if q else 5, "(:A {i: ", "})"), batch=2000, bounds=f"one property value of up to {4 if q else 5} of {len(PROP)} tokens")
    ctx.run_all("second property", seqs(PROP, 3 if q else 4, "(:A)-[:R {j: 'a', i", ", k: 'b'}]->(:B)"), batch=2000)
    ctx.run_all("lists", seqs(["1", "'", '"', ",", " ", "x", "true", "null", "2.5", "[", "b"], 4 if q else 6, "(:A {l: [", "], k: 'b'})"), batch=2000)
    ctx.run_all("relationships", seqs(REL, 4 if q else 6, "(:A)-", "->(:B)"), batch=2000)
    ctx.run_all("relationships of FIND", seqs(REL, 3 if q else 5, "(:A)<-", "-(:B)", ("FIND",)), batch=2000)

    def edit():
        for b in BASES:
            for s in edits(b):
                yield {"q": s}

    ctx.run_all("edits", edit, batch=2000, bounds=f"every insertion, deletion, replacement, transposition and block edit of {len(BASES)} statements")

    def far():
        piece = "(:L{} {{p: {}, t: 'x y'}})-[:R]->(b:B)"
        eds = [e for e in edits(piece.format("#", "#"))]
        eds = list(dict.fromkeys(eds))
        for n in (6, 12, 24, 48) if q else (3, 5, 6, 7, 8, 9, 10, 11, 12, 16, 17, 24, 32, 33, 48, 64, 65, 100, 130):
            for w in ("MAKE", "FIND"):
                yield {"q": f"{w} " + ", ".join(piece.format(i, i) for i in range(n)) + ";"}
                for k in sorted({0, n // 2, n - 2, n - 1}) if q or n > 24 else range(n):
                    for e in eds[k % 7 :: 7 if q else 3]:
                        row = [piece.format(i, i) for i in range(n)]
                        row[k] = e.replace("#", str(k))
                        yield {"q": f"{w} " + ", ".join(row) + ";"}
            rows = [f"MAKE {piece.format(i, i)};" for i in range(n)]
            yield {"q": "\n".join(rows)}
            for k in sorted({0, n // 2, n - 1}):
                for e in eds[k % 11 :: 11 if q else 3]:
                    yield {"q": " ".join([*rows[:k], f"MAKE {e.replace('#', str(k))};", *rows[k + 1 :]])}

    ctx.run_all("far", far, batch=100, bounds="statements of 6 to 48 patterns (130 in thorough), and as many statements, plain and with an edit in the first, middle or last ones")

    def twins():
        """A part and one that is an edit away from it, in one query."""
        for base, forms in (
            ("(:Ab {t: 'x y', i: 1})", ("MAKE {0}, {1};", "MAKE {1}; MAKE {0};", "MAKE {0};\nMAKE {1};", "MAKE {0}-[:R]->{1};", "FIND {1}, {0};", "FIND {0}<-[:R]-{1};")),
            ("-[r:R {t: 'x', i: 1}]->", ("MAKE (:A){0}(:B), (:A){1}(:B);", "MAKE (:A){0}(:B); MAKE (:A){1}(:B);", "MAKE (:A){1}(:B){0}(:A);", "FIND (:A){0}(:B), (:A){1}(:B);")),
        ):
            es = list(dict.fromkeys(edits(base)))
            for n, e in enumerate(es):
                for k, f in enumerate(forms):
                    if not q or (n + k) % 2:
                        yield {"q": f.format(base.replace("r:", ":") if k > 1 else base, e)}

    ctx.run_all("twins", twins, batch=1000, bounds="a node and a relationship together with every edit of it in one pattern, statement and query (half of them in quick)")

    def long():
        for n in range(1, 130 if q else 300):
            a = "".join("ab cd_9"[i % 7] for i in range(n))
            w = "Lab_9"[n % 5] + "".join("abX_9"[i % 5] for i in range(n - 1))
            for word in ("MAKE", "FIND"):
                yield {"q": f"{word} (:A {{t: '{a}', u: {w}}})-[:{w.upper()}]->(:{w});"}
                yield {"q": f"{word} (:{w} {{u: {w}, t: '{a}'}})<-[:{w.upper()} {{t: '{a}'}}]-({w}:{w})-[]->(:{w});"}
                yield {"q": f"{word} (:{w}), (:{w}x), ({w}:A);"}
                yield {"q": f"{word} (h{w}:A)<-[{w}h:R {{{w}: 1, l: ['{a}', \"{a}\"]}}]-(:B{w});"}
                yield {"q": f"{word} (:A {{l: [{', '.join(str(i) for i in range(n))}], m: [{', '.join(repr(a[: i % 9]) for i in range(n))}]}});"}
                yield {"q": f"{word} (:A {{{', '.join(f'k{i}: {i}' for i in range(n))}}});"}
                yield {"q": f"{word} (:A){'-' * n}[:R]{'-' * n}>(:B);"}
                yield {"q": f"{word}{' ' * n}(:A{' ' * n}{{p:{' ' * n}'{a}'}}{' ' * n});"}

        for n in (1000, 4096, 16384, 65536):
            a = ("some words @1.5_" * (n // 16 + 1))[: n - 1] + "x"
            w = ("Label_9é" * (n // 8 + 1))[:n]
            for word in ("MAKE", "FIND"):
                yield {"q": f"{word} (:A {{t: '{a}', u: 1}})-[:R {{t: \"{a}\"}}]->(:B), (:C);"}
                yield {"q": f"{word} (:{w} {{{w}: 2}})<-[{w}h:{w.upper()}]-({w}:B), (:C);"}
            if n < 5000:
                for word in ("MAKE", "FIND"):
                    yield {"q": f"{word} (:A {{l: [{', '.join(str(i) for i in range(n))}]}})-[:R {{{', '.join(f'k{i}: {i}' for i in range(n))}}}]->(:B);"}

    ctx.run_all("long", long, batch=100, bounds="words, texts, lists, properties, arrows and spaces of every length up to 129, and some of up to 65536")

    def words():
        """Every odd word at every place of a MAKE and of a FIND."""
        for w in [*W.all_words(), *(x for n in range(14, 140 if q else 700) for x in (("Lb_9x" * n)[:n], ("9é日a_" * n)[:n]))]:
            u = w.upper()
            for word in ("MAKE", "FIND"):
                for i in range(3):
                    n = [["L", "M", "N"], ["", "", ""], ["", "", ""], ["", "", ""]]
                    for k in range(1, 5):
                        row = [list(x) for x in n]
                        if k < 3:
                            row[0 if k == 1 else 1][i] = w
                        elif w.lower() not in ("null", "true", "false", "none") or k == 4:
                            row[k - 1][i] = f" {{t: '{w}', l: [1, \"{w}\"]}}" if k == 3 else f" {{{w}: 1, j: 2}}"
                        a, b, c = (f"({row[1][j]}:{row[0][j]}{row[2][j]}{row[3][j]})" for j in range(3))
                        yield {"q": f"{word} {a}-[:R]->{b}<-[:S]-{c};"}
                for i in range(2):
                    for f in (f"[{w}:R]", f"[:{u}]", f"[:R {{{w}: 1}}]", f"[:R {{t: '{w}'}}]"):
                        if "'" in f and w.lower() in ("null", "true", "false", "none"):
                            continue
                        x = ["[]", "[:S]"]
                        x[i] = f
                        yield {"q": f"{word} (:A)<-{x[0]}-(:B)-{x[1]}->(:C);"}
        for t in (x for y in W.ALIKE_TEXT for x in y):
            for f in (f"t: '{t}'", f't: "{t}"', f"l: ['{t}']", f"l: [1, \"{t}\"], t: '{t}'", f"t: {t}", f"l: [{t}]"):
                for word in ("MAKE", "FIND"):
                    yield {"q": f"{word} (:A)<-[:R {{i: 1, {f}}}]-(:C {{{f}, j: 2}});"}

    ctx.run_all("words", words, batch=200, bounds=f"{len(W.all_words())} odd words (cases, scripts, compatibility forms) and words of 14 to 139 characters at every place of a MAKE and a FIND")

    def comments():
        """What other languages take as comments, escapes, or the end of a statement, at every gap."""
        base = [
            "MAKE| |(:A|)| |,| |(b:B| {p|:| 1|,| t: 'x| y'|}|)| |-|[:R|]|->| |(:D|)| |;|\n|MAKE| |(:E|)| |;|\n|",
            "MAKE| |(:A|)|;|\n|FIND| |(a:A| {p|:| 1|}|)| |,| |(:B|)| |;|\n|REPORT| |a| |;|",
        ]
        marks = ["--", " --", "-- ", " -- ", "//", " // ", "#", " # ", "/*", "/* x */", "<!--", "%", "\\", "\\\n", "\x00", "\x1a", "\x04", "\ufeff", "\u200b", "\u00a0", "\u2028", "\x85", "\x1c", "\x0c", "\x0b", "\r", "..", "...", "&", "&&", "|", "||", "!", "?", "$x", "${x}", "~", "^", "`", "=", "==", "+", "\"\"\"", "''", '""', "\\'", "\\n", "\\u0041", "&amp;", "%20", "{0}", "%s", "REM ", "go\n", "END", "\nEND\n", "EOF", "AND", " OR ", "NOT "]
        tails = ["", "x", " (:Q)", " (:Q);"] if q else ["", "x", " x y", " (:Q)", ", (:Q)", " (:Q);", " MAKE (:Q);", "\n(:Q)", "-- (:Q)"]
        for b in base:
            gaps = b.split("|")
            for i in range(len(gaps) + 1):
                for m in marks:
                    for t in tails:
                        for e in ("", "\n"):
                            yield {"q": "".join(gaps[:i]) + m + t + e + "".join(gaps[i:])}

    ctx.run_all("comments", comments, batch=1000, bounds="61 marks that other languages take as comments, escapes or ends, with 4 tails (9 in thorough), in every gap of 2 queries")

    def looks():
        """Characters that look like those of the language in their place: one, two, from one on, all of them."""
        like = {
            "'": "\u2018\u2019\u201a\u02bc\u2032\uff07`\u00b4", '"': "\u201c\u201d\u201e\u00ab\u00bb\u2033\uff02", "-": "\u2010\u2011\u2012\u2013\u2014\u2212\ufe63\uff0d\u00ad~_=", ">": "\u203a\u3009\uff1e\u2192\u232a", "<": "\u2039\u3008\uff1c\u2190\u2329",
            "(": "\uff08\u2768\ufe59", ")": "\uff09\u2769\ufe5a", "[": "\uff3b\u3010", "]": "\uff3d\u3011", "{": "\uff5b\ufe5b", "}": "\uff5d\ufe5c", ":": "\uff1a\ufe55\u2236\u05c3=", ",": "\uff0c\ufe50\u201a\u3001\u060c|&", ";": "\uff1b\ufe54\u037e\u061b!", ".": "\uff0e\u3002\u00b7\u066b", " ": "\u00a0\u2003\u200b\u2060\ufeff\u3000\u180e",
        }
        for b in (*BASES, "FIND (a:A {t: 'x.y', f: 1.5}); REPORT a;"):
            for c, ls in like.items():
                at = [i for i, x in enumerate(b) if x == c]
                for l in ls:
                    sets = [[i] for i in at] + [list(t) for t in itertools.combinations(at, 2)] + [at[k:] for k in range(len(at))] + [at[:k] for k in range(1, len(at))]
                    for t in dict.fromkeys(map(tuple, sets)):
                        yield {"q": "".join(l if i in t else x for i, x in enumerate(b))}
            for x, y in (("->", "\u2192"), ("<-", "\u2190"), ("->", "=>"), ("->", "-->"), ("<-", "<--"), ("-[", "-->["), ("'", '"'), ('"', "'"), ("'", "''"), ('"', '""'), ("'", "\\'"), ("(", "(("), (")", "))"), ("[", "[["), ("]", "]]"), ("{", "{{"), ("}", "}}"), (":", "::"), (":", " is "), (":", "=>"), (",", ";"), (",", " and "), (";", ",")):
                yield {"q": b.replace(x, y)}
                parts = b.split(x)
                for k in range(1, len(parts)):
                    yield {"q": x.join(parts[:k]) + y + x.join(parts[k:])}
        for l, r in ("\u2018\u2019", "\u201c\u201d", "\u201e\u201c", "\u00ab\u00bb", "\u2039\u203a", "\u300c\u300d", "\uff07\uff07", "\uff02\uff02", "``", "\u00b4\u00b4", "<>", "()", "{}", "||", "//"):
            for t in ("x", "x y", "1", "null", "", "x,y", "it's"):
                for v in (f"{l}{t}{r}", f"[{l}{t}{r}]", f"[1, {l}{t}{r}, 'b']", f"'{l}{t}{r}'", f"{l}'{t}'{r}"):
                    for word in ("MAKE", "FIND"):
                        yield {"q": f"{word} (:A {{i: 1, t: {v}, j: 'z'}});"}

    ctx.run_all("looks", looks, batch=1000, bounds="characters that look like those of the language in one, two, all places of them in 6 queries")
    if not q:

        def twice():
            for b in (BASES[0][:34] + ");", "MAKE (:A)-[r:R]->(:B {i: 1});", "FIND (a:A)<-[:R]-(:B);"):
                seen = set()
                for s in edits(b):
                    if s in seen:
                        continue
                    seen.add(s)
                    for i in range(len(s)):
                        yield {"q": s[:i] + s[i + 1 :]}
                        for c in "()[]{}:,-<>'\"":
                            yield {"q": s[:i] + c + s[i:]}

        ctx.run_all("two edits", twice, batch=4000, bounds="pairs of an edit and a deletion or inserted bracket, colon, comma, arrow or quote")
