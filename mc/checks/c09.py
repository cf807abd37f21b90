"""C09: a property value is stored with the type and content that was written."""
import itertools

from mc import model as M
from mc import refparse
from mc import sut
from mc import words as W
from mc.core import Outcome

ID = "C09"
RULE = "every value of the enumeration is made as a property through the real query function and read back from the database file"
ASSUMPTIONS = [
    "a value that is refused stores nothing; the documented forms (numbers, true/false/null, texts of letters, digits, _ @ . and spaces, lists of them) must not be refused",
    "a bare value that is no number and no keyword is a text",
]
_bench = sut.Bench()


def run(scn):
    """scn: p = pattern (props with text and expected value; value '?' = judged by the reference reader), must."""
    o = Outcome()
    p = scn["p"]
    text = M.stmt_text("MAKE", [p])
    ok, err, out, d, after = _bench.query(text)
    o.transitions += 1
    o.validated += 1
    o.states.add(text)
    if not ok:
        o.distinct.add("refused")
        if scn["must"]:
            o.bad(f"{text!r} refused: {err}")
        if d is None or d[0] or d[1]:
            o.bad(f"{text!r} refused, but it changed the database")
        return o
    if d is None:
        o.bad(f"{text!r} changed what was stored")
        return o
    if scn.get("read"):
        try:
            stmts = refparse.read_query(text)
            ps = [x for w, q in stmts for x in q]
        except refparse.Unreadable as e:
            o.bad(f"{text!r} accepted as {after.components(*d)}, but its value cannot be read: {e}")
            return o
    else:
        ps = [p]
    got, want = after.components(*d), M.canon(ps)
    o.distinct.add(got)
    if got != want:
        o.bad(f"{text!r} stored {got}, expected {want}")
    return o


def node(props):
    return [["", "A", props]]


KEYWORDS = {"null", "true", "false", "none"}


def plain_text(s):
    """A text that the documentation covers."""
    return bool(s.strip()) and all(c.isalnum() or c in "_@. " for c in s) and s.strip().lower() not in KEYWORDS


def explore(ctx):
    q = ctx.quick

    def texts():
        alpha = ["a", "Z", "1", " ", ".", "@", "_", "+", "'", '"', "é"]
        for n in range(0, (4 if q else 5) + 1):
            for t in itertools.product(alpha, repeat=n):
                s = "".join(t)
                for c in "'\"":
                    if c not in s:
                        other = "'\"".replace(c, "")
                        yield {"p": node([["k", f"{c}{s}{c}", s]]), "must": plain_text(s) and other not in s}

    ctx.run_all("quoted", texts, batch=300, bounds=f"all texts of up to {4 if q else 5} of 11 characters in both kinds of quotes")

    def bare():
        alpha = ["a", "1", "0", " ", ".", "@", "_", "+", "e", "-"]
        for n in range(1, (4 if q else 5) + 1):
            for t in itertools.product(alpha, repeat=n):
                s = "".join(t)
                yield {"p": node([["k", s, "?"]]), "read": 1, "must": s[0].isalpha() and plain_text(s)}

    ctx.run_all("bare", bare, batch=300, bounds=f"all bare values of up to {4 if q else 5} of 10 characters")

    def numbers():
        ds = ["0", "1", "7", "9"]
        for n in range(1, 5 if q else 6):
            for t in itertools.product(ds, repeat=n):
                s = "".join(t)
                if s[0] != "0" or n == 1:
                    yield {"p": node([["k", s, int(s)]]), "must": True}
                for i in range(1, n):
                    f = s[:i] + "." + s[i:]
                    yield {"p": node([["k", f, float(f)]]), "must": True}
        for s in ("12345678901234567890", "9007199254740993", "1" * 40, "4294967296", "2147483648"):
            yield {"p": node([["k", s, int(s)]]), "must": True}
        for s in ("0.1", "1.10", "123456789.123456789", "0.000001", "1.7976931348623157", "99999999999999999999.5", "0.30000000000000004", "1.0"):
            yield {"p": node([["k", s, float(s)]]), "must": True}

    ctx.run_all("numbers", numbers, batch=300, bounds="all whole numbers and decimals of up to 4 of 4 digits, and large ones")

    def words():
        ws = ["null", "true", "false", "none", "nan", "inf", "infinity", "1e5", "make", "find", "report", "yes", "nullx", "xnull", "truex", "atrue", "false1", "null null", "true x", "1 2", "1 null", "x 1", "1.5 x", "0x1", "1_0"]
        for w in ws:
            for v in {w, w.upper(), w.capitalize(), w + " ", w[:-1] + w[-1].upper()}:
                yield {"p": node([["k", v, "?"]]), "read": 1, "must": v.strip() in ("null", "true", "false") or (w.split()[0] in ("make", "find", "report", "yes", "nullx", "xnull", "truex", "atrue", "false1", "nan", "inf", "infinity"))}
                for c in "'\"":
                    yield {"p": node([["k", c + v + c, v]]), "must": w.strip().lower() not in KEYWORDS}
                    yield {"p": node([["j", "1", 1], ["k", f"[{c}{v}{c}, {c}{v}{c}]", [v, v]], ["l", "'z'", "z"]]), "must": True}

    def looks():
        # bare texts that other languages take for something else
        ws = ["1.5e3", "1.0e10", "1.e5", "1e10", "2E3", "1_000", "1_0.5", "0x1F", "0o7", "0b1", "1.2.3", "192.168.0.1", "2020.01.02", "1L", "1j", "1.5f", "5.", "1.", "007x", "1a", "٣", "١٢", "1٣", "²", "½", "Ⅷ", "一", "yes", "no", "on", "off", "y", "n", "t", "f", "T", "F", "undefined", "NaN", "Inf", "Infinity", "nil", "NULL1", "@1", "@", "a@b", "@null", "+a", "a.b", "a.", "x.1", "1 5", "1 000", "1.5 2.5", "12 monkeys", "e", "e1", "E5", "_", "_1", "__", "None1", "Nonex", "NONE", "nOne", "Truth", "trueish", "falsehood", "nullable"]
        for w in ws:
            must = w[0] not in "@+" and all(c.isalnum() or c in "_@. " for c in w) and w.strip().lower() not in KEYWORDS
            for props in ([["k", w, w]], [["j", "1", 1], ["k", w, w], ["l", "'z'", "z"]], [["k", w, w], ["l", w, w]]):
                yield {"p": node(props), "must": must}
                yield {"p": [["", "A", None], ["", "R", props, "<"], ["", "B", props]], "must": must}
            for c in "'\"":
                yield {"p": node([["k", f"{c}{w}{c}", w], ["l", f"[{c}{w}{c}, 1]", [w, 1]]]), "must": must}

    ctx.run_all("looks", looks, batch=50, bounds="bare and quoted texts that look like numbers, keywords, versions, dates or addresses")

    ctx.run_all("words", words, batch=50, bounds="texts that look like keywords and numbers, in every case, bare, quoted and in lists")

    ITEMS = [("1", 1), ("0", 0), ("2.5", 2.5), ("10", 10), ("true", True), ("false", False), ("null", None), ("'a'", "a"), ('"b c"', "b c"), ("'true'", "true"), ('"1"', "1"), ("'null'", "null"), ('"a@b.c"', "a@b.c"), ("''", "")]
    ODD = [("'a, b'", "a, b"), ('"[1]"', "[1]"), ("'x,'", "x,"), ('","', ","), ("' '", " "), ('"it\'s"', "it's"), ("'k: 1'", "k: 1")]

    def lists():
        for n in range(0, (3 if q else 4) + 1):
            for t in itertools.product(ITEMS, repeat=n):
                v = [x[1] for x in t]
                yield {"p": node([["k", "[" + ", ".join(x[0] for x in t) + "]", v]]), "must": n > 0}
                if n < 3:
                    yield {"p": node([["k", "[" + ",".join(x[0] for x in t) + "]", v], ["m", "1", 1]]), "must": n > 0}
                    yield {"p": node([["m", "'y'", "y"], ["k", "[ " + " , ".join(x[0] for x in t) + " ]", v]]), "must": n > 0}
        for n in (1, 2, 3):
            for t in itertools.product(ITEMS[:7:2] + ITEMS[7:8] + ODD, repeat=n):
                if any(x in ODD for x in t):
                    yield {"p": node([["k", "[" + ", ".join(x[0] for x in t) + "]", [x[1] for x in t]], ["m", "true", True]]), "must": False}

    ctx.run_all("lists", lists, batch=300, bounds=f"all lists of up to {3 if q else 4} of {len(ITEMS)} items")

    V = [("1", 1), ("2.5", 2.5), ("true", True), ("false", False), ("null", None), ("'x y'", "x y"), ('"z_1"', "z_1"), ("bare", "bare"), ("[1, 'a', null]", [1, "a", None]), ('["b", 2.5, true]', ["b", 2.5, True]), ("'a@b.c'", "a@b.c"), ("0", 0), ("100", 100)]

    def dicts():
        for n in (2, 3) if q else (2, 3, 4):
            for t in itertools.product(V, repeat=n):
                if n == 4 and len({x[0] for x in t}) < 3:
                    continue
                yield {"p": node([["pqrs"[i], x[0], x[1]] for i, x in enumerate(t)]), "must": True}

    ctx.run_all("among others", dicts, batch=300, bounds=f"every sequence of 2 and 3 of {len(V)} values in one node")

    def places():
        for d in itertools.product("><", repeat=2):
            for a, b in itertools.product(range(len(V)), repeat=2):
                for i in range(5):
                    p = [["", "A", None], ["", "R", None, d[0]], ["", "B", None], ["", "S", None, d[1]], ["", "C", None]]
                    p[i][2] = [["x", *V[a]]]
                    p[(i + 1 + (a + b) % 4) % 5][2] = [["x", *V[b]]]
                    yield {"p": p, "must": True}

    ctx.run_all("places", places, batch=100, bounds="every pair of values at the nodes and relationships of three node patterns")

    def names():
        ns = ["a", "A", "a1", "_x", "true", "null", "false", "none", "make", "find", "report", "float", "property_name", "wn", "node_label", "node_metadata", "relations", "properties", "x" * 40, "é", "1", "1a"]
        for n, m in itertools.permutations(ns, 2):
            yield {"p": node([[n, "1", 1], [m, "'v'", "v"]]), "must": True}
        for n in ns:
            for v in V:
                yield {"p": [["", "A", [[n, *v]]], ["", "R", [[n, *v]], "<"], ["", "A", None]], "must": True}

    ctx.run_all("names", names, batch=100, bounds="22 property names, alone and in pairs, with every value")

    def sizes():
        for n in range(1, (300 if q else 1200) + 1):
            w = "".join("abc de_f@.1"[i % 11] for i in range(n)).strip(" .") + "x"
            for v, x in ((f"'{w}'", w), (f'"{w}"', w), (w, w), (f"[1, '{w}']", [1, w])):
                yield {"p": node([["j", "1", 1], ["k", v, x], ["l", "'z'", "z"]]), "must": True}
            d = "".join("9081726354"[i % 10] for i in range(n))
            yield {"p": node([["k", d, int(d)]]), "must": True}
            if n < 300:
                for f in (d + ".5", "3." + d):
                    yield {"p": node([["k", f, float(f)]]), "must": True}
        for n in sorted({k + d for k in (1000, 1024, 4096, 10000, 16384, 32768, 65536, 100000) for d in (-1, 0, 1)}):
            w = ("some words @1.5_" * (n // 16 + 1))[: n - 1] + "x"
            for v, x in ((f"'{w}'", w), (f'"{w}"', w), (f"[1, '{w}']", [1, w])) + (((w, w),) if n < 20000 or not q else ()):
                yield {"p": node([["j", "1", 1], ["k", v, x], ["l", "'z'", "z"]]), "must": True}
        for n in (500, 1000, 2500, 5000) if q else (500, 1000, 2500, 5000, 20000):
            t = [ITEMS[(i * 5 + n) % len(ITEMS)] for i in range(n)]
            yield {"p": node([["k", "[" + ", ".join(x[0] for x in t) + "]", [x[1] for x in t]]]), "must": True}
            t = [V[(i * 3 + n) % len(V)] for i in range(n)]
            yield {"p": node([[f"p{i}", *x] for i, x in enumerate(t)]), "must": True}
            yield {"p": [["", "A", None], ["", "R", [[f"p{i}", *x] for i, x in enumerate(t)], "<"], ["", "B", [["x" * n, "1", 1]]]], "must": True}
        # decimals of which the largest cannot be stored
        for n in range(300, 320):
            for d in ("9" * n, "1" + "0" * n):
                for f in (d + ".5", f"[{d}.5]", f"[1, {d}.0, 'a']"):
                    yield {"p": node([["k", f, "?"]]), "read": 1, "must": n < 308}
        for n in range(1, 340):
            yield {"p": node([["k", f"[1e{n}, 'a']", "?"]]), "read": 1, "must": False}
        for n in range(1, 80 if q else 300):
            t = [ITEMS[(i * 5 + n) % len(ITEMS)] for i in range(n)]
            yield {"p": node([["k", "[" + ", ".join(x[0] for x in t) + "]", [x[1] for x in t]]]), "must": True}
            t = [V[(i * 3 + n) % len(V)] for i in range(n)]
            yield {"p": node([[f"p{i}", *x] for i, x in enumerate(t)]), "must": True}
            yield {"p": [["", "A", None], ["", "R", [[f"p{i}", *x] for i, x in enumerate(t)], "<"], ["", "B", [["x" * n, "1", 1]]]], "must": True}

    ctx.run_all("sizes", sizes, batch=40, bounds="texts and numbers of 1 to 300 characters, texts of up to 100001, lists and nodes and relationships with 1 to 79 and up to 5000 values")

    def mixed():
        ws = ["true", "null", "false", "True", "it", "s", "1", ","]
        for a, b in itertools.product(ws, repeat=2):
            for sep in ("'", " ", "' ", "''", " '"):
                t = f"{a}{sep}{b}"
                vs = [(f'"{t}"', t)] + ([(f"'{t}'", t)] if "'" not in t else [])
                u = t.replace("'", '"')
                if u != t:
                    vs.append((f"'{u}'", u))
                for v, x in vs:
                    yield {"p": node([["k", v, x], ["l", "'z'", "z"]]), "must": False}
                    for w, y in [("1", 1), ("true", True), ("null", None), ("'true'", "true"), ('"null"', "null"), ('"don\'t"', "don't"), ("'\"'", '"')]:
                        yield {"p": node([["k", f"[{v}, {w}]", [x, y]], ["l", "'z'", "z"]]), "must": False}
                        yield {"p": node([["k", f"[{w}, {v}, {w}]", [y, x, y]]]), "must": False}

    ctx.run_all("mixed", mixed, batch=100, bounds="texts of two words with the other kind of quote, alone and in lists with keywords and other texts")

    def alike():
        # one value for each in the same node, in two nodes of a statement, and in a list
        for a, b in [*W.pairs(), *W.long_pairs(), *W.ALIKE_TEXT, *[(y, x) for x, y in W.ALIKE_TEXT]]:
            vs = []
            for w in (a, b):
                c = "'" if "'" not in w else '"'
                vs.append([f"{c}{w}{c}", w])
            (v, x), (w, y) = vs
            must = plain_text(a) and plain_text(b) and a.isascii() and b.isascii() and not set("\t\n\r\x0b\x0c\x1c\x1d\x85") & set(a + b)
            yield {"p": node([["k", v, x], ["l", w, y]]), "must": must}
            yield {"p": node([["k", f"[{v}, {w}, {v}]", [x, y, x]]]), "must": must}
            yield {"p": [["", "A", [["k", v, x]]], ["", "R", [["k", w, y]], ">"], ["", "A", [["k", v, x]]]], "must": must}
            if all(c.isalnum() or c == "_" for c in a + b):
                yield {"p": node([[a, "1", 1], [b, "2", 2]]), "must": a.isascii() and b.isascii()}
                yield {"p": [["", "A", [[a, v, x]]], ["", "R", [[b, w, y]], "<"], ["", "A", [[b, v, x], [a, w, y]]]], "must": must}

    ctx.run_all("alike", alike, batch=50, bounds=f"{2 * len(W.ALIKE) + 2 * len(W.ALIKE_TEXT)} pairs of values or property names that are almost the same, and long ones")

    def clause_words():
        # words of the language inside of texts
        ws = ["a", "make", "find", "Report", "MAKE", "FIND", "null", "true", "1"] if q else ["a", "make", "find", "report", "Report", "MAKE", "FIND", "null", "true", "false", "1", "2.5", "@"]
        for n in (2, 3, 4):
            for t in itertools.product(ws, repeat=n):
                if n == 4 and len({x.lower() for x in t} & {"make", "find", "report"}) < 2:
                    continue
                for sep in (" ", "  ", "_", "") if n < 4 else (" ",):
                    s = sep.join(t)
                    for c in "'\"":
                        yield {"p": node([["k", f"{c}{s}{c}", s]]), "must": plain_text(s)}
                    if n < 4:
                        yield {"p": node([["j", "1", 1], ["k", f"[{c}{s}{c}, 2, {c} {s} {c}]", [s, 2, f" {s} "]], ["l", f"{c} {s} {c}", f" {s} "]]), "must": plain_text(s)}
                        yield {"p": [["", "A", None], ["", "R", [["k", f"'{s}'", s], ["l", s, "?"]], "<"], ["", "B", None]], "read": 1, "must": plain_text(s) and s[0].isalpha()}

    ctx.run_all("clause words", clause_words, batch=300, bounds="texts of two to four words of the language and others, in quotes, bare and in lists, at nodes and relationships")
