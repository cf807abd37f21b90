"""Malformed patterns: every kind of malformation at every position of every pattern shape.

Only malformations that the documentation or an error message of the language names are listed.
Each item is (kind, text of the pattern).
"""
import itertools

DIRS = "><"
SHAPES = [()] + [(d,) for d in DIRS] + [(a, b) for a in DIRS for b in DIRS]

BAD_PROPS = [
    ("missing colon", "{i 1}"),
    ("missing colon", "{i: 1, j 2}"),
    ("missing comma", "{i: 1 j: 2}"),
    ("empty value", "{i: }"),
    ("empty value", "{i: 1, j: }"),
    ("empty value", "{i: , j: 2}"),
    ("missing brace", "{i: 1"),
    ("missing brace", "i: 1}"),
    ("upper case bool", "{i: True}"),
    ("upper case bool", "{i: 1, j: False}"),
    ("upper case null", "{i: NULL}"),
    ("none as text", "{i: None}"),
    ("list missing comma", "{l: [1 2]}"),
    ("list missing comma", "{l: ['a' 'b']}"),
    ("list missing bracket", "{l: [1, 2}"),
    ("list missing bracket", "{l: 1, 2]}"),
    ("list of lists", "{l: [[1], 2]}"),
    ("illegal character", "{s: 'a#b'}"),
    ("illegal character", "{s: \"50%\"}"),
    ("given twice", "{i: 1, i: 2}"),
    ("unreadable", "{i: 1} x"),
]
ILLEGAL = "#%&*$"


def parts(shape):
    n = len(shape) + 1
    nodes = [[f"h{i}", f"L{i}", " {p: %d}" % i] for i in range(n)]
    rels = [[f"r{i}", f"R{i}", " {q: %d}" % i, shape[i]] for i in range(len(shape))]
    return nodes, rels


def loose(text):
    """The same query with whitespace between all its tokens (but none within words and texts)."""
    out, quote = [], None
    for i, c in enumerate(text):
        out.append(c)
        if quote:
            quote = None if c == quote else quote
        elif c in "'\"":
            quote = c
        elif i + 1 < len(text) and ((c in "([{:,;" and text[i + 1] not in " \n") or (text[i + 1] in ")]};{" and c not in " \n")):
            out.append(" \n" if c == ":" else " ")
    return "".join(out)


def ntext(n):
    return f"({n[0]}:{n[1]}{n[2]})"


def rtext(r):
    b = f"[{r[0]}:{r[1]}{r[2]}]"
    return f"-{b}->" if r[3] == ">" else f"<-{b}-"


def join(nt, rt):
    s = nt[0]
    for r, n in zip(rt, nt[1:]):
        s += r + n
    return s


def good_pattern(shape):
    nodes, rels = parts(shape)
    return join([ntext(n) for n in nodes], [rtext(r) for r in rels])


def bad_patterns(shape, find=False):
    nodes, rels = parts(shape)
    nt, rt = [ntext(n) for n in nodes], [rtext(r) for r in rels]

    def with_node(i, t):
        return join(nt[:i] + [t] + nt[i + 1 :], rt)

    def with_rel(i, t):
        return join(nt, rt[:i] + [t] + rt[i + 1 :])

    for i, n in enumerate(nodes):
        h, l, p = n
        if not find:
            for t in ("()", f"({h})", f"({h}:)", f"(:{p})"):
                yield "no label", with_node(i, t)
        yield "missing parenthesis", with_node(i, f"({h}:{l}{p}")
        yield "missing parenthesis", with_node(i, f"{h}:{l}{p})")
        yield "two labels", with_node(i, f"({h}:{l}:X)")
        for c in ILLEGAL:
            yield "illegal character", with_node(i, f"({h}:{l}{c}{p})")
        yield "illegal character", with_node(i, f"(#{h}:{l}{p})")
        for kind, b in BAD_PROPS:
            yield kind, with_node(i, f"({h}:{l} {b})")
    for i, r in enumerate(rels):
        h, m, p, d = r
        a, z = ("-", "->") if d == ">" else ("<-", "-")
        for name in (f"[{h}:{m}{p}]", f"[:{m}]", "[]", f"[{h}:]"):
            yield "undirected", with_rel(i, f"-{name}-")
            yield "bidirectional", with_rel(i, f"<-{name}->")
        for name in (m.lower(), "Rel", "rEL", "REl", "r", "rel_1"):
            yield "not upper case", with_rel(i, f"{a}[{h}:{name}{p}]{z}")
            yield "not upper case", with_rel(i, f"{a}[:{name}]{z}")
        yield "missing bracket", with_rel(i, f"{a}{h}:{m}{p}]{z}")
        yield "missing bracket", with_rel(i, f"{a}[{h}:{m}{p}{z}")
        for c in ILLEGAL:
            yield "illegal character", with_rel(i, f"{a}[{h}:{m}{c}{p}]{z}")
        for kind, b in BAD_PROPS:
            yield kind, with_rel(i, f"{a}[{h}:{m} {b}]{z}")
    m = len(nodes) + len(rels)
    for i, j in itertools.combinations(range(m), 2):
        ns, rs = [list(n) for n in nodes], [list(r) for r in rels]
        allp = ns + rs
        allp[j][0] = allp[i][0]
        yield "same handle twice", join([ntext(n) for n in ns], [rtext(r) for r in rs])
    for d in DIRS:
        r = rtext(["", "X", "", d])
        if len(shape) < 2:
            yield "dangling relationship", join(nt, rt) + r
        yield "dangling relationship", r + join(nt, rt)
    if len(shape) == 2:
        yield "four nodes", join(nt, rt) + "-[:X]->(:Y)"


def spots(maxs, maxp, shape_cycle):
    """Statement structures: lists of lists of good patterns, with one slot left open (None)."""
    good = [good_pattern(s) for s in shape_cycle]
    for ns in range(1, maxs + 1):
        for counts in itertools.product(range(1, maxp + 1), repeat=ns):
            for si in range(ns):
                for pi in range(counts[si]):
                    k = 0
                    st = []
                    for a in range(ns):
                        row = []
                        for b in range(counts[a]):
                            row.append(None if (a, b) == (si, pi) else good[k % len(good)])
                            k += 1
                        st.append(row)
                    yield st


def render(st, bad, word="MAKE"):
    return "\n".join(f"{word} " + ", ".join(bad if p is None else p for p in row) + ";" for row in st)
