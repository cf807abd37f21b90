"""An independent reader of WQL statements: what a MAKE or FIND means, or Unreadable.

It is deliberately lenient about layout that loses nothing (a missing comma between two patterns,
longer arrows, a space instead of the colon in a relationship): the property it serves (C03) is that
nothing of an ACCEPTED statement is lost, not that nothing more is accepted than documented.
"""
import re


class Unreadable(Exception):
    pass


WORD = re.compile(r"\w+")
WS = re.compile(r"\s*")


def finite(t):
    x = float(t)
    if x in (float("inf"), float("-inf")) or x != x:
        raise Unreadable(f"{t!r} is not a number that can be stored")
    return x


def read_scalar(t):
    """A bare or quoted value."""
    if len(t) >= 2 and t[0] in "\"'" and t[-1] == t[0] and t[0] not in t[1:-1]:
        return t[1:-1]
    if t == "null":
        return None
    if t == "true":
        return True
    if t == "false":
        return False
    if re.fullmatch(r"[0-9]+", t):
        return int(t)
    if re.fullmatch(r"\d+\.\d+", t):
        return finite(t)
    if re.fullmatch(r"[\w+@.\s]+", t):
        if t.lower() in ("null", "true", "false"):
            raise Unreadable(f"keyword in another case {t!r}")
        return t
    raise Unreadable(f"value {t!r}")


def read_list(t):
    s = t[1:-1]
    items, i = [], 0
    n = len(s)
    while True:
        i = WS.match(s, i).end()
        if i >= n:
            break
        if s[i] in "\"'":
            j = s.find(s[i], i + 1)
            if j < 0:
                raise Unreadable("quote in list")
            items.append(s[i + 1 : j])
            i = j + 1
        else:
            j = s.find(",", i)
            j = n if j < 0 else j
            x = s[i:j].strip()
            if not x or any(c in x for c in "\"'[] \t\n"):
                raise Unreadable(f"list item {x!r}")
            items.append(read_list_scalar(x))
            i = j
        i = WS.match(s, i).end()
        if i < n:
            if s[i] != ",":
                raise Unreadable("missing comma in list")
            i += 1
    return items


def read_list_scalar(x):
    if x == "null":
        return None
    if x in ("true", "True"):
        return True
    if x in ("false", "False"):
        return False
    if x == "None":
        return None
    if re.fullmatch(r"[0-9_]+|0[xob][0-9a-fA-F_]+", x):
        return int(x, 0)
    try:
        return finite(x)
    except ValueError:
        raise Unreadable(f"list item {x!r}")


class P:
    def __init__(self, s):
        self.s, self.i = s, 0

    def ws(self):
        self.i = WS.match(self.s, self.i).end()

    def peek(self):
        self.ws()
        return self.s[self.i] if self.i < len(self.s) else ""

    def eat(self, c):
        if self.peek() != c:
            raise Unreadable(f"expected {c!r} at {self.i} of {self.s!r}")
        self.i += 1

    def word(self):
        self.ws()
        m = WORD.match(self.s, self.i)
        if not m:
            return ""
        self.i = m.end()
        return m.group()

    def props(self):
        if self.peek() != "{":
            return None
        self.i += 1
        res = []
        while True:
            # commas with nothing between them lose nothing
            while self.peek() == ",":
                self.i += 1
            if self.peek() == "}":
                self.i += 1
                break
            name = self.word()
            if not name:
                raise Unreadable("property name")
            self.eat(":")
            res.append([name, "", self.value()])
            c = self.peek()
            self.i += 1
            if c == "}":
                break
            if c != ",":
                raise Unreadable("after property")
        names = [p[0] for p in res]
        if len(set(names)) != len(names):
            raise Unreadable("property twice")
        return res

    def value(self):
        c = self.peek()
        if c == "":
            raise Unreadable("no value")
        if c in "\"'":
            j = self.s.find(c, self.i + 1)
            if j < 0:
                raise Unreadable("quote")
            v = self.s[self.i + 1 : j]
            self.i = j + 1
            return v
        if c == "[":
            j = self.i + 1
            q = None
            while j < len(self.s) and (q or self.s[j] != "]"):
                if q:
                    if self.s[j] == q:
                        q = None
                elif self.s[j] in "\"'":
                    q = self.s[j]
                j += 1
            if j >= len(self.s):
                raise Unreadable("list")
            v = read_list(self.s[self.i : j + 1])
            self.i = j + 1
            return v
        j = self.i
        while j < len(self.s) and self.s[j] not in ",}":
            j += 1
        t = self.s[self.i : j].strip()
        if not t or any(ch in t for ch in "\"'[]{}:()"):
            raise Unreadable(f"bare value {t!r}")
        self.i = j
        return read_scalar(t)

    def node(self):
        self.eat("(")
        h = self.word()
        self.eat(":")
        l = self.word()
        if not l:
            raise Unreadable("no label")
        p = self.props()
        self.eat(")")
        return [h or None, l, p]

    def rel(self):
        left = right = False
        if self.peek() == "<":
            left = True
            self.i += 1
        m = re.compile(r"-+\[").match(self.s, self.i)
        if not m:
            raise Unreadable("relationship")
        self.i = m.end()
        h = self.word()
        name = ""
        if self.peek() == ":":
            self.i += 1
        name = self.word()
        p = self.props()
        self.eat("]")
        m = re.compile(r"-+").match(self.s, self.i)
        if not m:
            raise Unreadable("relationship")
        self.i = m.end()
        if self.s[self.i : self.i + 1] == ">":
            right = True
            self.i += 1
        if left == right:
            raise Unreadable("direction")
        if name and not name.isupper():
            raise Unreadable("name not upper case")
        return [h or None, name, p, ">" if right else "<"]

    def pattern(self):
        p = [self.node()]
        while self.peek() in ("<", "-"):
            if len(p) >= 5:
                raise Unreadable("four nodes")
            p.append(self.rel())
            p.append(self.node())
        hs = [x[0] for x in p if x[0]]
        if len(set(hs)) != len(hs):
            raise Unreadable("handle twice")
        return p

    def patterns(self):
        res = [self.pattern()]
        while self.peek() != "":
            if self.peek() == ",":
                self.i += 1
            res.append(self.pattern())
        return res


STMT = re.compile(r"^(?P<junk>.*?)\b(?P<word>make|find)\s*(?P<body>\(.*)$", re.I | re.S)


def read_query(text):
    """The statements [(word, patterns)] of a query; text between statements is not looked at
    unless it contains a clause word."""
    res = []
    segs = text.split(";")
    if segs[-1].strip():
        if re.search(r"^\s*(make|find)\b|\b(make|find)\s*\(", segs[-1], re.I):
            raise Unreadable("statement without end")
    for seg in segs[:-1]:
        m = STMT.match(seg)
        if not m or m["junk"].strip():
            if re.match(r"\s*(make|find)\b", seg, re.I):
                raise Unreadable(f"not a statement {seg!r}")
        if not m:
            continue
        res.append((m["word"].upper(), P(m["body"]).patterns()))
    return res
