"""Words that are easily confused: pairs that are different, but alike in one respect."""

# pairs of words (labels, handles, property names, texts; in upper case also names)
ALIKE = [
    ("Node", "NODE"), ("node", "Node"), ("nODE", "Node"), ("A", "AA"), ("A", "A_"), ("_A", "A"), ("__A", "_A"), ("A1", "A01"), ("A1", "A2"), ("1", "01"), ("0", "00"), ("1", "11"),
    ("A", "\uff21"), ("\ufb01ne", "fine"), ("\u00e9", "e"), ("\u00c9", "\u00e9"), ("\u00df", "ss"), ("\u1e9e", "\u00df"), ("\u017f", "s"), ("\u212a", "K"), ("\u0131", "i"), ("\u0130", "i"), ("\u00b2", "2"), ("x\u00b2", "x2"), ("\u0661", "1"), ("\u00b5", "\u03bc"), ("\u00aa", "a"), ("\u2126", "\u03a9"), ("\uf900", "\u8c48"), ("\u01c6", "d\u017e"), ("\U0001d400", "A"),
    ("ab", "ba"), ("ab", "abab"), ("abc", "ab"), ("abc", "bc"), ("null", "Null"), ("true", "True"), ("None", "none"), ("nan", "NaN"), ("Infinity", "inf"), ("MAKE", "make"), ("make", "maker"), ("FIND", "find"), ("e1", "1e1"), ("1e1", "10"), ("1_0", "10"), ("x1", "1x"),
]  # fmt: skip
# the same for texts only
ALIKE_TEXT = [
    ("a b", "a  b"), ("a b", "ab"), (" a", "a"), ("a ", "a"), ("a\tb", "a b"), ("a\nb", "a b"), ("a\r\nb", "a\nb"), ("a.b", "ab"), ("a.", "a"), ("a@b", "ab"), ("1", "1.0"), ("1.0", "1.00"), ("-", "_"), ("a,b", "a, b"), ("", " "), ("it's", "its"), ('"', ""), ("{a}", "a"), ("[a]", "a"), ("a:b", "ab"),
    ("A ", "a"), ("Bob", "bob"), ("a\u00a0b", "a b"), ("a\u2003b", "a b"), ("\u0085", " "), ("\x0b", "\x0c"), ("\x1c", "\x1d"),
]  # fmt: skip


def pairs():
    for a, b in ALIKE:
        yield a, b
        yield b, a


def long_pairs(lengths=(15, 16, 31, 32, 63, 64, 100, 127, 128, 255, 256, 511, 512)):
    """Long words that differ in their last or first letter only."""
    for n in lengths:
        w = "".join("aBc9_"[i % 5] for i in range(n))
        yield w + "x", w + "y"
        yield w, w + "x"
        yield "x" + w, "y" + w


def all_words():
    seen = []
    for p in [*ALIKE, *long_pairs()]:
        for w in p:
            if w not in seen:
                seen.append(w)
    return seen


def is_name(w):
    return w.isupper()


def name_pairs():
    for a, b in [*pairs(), *long_pairs()]:
        a, b = a.upper(), b.upper()
        if a != b and a.isupper() and b.isupper():
            yield a, b
