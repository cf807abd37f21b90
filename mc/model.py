"""Abstract queries: their text and the graph that they describe. Kept deliberately plain.

node    = [handle, label, props]         props: list of [name, text, value] or None
rel     = [handle, name, props, dir]     dir: ">" or "<"
pattern = [node] | [node, rel, node] | [node, rel, node, rel, node]
"""
from mc.sut import canon_graph, pkey


def props_text(props):
    if props is None:
        return ""
    return " {" + ", ".join(f"{n}: {t}" for n, t, _ in props) + "}"


def node_text(n):
    return f"({n[0] or ''}:{n[1]}{props_text(n[2])})"


def rel_text(r):
    body = f"{r[0] or ''}:{r[1]}" if (r[0] or r[1] or r[2]) else ""
    body += props_text(r[2])
    return f"-[{body}]->" if r[3] == ">" else f"<-[{body}]-"


def pattern_text(p):
    return "".join(node_text(x) if i % 2 == 0 else rel_text(x) for i, x in enumerate(p))


def stmt_text(word, patterns):
    return f"{word} " + ", ".join(pattern_text(p) for p in patterns) + ";"


def pdict(props):
    return {n: v for n, _, v in (props or [])}


def graph_of(patterns, base=0):
    """The nodes {id: (label, props)} and relationships of a list of patterns."""
    nodes, rels = {}, []
    k = base
    for p in patterns:
        ids = []
        for i, x in enumerate(p):
            if i % 2 == 0:
                nodes[k] = (x[1], pkey(pdict(x[2])))
                ids.append(k)
                k += 1
        for i, x in enumerate(p):
            if i % 2 == 1:
                a, b = ids[i // 2], ids[i // 2 + 1]
                if x[3] == "<":
                    a, b = b, a
                rels.append((x[1] or "", a, b, pkey(pdict(x[2]))))
    return nodes, rels


def canon(patterns):
    return canon_graph(*graph_of(patterns))


def size(patterns):
    return sum(len(p) for p in patterns)


def labels(patterns):
    return {x[1] for p in patterns for x in p[::2]}


def names(patterns):
    return {x[1] for p in patterns for x in p[1::2] if x[1]}
