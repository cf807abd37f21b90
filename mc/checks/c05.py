"""C05: the indexes say exactly what is stored."""
import itertools

from mc import history as H
from mc import words as W

ID = "C05"
RULE = "every history of the given length over the alphabet is run on the real code; after every step the indexes are compared with the stored graph"
ASSUMPTIONS = ["a restart is a fork of a process that has imported the code and not yet run any of it", "an empty relationship name in the index stands for unnamed relationships and names nothing"]
KINDS = {"index"}


class Loader:
    def begin(self, st):
        from wiggle_query_language.graph.database.indexes.node_labels_index import load_node_labels_index
        from wiggle_query_language.graph.database.indexes.node_relationships_index import load_node_relationships_index
        from wiggle_query_language.graph.database.indexes.relationship_names_index import load_relationship_names_index

        self.l, self.r, self.n = load_node_labels_index, load_node_relationships_index, load_relationship_names_index

    def before(self, st, op):
        pass

    def after(self, st, op, g, before, after, ok, out):
        p = g.indexes_file_path
        labels = {n[0] for n in after.nodes.values()}
        names = {r[0] for r in after.rels.values() if r[0]}
        rels = {}
        for wn, r in after.rels.items():
            rels.setdefault(str(r[4]), set()).add(wn)
        if set(self.l(p)) != labels:
            yield "index", f"label index loaded as {self.l(p)}, stored labels {labels}"
        if {x for x in self.n(p) if x} != names:
            yield "index", f"name index loaded as {self.n(p)}, stored names {names}"
        got = {str(k): set(v) for k, v in self.r(p).items()}
        if got != rels:
            yield "index", f"relationship index loaded as {got}, stored {rels}"


def run(scn):
    return H.run_history([list(x) for x in scn["ops"]], KINDS, Loader())


def explore(ctx):
    q = ctx.quick
    P = lambda *names: [["q", "p", n] for n in names]  # noqa
    alpha = P("n", "r", "l", "u", "t", "c", "o", "m", "w", "bad", "makefind")

    def deep():
        for n in range(1, (3 if q else 5) + 1):
            for t in itertools.product(alpha, repeat=n):
                yield {"ops": [["new", "p"], *t]}

    ctx.run_all("histories", deep, batch=20, bounds=f"all histories of up to {3 if q else 5} of {len(alpha)} queries")
    mixed = P("r", "o", "badrel", "badfind", "find") + [["q", "pq", "c"], ["recreate", "pq"], ["restart"]]

    def mix():
        for n in range(2, (4 if q else 5) + 1):
            for t in itertools.product(mixed, repeat=n):
                if t[-1] == ["restart"] or t[0] == ["restart"]:
                    continue
                yield {"ops": [["new", "p"], ["new", "pq"], *t]}

    ctx.run_all("mixed", mix, batch=20, bounds=f"all histories of up to {4 if q else 5} of {len(mixed)} operations with refused queries, FINDs, restarts and a second database")

    def shapes():
        """Every assignment of labels and names to a pattern pair, so that indexes of one query overlap."""
        from mc import model as M

        labels, names = (["A", "B", "R"], ["R", "", "A"]) if q else (["A", "B", "AB", "R", "h"], ["R", "", "S", "A"])
        for d in (">", "<", ">>", "><", "<>", "<<"):
            m = len(d)
            for ls in itertools.product(labels, repeat=m + 1):
                for ns in itertools.product(names, repeat=m):
                    p = [["", ls[0], None]]
                    for i in range(m):
                        p += [["", ns[i], None, d[i]], ["", ls[i + 1], None]]
                    yield {"p": p}
                    for h in (("R", "A", "h"), ("B", "h", "A")):
                        p = [["", ls[0], None]]
                        for i in range(m):
                            p += [["", ns[i], [["A", "1", 1]] if i else None, d[i]], [h[i], ls[i + 1], [["R", "'B'", "B"]]]]
                        p[0][0] = h[2]
                        yield {"p": p}

    ctx.run_all("shapes", shapes, batch=50, run=run_shape, bounds="every pattern shape with every assignment of 3 labels and 3 names (5 and 4 in thorough) that are partly the same words, also as handles and property names, made twice")

    def alike():
        """Labels and names that are alike, in one query and in two, over processes."""
        words = [*W.pairs(), *W.long_pairs((15, 16, 31, 32, 63, 64, 127, 128, 255, 256))]
        L = lambda *ws: H.pats(*([["", w, None]] for w in ws))  # noqa
        N = lambda *ws: H.pats(*([["", "A", None], ["", w, None, ">"], ["", "A", None]] for w in ws))  # noqa
        for a, b in words:
            yield {"ops": [["new", "p"], L(a), L(b), L(a, b)]}
            yield {"ops": [["new", "p"], L(a, b), ["restart"], ["q", "p", "r"]]}
        for a, b in W.name_pairs():
            yield {"ops": [["new", "p"], N(a), N(b), N(a, b)]}
            yield {"ops": [["new", "p"], N(b, a), ["restart"], L(a, b)]}
            yield {"ops": [["new", "p"], L(a), N(b), L(b)]}

    ctx.run_all("alike", alike, batch=20, bounds="pairs of labels and names that are alike (in case, script, length, the last letter), in one query and in several")

    def sizes():
        for n in [*range(2, 34), 63, 64, 65, 99, 100, 101, 127, 128, 129, 255, 256, 257, 300, 511, 513, 700, 1025, 2600] if q else [*range(2, 140), 199, 200, 255, 256, 257, 300, 499, 500, 511, 512, 513, 999, 1000, 1023, 1024, 1025, 2049, 3000, 4097]:
            yield {"ops": [["new", "p"], ["q", "p", f"wide{n}"], ["q", "p", "t"], ["restart"], ["q", "p", "c"]]}
            if n < 600:
                yield {"ops": [["new", "p"], ["q", "p", "o"], *([["q", "p", f"wide{n - k}"] for k in (2, 1, 0) if n > k])]}
        for n in (12, 40, 110) if q else (12, 40, 110, 300):
            # one after another
            yield {"ops": [["new", "p"], *(H.pats([["", f"K{i}", None], ["", f"M{i}", None, "<>"[i % 2]], ["", "K", None]]) for i in range(n))]}
            yield {"ops": [["new", "p"], ["new", "pq"], *(["q", ("p", "pq")[i % 2], f"wide{i + 1}"] for i in range(n))]} if n < 120 else {"ops": [["new", "p"], ["q", "p", "n"]]}

    ctx.run_all("sizes", sizes, batch=2, bounds="queries with 2 to 2600 different labels and names, and up to 110 queries one after another")


def run_shape(scn):
    from mc import model as M

    H.QUERIES["shape"] = ("make", M.stmt_text("MAKE", [scn["p"]]), [scn["p"]])
    return H.run_history([["new", "p"], ["q", "p", "shape"], ["q", "p", "shape"], ["q", "p", "r"]], KINDS, Loader())


_run = run


def run(scn):  # noqa
    return run_shape(scn) if "p" in scn else _run(scn)
