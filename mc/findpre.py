"""The prepared form of a FIND as plain data, from the real code and from the model."""
from mc.sut import pkey
from models.wql import ParsedCriteria
from models.wql.parsing.parsed_query import ParsedCriteriaYesNo
from wiggle_query_language.clauses.find.parse_find.parse_find_statement import parse_find_statement_from_query_string
from wiggle_query_language.clauses.find.transform.find_pre import process_parsed_find


def criteria(c):
    """c: {handle: [yes dict, no dict]}"""
    if c is None:
        return None
    return ParsedCriteria(
        raw_statement="CRITERIA x",
        criteria_handle_props={h: ParsedCriteriaYesNo(props_dict_yes_match=dict(y), props_dict_no_match=dict(n)) for h, (y, n) in c.items()},
    )


def _node(n):
    if n is None:
        return None
    return (n.node_label, n.node_handle or None, pkey(n.props_dict_yes), pkey(n.props_dict_no), tuple(sorted(_rel(r) for r in n.relationships)))


def _rel(r):
    return (r.rel_name or "", r.rel_handle or "", pkey(r.props_dict_yes), pkey(r.props_dict_no))


def plain(fp):
    return (_node(fp.left_node), _node(fp.middle_node), _node(fp.right_node), tuple(sorted(fp.node_labels)), tuple(sorted(x for x in fp.relationship_names if x)))


def real(text, crit=None):
    """Returns (plain form | None, error)."""
    try:
        pf = parse_find_statement_from_query_string(text)
        if pf is None:
            return None, "no FIND"
        return plain(process_parsed_find(parsed_find=pf, parsed_criteria=criteria(crit))), None
    except Exception as e:
        return None, f"{type(e).__name__}: {e}"


def flat(forms):
    """The nodes, labels and names of several prepared patterns, whatever pattern they are in."""
    nodes = sorted((repr(n), n) for f in forms for n in f[:3] if n is not None)
    return (tuple(n for _, n in nodes), tuple(sorted({x for f in forms for x in f[3]})), tuple(sorted({x for f in forms for x in f[4]})))


def real_all(text, crit=None):
    """All patterns of a FIND: (flat form | None, error)."""
    try:
        c = criteria(crit)
        pf = parse_find_statement_from_query_string(text)
        if pf is None:
            return None, "no FIND"
        forms = [plain(process_parsed_find(parsed_find=pf, parsed_criteria=c))]
        for p in getattr(pf, "further_parsed_patterns", None) or []:
            forms.append(plain(process_parsed_find(parsed_find=pf.copy(update={"parsed_pattern": p}), parsed_criteria=c)))
        return flat(forms), None
    except Exception as e:
        return None, f"{type(e).__name__}: {e}"


def expected(pattern, crit=None):
    crit = crit or {}
    nodes = []
    for i in (0, 2, 4):
        if i >= len(pattern):
            nodes.append(None)
            continue
        h, l, p = pattern[i]
        rels = []
        for j, end in ((i - 1, "<"), (i + 1, ">")):
            if 0 <= j < len(pattern) and pattern[j][3] == end:
                rh, rn, rp, _ = pattern[j]
                y, n = crit.get(rh, ({}, {})) if rh else ({}, {})
                rels.append((rn or "", rh or "", pkey({**{a: v for a, _, v in rp or []}, **y}), pkey(n)))
        y, n = crit.get(h, ({}, {})) if h else ({}, {})
        nodes.append((l, h or None, pkey({**{a: v for a, _, v in p or []}, **y}), pkey(n), tuple(sorted(rels))))
    return (*nodes, tuple(sorted({x[1] for x in pattern[::2]})), tuple(sorted({x[1] for x in pattern[1::2] if x[1]})))
