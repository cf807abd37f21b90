"""What must be true after a crash or a fault (C16, C20, C22)."""
import io
import os
import shutil

from mc import core
from mc import history as H
from mc import model as M
from mc import sut
from mc.core import new_dir

NAME = "p"


def template(hist):
    """A folder with a database after the history, and its state."""
    top = new_dir()
    st = H.State(top)
    st, viol, _, _ = core.in_fork(H.run_segment, st, [["new", NAME]] + [list(x) for x in hist], None, timeout=60)
    if viol:
        raise AssertionError(f"the history itself fails: {viol[0][1]}")
    return top, st


_warm = []


def warm():
    """Uses a database in this process, so that its forks need not start from cold caches."""
    if _warm:
        return
    import gc

    g = sut.create("w", new_dir())
    for n in ("m", "makefind", "find1", "bad", "c"):
        sut.query(H.QUERIES[n][1], g)
    gc.collect()
    gc.freeze()
    _warm.append(1)


def clone(top):
    d = new_dir()
    shutil.copytree(top, d, dirs_exist_ok=True)
    return d


def shape_of(content):
    import re

    return re.sub(rb'"(created_at|updated_at)": [0-9.]+', b"t", content)


PROBE_MAKE = ("MAKE (:Pa {i: 1})-[:PR]->(:Pb);", [[["", "Pa", [["i", "1", 1]]], ["", "PR", None, ">"], ["", "Pb", None]]])


def check_state(folder, before, used, inflight, must=None, name=NAME):
    """The state of a database after a disaster: (problems, Db, which of the optional groups are stored).

    inflight: list of pattern lists, one per query that may be stored or not; must: the indices of those that
    have to be stored, or None for none.
    """
    bad = []
    try:
        g = H.paths(folder, name)
    except FileNotFoundError as e:
        return [f"a file of the database is missing {e}"], None, None
    try:
        db = sut.Db(g)
    except sut.Corrupt as e:
        return [f"{e}"], None, None
    d = sut.diff(before, db)
    if d is None:
        return [f"what earlier queries stored is lost or changed: {before.nodes} {before.rels} -> {db.nodes} {db.rels}"], db, None
    new = db.components(d[0], d[1])
    must = must or ()
    options = [()]
    for i in range(len(inflight)):
        if i in must:
            options = [o + (i,) for o in options]
        else:
            options = options + [o + (i,) for o in options]
    for opt in options:
        if new == M.canon([p for i in opt for p in inflight[i]]):
            break
    else:
        bad.append(f"new is {new}; expected are {'all' if must else 'all or nothing'} of the interrupted queries")
        opt = None
    if set(list(d[0]) + list(d[1])) & used:
        bad.append("numbers are used again")
    bad += db.integrity()
    bad += db.index_errors(superset=True)
    return bad, db, opt


def check_after(folder, before, used, g=None, name=NAME, cached=None):
    """Later queries work. Returns problems. cached: results by content of the folder."""
    g = g or H.paths(folder, name)
    bad = []
    used = used | set(before.nodes) | set(before.rels)
    with sut.captured(io.StringIO()):
        listed = sut.S.list_existing_dbms(path_to_dbms_dir=folder)
    if name not in listed:
        bad.append(f"the database is not listed: {listed}")
    if before.nodes:
        label = sorted(n[0] for n in before.nodes.values())[0]
        ok, err, out = sut.query(f"FIND (:{label});", g)
        if not ok or sut.no_results(out):
            bad.append(f"a later FIND of the stored label {label}: {err or out!r}")
    for r in sorted((r for r in before.rels.values() if r[0]))[:1]:
        a, b = before.nodes[r[1]][0], before.nodes[r[2]][0]
        ok, err, out = sut.query(f"FIND (:{a})-[:{r[0]}]->(:{b});", g)
        if not ok or sut.no_results(out):
            bad.append(f"a later FIND of the stored relationship {r[0]}: {err or out!r}")
    ok, err, out = sut.query("FIND (:NoSuchLabel);", g)
    if not ok or not sut.no_results(out):
        bad.append(f"a later FIND of an unknown label: {err or out!r}")
    last = before
    for text, pats in (PROBE_MAKE, H.QUERIES["m"][1:]):
        ok, err, out = sut.query(text, g)
        if not ok:
            bad.append(f"a later MAKE fails: {err}")
            break
        try:
            after = sut.Db(g)
        except sut.Corrupt as e:
            bad.append(f"after a later MAKE: {e}")
            break
        d = sut.diff(last, after)
        if d is None:
            bad.append("a later MAKE changes what is stored")
            break
        if after.components(d[0], d[1]) != M.canon(pats):
            bad.append(f"a later MAKE stores {after.components(d[0], d[1])}")
        if (set(d[0]) | set(d[1])) & used:
            bad.append(f"a later MAKE uses numbers again: {sorted((set(d[0]) | set(d[1])) & used)}")
        used |= set(d[0]) | set(d[1])
        bad += after.integrity()
        bad += after.index_errors(superset=True)
        last = after
    ok, err, out = sut.query("FIND (:Pa)-[:PR]->(:Pb);", g)
    if not bad and (not ok or sut.no_results(out)):
        bad.append(f"a FIND of what a later MAKE stored: {err or out!r}")
    return bad
