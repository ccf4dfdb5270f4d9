"""Enumeration of small commit graphs and label-level observation.

A graph is a dict label -> list of parent labels, in topological order.  The
main branch is m0 - m1 - ...; drafts are a, b, c, ...  Every commit adds one
file named after it, so that a commit's tree spells out which changes it
contains, whatever its position."""
import itertools

from . import core
from .repo import build_repo, QueryFailed

DRAFTS = "abcdefgh"


def forests(n_main, n_drafts):
    """All heap-ordered forests: draft i hangs off any main commit or any
    earlier draft."""
    mains = ["m%d" % i for i in range(n_main)]
    base = {}
    for i, m in enumerate(mains):
        base[m] = [mains[i - 1]] if i else []
    choices = [mains + list(DRAFTS[:i]) for i in range(n_drafts)]
    for combo in itertools.product(*choices):
        g = dict(base)
        for i, p in enumerate(combo):
            g[DRAFTS[i]] = [p]
        yield g


def canon(g, marks=None):
    """Canonical form of a forest with distinguishable main commits, for
    skipping graphs that differ only in the naming of the drafts."""
    kids = {}
    for k, ps in g.items():
        for p in ps:
            kids.setdefault(p, []).append(k)

    def rec(k):
        sub = sorted(rec(c) for c in kids.get(k, []))
        return (k if k.startswith("m") else "", str((marks or {}).get(k, "")), tuple(sub))

    return rec("m0")


def unlabelled(gs):
    seen = set()
    for g in gs:
        c = canon(g)
        if c not in seen:
            seen.add(c)
            yield g


def mains(g):
    return [k for k in g if k.startswith("m")]


def drafts(g):
    return [k for k in g if not k.startswith("m")]


def ancestors(g, k):
    """Inclusive."""
    seen, todo = set(), [k]
    while todo:
        x = todo.pop()
        if x not in seen:
            seen.add(x)
            todo.extend(g[x])
    return seen


def descendants(g, k):
    return {x for x in g if k in ancestors(g, x)}


def children(g, k):
    return [x for x in g if k in g[x]]


def files_of(g, k, extra=None):
    """Default contents: one file per ancestor."""
    return {"f_" + x: "contents of %s\n" % x for x in ancestors(g, k)}


def make(ctx, g, branches=None, head=None, hide=(), main=None, files=files_of, config=None, observe=None,
         messages=None, times=None, name="t"):
    ms = mains(g)
    commits = []
    for i, k in enumerate(g):
        c = (k, g[k], files(g, k), i)
        if messages and k in messages:
            c += (messages[k],)
        if times:
            # the author's clock runs backwards, so that the two cannot be confused
            c = c[:3] + (times[k], c[4] if len(c) > 4 else k + "\n", 1000 - times[k])
        commits.append(c)
    r, oids = build_repo(ctx.tmp(name), commits, main or ms[-1],
                         drafts=drafts(g) if observe is None else observe,
                         branches=branches, head=head, hide=hide, config=config)
    r.query("all()")  # warm the on-disk graph cache
    return r, oids


class Mismatch(Exception):
    pass


def observed(r, visible=None):
    """The visible commits as (label -> oid, label -> parent labels)."""
    vis = visible if visible is not None else r.query("all()")
    lab = {}
    for oid in vis:
        c = r.commit(oid)
        if c is None:
            raise Mismatch("visible commit %s does not exist" % oid)
        if c.label in lab:
            raise Mismatch("commit %r is visible twice: %s and %s" % (c.label, lab[c.label], oid))
        lab[c.label] = oid
    par = {}
    for k, oid in lab.items():
        ps = []
        for p in r.commit(oid).parents:
            c = r.commit(p)
            if c is None:
                raise Mismatch("parent %s of %s does not exist" % (p, k))
            if lab.get(c.label) != p:
                raise Mismatch("visible commit %r sits on an obsolete version of %r" % (k, c.label))
            ps.append(c.label)
        par[k] = ps
    return lab, par


def check_graph(r, want, old_oids, files=files_of, content=True, visible=None):
    """Compare the visible graph with the wanted parent map.

    Returns the label -> oid map; raises Mismatch.  A commit keeps its
    identity iff it and all its ancestors keep their parents."""
    lab, par = observed(r, visible)
    if set(lab) != set(want):
        raise Mismatch("visible commits are %s, expected %s" % (sorted(lab), sorted(want)))
    for k in want:
        if par[k] != want[k]:
            raise Mismatch("parents of %r are %s, expected %s (graph %s, expected %s)" % (
                k, par[k], want[k], fmt(par), fmt(want)))
    for k in want:
        o, n = r.commit(old_oids[k]), r.commit(lab[k])
        if content:
            got = {p: v[1].decode() for p, v in r.files(lab[k]).items()}
            exp = files(want, k)
            if got != exp:
                raise Mismatch("contents of %r are %s, expected %s" % (k, sorted(got), sorted(exp)))
        if o.message != n.message or o.author != n.author:
            raise Mismatch("message or author of %r changed: %r %r" % (k, n.author, n.message))
        same_position = o.parents == n.parents
        if same_position and o.tree == n.tree and lab[k] != old_oids[k]:
            raise Mismatch("%r was rewritten although nothing about it changed" % k)
    return lab


def fmt(par):
    return " ".join("%s<-%s" % ("+".join(v) or ".", k) for k, v in par.items())
