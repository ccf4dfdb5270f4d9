"""C02: squashing combines changes and loses nothing."""
import itertools

from ..graphs import (ancestors, children, descendants, drafts, fmt, forests, make, Mismatch, observed, unlabelled)
from ..repo import QueryFailed
from .c01 import vis_graph

PROPERTY = "C02"
LEVEL = "exploration"
TECHNIQUE = "bounded exhaustive enumeration of commit graphs x squash requests x change kinds on the real binary against a per-path model"
RULE = "distinct (graph, hidden set, contents, request) in which at least one commit was squashed"
BOUND = {
    "quick": "main branch of 2 commits, all forests of <=3 drafts (up to renaming), at most 1 hidden draft; modes "
             "source/base/exact(1..3 commits) x every destination; all sets of >=2 commits of a 5-chain and a 5-comb into its first two commits; change kinds add/edit/delete/mode/rename/"
             "file-to-directory per commit of a 3-chain, all orders",
    "thorough": "as quick with <=4 drafts",
}


class Refuse(Exception):
    pass


class Skip(Exception):
    """Meaningless request, not covered by the property."""


def order_for(g, E):
    return [k for k in g if k in E]


def model(g, mode, srcs, dest):
    """Returns (new parent map, squashed list)"""
    if mode in "sb":
        E = set()
        for s in srcs:
            if mode == "b":
                common = ancestors(g, s) & ancestors(g, dest)
                path = [k for k in ancestors(g, s) if k not in common]
                s = next((k for k in path if g[k] and g[k][0] in common), s)
            E |= descendants(g, s)
    else:
        E = set(srcs)
    if any(k.startswith("m") for k in E) or dest.startswith("m"):
        raise Refuse("public")
    if dest in E:
        raise Skip("a commit cannot be squashed into itself")
    new = {}
    for k in g:
        if k in E:
            continue
        p = g[k]
        while p and p[0] in E:
            p = g[p[0]]
        new[k] = list(p)
    return new, order_for(g, E)


def requests(g, only_dest=None):
    ds = drafts(g)
    for dest in g:
        if only_dest:
            if dest != only_dest:
                continue
            for n in range(2, len(ds)):
                for combo in itertools.combinations([d for d in ds if d != dest], n):
                    yield "x", list(combo), dest
            continue
        for d in ds:
            for mode in "sbx":
                yield mode, [d], dest
        for n in (2, 3):
            for combo in itertools.combinations(ds, n):
                yield "x", list(combo), dest


# --- contents -------------------------------------------------------------
# Each commit owns the file f_<label>; its "kind" says what else it does.
BASE = {"keep": ("100644", b"keep\n"),
        "x/e1": ("100644", b"1\n2\n3\n4\n5\n6\n7\n8\n9\n"), "x/e2": ("100644", b"e2\n"),
        "d1": ("100644", b"d1\n"), "dir/d2": ("100644", b"d2\n"),
        "s1": ("100644", b"s1\n"), "r1": ("100644", b"r1 contents to be renamed\n"),
        "t1": ("100644", b"t1\n"), "u/t2": ("100644", b"t2\n"), "l1": ("120000", b"keep")}
KINDS = {
    "add": {"new/deep/file": ("100644", b"new\n")},
    "edit": {"x/e1": ("100644", b"1\n2\n3\n4\n5\n6\n7\n8\nnine\n"), "x/e2": ("100644", b"")},
    "delete": {"d1": None, "dir/d2": None},
    "mode": {"s1": ("100755", b"s1\n")},
    "rename": {"r1": None, "moved/r1": ("100644", b"r1 contents to be renamed\n")},
    "filedir": {"t1": None, "t1/inner": ("100644", b"inner\n"), "u/t2": None, "u": ("100644", b"u\n")},
    "link": {"l1": ("120000", b"d2"), "l2": ("120000", b"nowhere")},
}


def delta(k, kinds):
    d = {"f_" + k: ("100644", b"contents of " + k.encode() + b"\n")}
    d.update(KINDS.get(kinds.get(k), {}))
    return d


def apply(files, d):
    files = dict(files)
    for p, v in d.items():
        if v is None:
            files.pop(p, None)
    for p, v in d.items():
        if v is not None:
            files[p] = v
    return files


def tree_of(g, k, kinds, sq=()):
    """Contents of k in graph g; sq: {dest: [squashed labels]}"""
    files = {}
    chain = [x for x in g if x in ancestors(g, k)]
    for x in chain:
        if x == "m0":
            files.update(BASE)
        files = apply(files, delta(x, kinds))
        for s in dict(sq).get(x, []):
            files = apply(files, delta(s, kinds))
    return files


def units(tier):
    nd = 3 if tier == "quick" else 4
    for n in range(2, nd + 1):
        for g in unlabelled(forests(2, n)):
            yield {"g": g, "hidden": [], "kinds": {}}
            if n <= 3:
                for h in drafts(g):
                    yield {"g": g, "hidden": [h], "kinds": {}}
    chain = {"m0": [], "m1": ["m0"], "a": ["m1"], "b": ["a"], "c": ["b"]}
    fork = {"m0": [], "m1": ["m0"], "a": ["m0"], "b": ["m1"], "c": ["m1"]}
    m = {"m0": [], "m1": ["m0"]}
    for g in (dict(m, a=["m0"], b=["a"], c=["b"], d=["c"], e=["d"]), dict(m, a=["m0"], b=["a"], c=["b"], d=["b"], e=["d"])):
        for dest in g if tier == "thorough" else ("m1", "a", "b"):
            if dest[0] != "m" or tier == "thorough":
                yield {"g": g, "hidden": [], "kinds": {}, "dest": dest}
    pairs = list(itertools.permutations(KINDS, 2))
    if tier == "quick":
        pairs = [p for i, p in enumerate(pairs) if i % 2 == 0] + [(k, "add") for k in KINDS if k != "add"]
    for g in (chain, fork):
        for k1, k2 in pairs:
            for pos in (("b", "c"), ("a", "c")):
                yield {"g": g, "hidden": [], "kinds": {pos[0]: k1, pos[1]: k2}, "few": True}


def run_unit(u, ctx):
    g, hidden, kinds = u["g"], u["hidden"], u["kinds"]
    mk = lambda gg, k: tree_of(gg, k, kinds)
    r, oids = make(ctx, g, hide=hidden, files=mk)
    vg = vis_graph(g, hidden)
    before = r.user_state()
    reqs = requests(vg, u.get("dest"))
    if u.get("few"):
        reqs = [("x", ["b"], "a"), ("x", ["c"], "a"), ("x", ["b", "c"], "a"), ("x", ["c"], "b"), ("s", ["b"], "a")]
    for mode, srcs, dest in reqs:
        if "only" in u and u["only"] != [mode, srcs, dest]:
            continue
        w = r.copy(ctx.tmp())
        one(ctx, w, g, vg, oids, before, mode, srcs, dest, u)
        w.remove()
    r.remove()


def one(ctx, w, g, vg, oids, before, mode, srcs, dest, u):
    args = ["move", "--fixup"]
    for s in srcs:
        args += ["-" + mode, oids[s]]
    args += ["-d", oids[dest]]
    label = "graph [%s] hidden %s kinds %s: move --fixup -%s %s -d %s" % (
        fmt(g), u["hidden"], u["kinds"], mode, ",".join(srcs), dest)
    key = "%s|%s|%s|%s|%s|%s" % (fmt(g), ",".join(u["hidden"]), mode, ",".join(srcs), dest, u["kinds"])
    try:
        want, squashed = model(vg, mode, srcs, dest)
        why = ""
    except Refuse as e:
        want, why = None, str(e)
    except Skip:
        return
    ctx.transition()
    out = w.gb(*args)
    ctx.evaluation()

    def bad(msg):
        ctx.violation(key, label + "\n" + msg + "\n" + repr(out), dict(u, only=[mode, srcs, dest]))

    if out.timeout or out.panicked():
        return bad("crashed")
    try:
        if out.rc != 0:
            ctx.outcome("refused")
            if w.user_state() != before:
                return bad("refused but changed the repository")
            if want is not None:
                return bad("refused, expected %s with %s squashed into %s" % (fmt(want), squashed, dest))
            return
        if want is None:
            return bad("expected refusal (%s) but succeeded" % why)
        ctx.state(key)
        ctx.outcome("squashed %d" % len(squashed))
        lab, par = observed(w)
        # a hidden commit shows only while something visible needs it
        want = {k: v for k, v in want.items()
                if any(x not in u["hidden"] for x in descendants(want, k)) or k in lab}
        if set(lab) != set(want):
            return bad("visible commits are %s, expected %s" % (sorted(lab), sorted(want)))
        for k in want:
            if par[k] != want[k]:
                return bad("parents of %r are %s, expected %s" % (k, par[k], want[k]))
        for k in want:
            exp = tree_of(want, k, u["kinds"], {dest: squashed})
            got = w.files(lab[k])
            if got != exp:
                diff = sorted(p for p in set(got) | set(exp) if got.get(p) != exp.get(p))
                return bad("contents of %r differ from expectation at %s: got %s, expected %s" % (
                    k, diff, [got.get(p) for p in diff], [exp.get(p) for p in diff]))
            o, n = w.commit(oids[k]), w.commit(lab[k])
            if o.message != n.message or o.author != n.author:
                return bad("message or author of %r changed" % k)
        if w.head() != before["head"] or w.user_refs() != before["refs"]:
            return bad("unrelated references moved")
        ctx.sample(label + " -> " + fmt(want))
    except Mismatch as e:
        bad(str(e))
    except QueryFailed as e:
        bad("query failed afterwards: %s" % e)
