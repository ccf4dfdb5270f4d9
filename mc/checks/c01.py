"""C01: moves produce exactly the requested graph."""
import itertools

from .. import core
from ..graphs import (ancestors, check_graph, children, descendants, drafts, files_of, fmt, forests, mains, make,
                      Mismatch, unlabelled)
from ..repo import QueryFailed

PROPERTY = "C01"
LEVEL = "exploration"
TECHNIQUE = "bounded exhaustive enumeration of commit graphs x move requests on the real binary against a parent-map model"
RULE = "distinct (graph, hidden set, request) whose expected graph differs from the initial one"
BOUND = {
    "quick": "main branch of 2 commits, all forests of <=3 drafts (up to renaming), at most 1 hidden draft; modes "
             "source/base/exact(1..3 commits) x insert x every destination; chain of 5 drafts with all exact subsets; "
             "siblings making the same changes",
    "thorough": "as quick with 3 main commits, <=4 drafts, all heap orders; chains of 6 drafts",
}


class Refuse(Exception):
    pass


def vis_graph(g, hidden):
    """Visible part: hidden leaves disappear, a hidden commit with visible
    descendants stays visible."""
    keep = {k for k in g if any(x not in hidden for x in descendants(g, k))}
    return {k: g[k] for k in g if k in keep}


def model(g, mode, srcs, dest, insert):
    """g: visible forest. Returns the new parent map or raises Refuse."""
    new = {k: list(v) for k, v in g.items()}
    moved = set()
    if mode in "sb":
        roots = []
        for s in srcs:
            if mode == "b":
                common = ancestors(g, s) & ancestors(g, dest)
                path = [k for k in ancestors(g, s) if k not in common]
                s = next((k for k in path if g[k] and g[k][0] in common), s)
            roots.append(s)
        if any(s.startswith("m") for s in roots):
            raise Refuse("public")
        # a source directly on another source travels with it
        tops = [s for s in roots if not (set(g[s]) & set(roots))]
        for s in tops:
            new[s] = [dest]
        src_all = set(roots)
        if insert:
            heads = [k for s in tops for k in descendants(g, s) if not children(g, k)]
            if len(set(heads)) != 1:
                raise Refuse("heads")
            head = heads[0]
    else:
        E = set(srcs)
        comp_roots = [k for k in g if k in E and not (set(g[k]) & E)]
        for k in g:
            if k in E or not (set(g[k]) & E):
                continue
            p = g[k][0]
            while p in E:
                p = g[p][0]
            new[k] = [p]
        for k in comp_roots:
            p = g[k][0] if g[k] else None
            while p is not None and p not in E:
                p = g[p][0] if g[p] else None
            new[k] = [p if p is not None else dest]
        src_all = E
        if insert:
            for x, y in itertools.combinations(comp_roots, 2):
                if x not in ancestors(g, y) and y not in ancestors(g, x):
                    raise Refuse("lineage")
            last = [c for c in comp_roots if all(d in ancestors(g, c) for d in comp_roots)][0]
            comp, todo = set(), [last]
            while todo:
                k = todo.pop()
                comp.add(k)
                todo += [c for c in children(g, k) if c in E]
            heads = [k for k in comp if not (set(children(g, k)) & comp)]
            if len(heads) != 1:
                raise Refuse("heads")
            head = heads[0]
    if insert:
        for k in children(g, dest):
            if k not in src_all:
                if k.startswith("m"):
                    raise Refuse("public")
                new[k] = [head]
    if dest in src_all:
        raise Refuse("dest in sources")
    for k in new:  # cycles
        seen, x = set(), k
        while new[x]:
            if x in seen:
                raise Refuse("cycle")
            seen.add(x)
            x = new[x][0]
    # topological order
    out = {}
    touched = set()
    while len(out) < len(new):
        for k in new:
            if k not in out and all(p in out for p in new[k]):
                out[k] = new[k]
    for k in out:
        if k in src_all or new[k] != g[k] or touched & set(new[k]):
            touched.add(k)
    return out, touched


def expected_visible(want, hidden, touched):
    """(must, may): a hidden commit shows only while something visible needs
    it; a hidden commit that was itself rewritten may come back."""
    must = {k for k in want if any(x not in hidden for x in descendants(want, k))}
    return must, {k for k in want if k not in must and k in touched}


def requests(g, hidden, tier):
    if len(g) >= 7 and tier == "quick" or len(g) >= 8:
        # long chains: subsets of exactly-named commits
        ds = drafts(g)
        for dest in g:
            for n in range(2, len(ds) + 1):
                for combo in itertools.combinations(ds, n):
                    yield "x", list(combo), dest, False
            for n in (2, 3):
                for combo in itertools.combinations(ds, n):
                    yield "x", list(combo), dest, True
        return
    ds = [d for d in drafts(g) if d in vis_graph(g, hidden)]
    vg = list(vis_graph(g, hidden))
    for dest in vg:
        for ins in (False, True):
            for d in ds:
                for mode in "sbx":
                    yield mode, [d], dest, ins
            for n in (2, 3):
                for combo in itertools.combinations(ds, n):
                    yield "x", list(combo), dest, ins
            for combo in itertools.combinations(ds, 2):
                yield "s", list(combo), dest, ins


def chain(nm, nd):
    return next(g for g in forests(nm, nd)
                if all(g[d] == [p] for d, p in zip(drafts(g), ["m0"] + drafts(g))))


def units(tier):
    yield {"g": chain(2, 5), "hidden": []}
    if tier == "thorough":
        yield {"g": chain(2, 6), "hidden": []}
        yield {"g": chain(3, 6), "hidden": []}
    nm, nd = (2, 3) if tier == "quick" else (3, 4)
    for n in range(1, nd + 1):
        for g in (unlabelled(forests(nm, n)) if tier == "quick" else forests(nm, n)):
            yield {"g": g, "hidden": []}
        if n >= 2:
            for g in unlabelled(forests(nm, n)):
                for h in drafts(g):
                    yield {"g": g, "hidden": [h]}
            for g in unlabelled(forests(2, n)):
                for x, y in itertools.combinations(drafts(g), 2):
                    if g[x] == g[y]:
                        yield {"g": g, "hidden": [], "twins": [x, y]}


def twin_files(twins):
    """The second of the twins makes the same changes as the first."""
    def files(g, k):
        return {"f_" + x: "contents of %s\n" % x
                for x in (twins[0] if a == twins[1] else a for a in ancestors(g, k))}
    return files


def run_unit(u, ctx):
    g, hidden = u["g"], u["hidden"]
    r, oids = make(ctx, g, hide=hidden, files=twin_files(u["twins"]) if "twins" in u else files_of)
    vg = vis_graph(g, hidden)
    before = r.user_state()
    for mode, srcs, dest, ins in requests(g, hidden, ctx.tier):
        if "only" in u and u["only"] != [mode, srcs, dest, ins]:
            continue
        w = r.copy(ctx.tmp())
        one(ctx, w, g, vg, oids, before, mode, srcs, dest, ins, u)
        w.remove()
    r.remove()


def one(ctx, w, g, vg, oids, before, mode, srcs, dest, ins, u):
    args = ["move"]
    for s in srcs:
        args += ["-" + mode, oids[s]]
    args += ["-d", oids[dest]]
    if ins:
        args.append("--insert")
    label = "graph [%s] hidden %s: move %s -%s %s -d %s" % (
        fmt(g), u["hidden"], "--insert" if ins else "", mode, ",".join(srcs), dest)
    ctx.transition()
    try:
        want, touched = model(vg, mode, srcs, dest, ins)
    except Refuse as e:
        want = None
        why = str(e)
    if "twins" in u:
        label += ", same changes in %s and %s" % tuple(u["twins"])
        if want and any(x in ancestors(want, y) for x, y in itertools.permutations(u["twins"])):
            return  # one of them would become empty
    out = w.gb(*args)
    ctx.evaluation()
    key = "%s|%s|%s|%s|%s|%s" % (fmt(g), ",".join(u["hidden"]), mode, ",".join(srcs), dest, ins)

    def bad(msg):
        ctx.violation(key + "|%s" % u["twins"] if "twins" in u else key, label + "\n" + msg + "\n" + repr(out), dict(u, only=[mode, srcs, dest, ins]))

    if out.timeout or out.panicked():
        return bad("crashed")
    try:
        if out.rc != 0:
            ctx.outcome("refused")
            if w.user_state() != before:
                return bad("refused but changed the repository")
            if want is not None:
                return bad("refused, expected %s" % fmt(want))
            return
        if want is None:
            return bad("expected refusal (%s) but succeeded" % why)
        must, may = expected_visible(want, u["hidden"], touched)
        vis = w.query("all()")
        labels = {w.commit(o).label for o in vis if w.commit(o)}
        want = {k: v for k, v in want.items() if k in must or (k in may and k in labels)}
        check_graph(w, want, oids, visible=vis, files=twin_files(u["twins"]) if "twins" in u else files_of)
        if want != vg:
            ctx.state(key)
            ctx.outcome("moved")
        else:
            ctx.outcome("no-op")
        if w.head() != before["head"] or w.user_refs() != before["refs"]:
            return bad("unrelated references moved")
        ctx.sample(label + " -> " + fmt(want))
    except Mismatch as e:
        bad(str(e))
    except QueryFailed as e:
        bad("query failed afterwards: %s" % e)
