"""C16: hiding and unhiding affect exactly the named commits."""
import itertools

from ..graphs import ancestors, descendants, drafts, fmt, forests, make, mains, unlabelled
from ..repo import QueryFailed

PROPERTY = "C16"
LEVEL = "model_checking"
TECHNIQUE = ("explicit-state breadth-first exploration of (hidden set, branches, HEAD) under hide/unhide with every "
             "selection and option, each transition executed on the real binary and compared with a set model")
BOUND = {
    "quick": "main of 2 commits, all forests of <=2 drafts and 3 graphs of 3 drafts plus one merge; 2 branches; HEAD on main, "
             "detached or on a branch; all selections of <=2 commits (public ones included) x {plain, recursive, keep "
             "branches}; every state within 2 operations (second operation: single commits)",
    "thorough": "as quick, all forests of 3 drafts, every state within 3 operations",
}


def graphs(tier):
    for n in (1, 2):
        yield from unlabelled(forests(2, n))
    yield {"m0": [], "m1": ["m0"], "a": ["m0"], "b": ["a"], "c": ["b"]}
    yield {"m0": [], "m1": ["m0"], "a": ["m0"], "b": ["a"], "c": ["a"]}
    yield {"m0": [], "m1": ["m0"], "a": ["m0"], "b": ["m0"], "c": ["a", "b"]}
    if tier == "thorough":
        yield from unlabelled(forests(2, 3))


def units(tier):
    for g in graphs(tier):
        ds = drafts(g)
        for br in ({"one": ds[0], "two": ds[-1]}, {"feature/x": ds[-1], "y": ds[-1]}):
            for head in ("refs/heads/master", ds[0], "refs/heads/" + sorted(br)[-1]):
                yield {"g": g, "br": br, "head": head}


class State:
    def __init__(self, hidden, br, head, at):
        self.hidden, self.br, self.head, self.at = frozenset(hidden), dict(br), head, at

    def key(self):
        return (sorted(self.hidden), sorted(self.br.items()), self.head, self.at)


def visible(g, s):
    tips = [d for d in drafts(g) if d not in s.hidden] + list(s.br.values()) + [s.at, mains(g)[-1]]
    return set().union(*(ancestors(g, t) for t in tips))


def all_ops(g, level):
    labs = list(g)
    sels = [(x,) for x in labs]
    if level == 1:
        sels += list(itertools.combinations(labs, 2))
    else:
        sels = [(x,) for x in drafts(g)]
    for sel in sels:
        for rec in (False, True):
            for keep in (False, True):
                if keep and (level != 1 or len(sel) > 1):
                    continue
                yield ("hide", sel, rec, keep)
            yield ("unhide", sel, rec, False)


def model(g, s, op):
    kind, sel, rec, keep = op
    sel = set(sel)
    if kind == "hide":
        if rec:
            v = visible(g, s)
            sel = set().union(*(descendants(g, x) for x in sel)) & v
        h = s.hidden | sel
        br, head = s.br, s.head
        if not keep:
            br = {n: k for n, k in s.br.items() if k not in sel}
            if s.at in sel:
                head = "detached"
        return State(h, br, head, s.at)
    if rec:
        sel = set().union(*(descendants(g, x) for x in sel)) & s.hidden
    return State(s.hidden - sel, s.br, s.head, s.at)


def args_of(op, oids):
    kind, sel, rec, keep = op
    a = [kind] + (["-r"] if rec else []) + (["--no-delete-branches"] if keep else [])
    return a + [oids[x] for x in sel]


def run_unit(u, ctx):
    g, br, head = u["g"], u["br"], u["head"]
    r, oids = make(ctx, g, branches=br, head=head)
    r.plain("tag", "t", oids[drafts(g)[-1]])
    r.plain("update-ref", "refs/remotes/origin/x", oids[drafts(g)[0]])
    base = r.user_state(visible=False)
    base_refs = {k: v for k, v in base["refs"].items() if k[11:] not in br}
    at = (br.get(head[11:]) or mains(g)[-1]) if head.startswith("refs/") else head
    s0 = State((), br, head if head.startswith("refs/") else "detached", at)
    seen = {repr(s0.key())}
    frontier = [(r, s0, [])]
    depth = 2 if ctx.tier == "quick" else 3
    for level in range(1, depth + 1):
        nxt = []
        for w, s, path in frontier:
            for op in all_ops(g, level):
                p2 = path + [op]
                if "only" in u and [repr(x) for x in p2] != u["only"][:len(p2)]:
                    continue
                c = w.copy(ctx.tmp())
                out = c.gb(*args_of(op, oids))
                ctx.transition()
                ctx.evaluation()
                want = model(g, s, op)
                msg = compare(c, g, oids, want, base, base_refs, out)
                if msg:
                    label = "graph [%s] branches %s HEAD %s: %s" % (fmt(g), br, head, p2)
                    ctx.violation(label, label + "\n" + msg + "\n" + repr(out), dict(u, only=[repr(x) for x in p2]))
                    c.remove()
                    continue
                k = repr(want.key())
                ctx.state([fmt(g), k])
                ctx.outcome(op[0] + (" -r" if op[2] else ""))
                if k not in seen and level < depth:
                    seen.add(k)
                    nxt.append((c, want, p2))
                else:
                    c.remove()
        frontier = nxt
    ctx.sample({"graph": fmt(g), "states": len(seen)})


def compare(c, g, oids, want, base, base_refs, out):
    if out.rc != 0 or out.timeout or out.panicked():
        return "failed"
    try:
        st = c.user_state()
    except QueryFailed as e:
        return "not readable afterwards: %s" % e
    exp = dict(base_refs)
    exp.update({"refs/heads/" + n: oids[k] for n, k in want.br.items()})
    if st["refs"] != exp:
        return "references are %s, expected %s" % (st["refs"], exp)
    head = ("oid", oids[want.at]) if want.head == "detached" else ("ref", want.head)
    if tuple(st["head"]) != head and c.head_oid(st["refs"]) != oids[want.at]:
        return "HEAD is %s, expected %s" % (st["head"], head)
    vis = {oids[k] for k in visible(g, want)}
    if set(st["visible"]) != vis:
        names = {v: k for k, v in oids.items()}
        return "visible commits are %s, expected %s" % (sorted(names.get(x, x) for x in st["visible"]),
                                                        sorted(names[x] for x in vis))
    for k in ("index", "worktree", "in_progress"):
        if st[k] != base[k]:
            return "%s changed" % k
