"""C22: navigation goes exactly to the requested commit."""
import itertools

from .. import graphs
from ..graphs import make, forests, mains, drafts, ancestors, descendants, children
from ..repo import set_head

PROPERTY = "C22"
LEVEL = "model_checking"
TECHNIQUE = ("exhaustive enumeration of small commit graphs, hidden commits, branch placements, commit-time orders, HEAD positions and "
             "navigation commands on the real binary, compared with a reference walk of the visible graph")
BOUND = {
    "quick": "all graph shapes with 2 main commits and 3 drafts plus 3 shapes with a merge; hidden: none or any one commit; branches: none, "
             "three layouts with one or two per commit, all; automatic branch switching on and off; commit times in and against topological order; HEAD at every commit; 24 next/prev and 11 switch commands",
    "thorough": "all shapes with up to 4 drafts, all sets of hidden commits and all branch placements for 3 drafts",
}
ASSUMPTIONS = ["when the walk ends where it began, HEAD may or may not stay attached to its branch",
               "`--interactive` selection is not explored"]

MERGES = [
    {"m0": [], "m1": ["m0"], "a": ["m0"], "b": ["m0"], "c": ["a", "b"]},
    {"m0": [], "m1": ["m0"], "a": ["m0"], "b": ["a"], "c": ["a"], "d": ["b", "c"]},
    {"m0": [], "m1": ["m0"], "a": ["m0"], "b": ["a", "m1"], "c": ["b"]},
]
# (command, number or None for all the way, by branch, towards)
NAV = []
for _t in ("", "-o", "-n"):
    for _n, _b in ((1, False), (2, False), (None, False), (1, True), (2, True), (None, True)):
        NAV.append(("next", _n, _b, _t))
for _n, _b in ((1, False), (2, False), (None, False), (1, True), (2, True), (None, True)):
    NAV.append(("prev", _n, _b, ""))
NAV_MERGE = [("prev", n, b, t) for t in ("-o", "-n") for n, b in ((1, False), (2, False), (None, False), (1, True))]


def shapes(tier):
    for n in (3,) if tier == "quick" else (1, 2, 3, 4):
        yield from graphs.unlabelled(forests(2, n))
    yield from MERGES


def units(tier):
    for g in shapes(tier):
        ds = drafts(g)
        rest = ds + ["m0"]
        single = [{"one": x} for x in rest]
        everywhere = {"br_" + d: d for d in ds}
        brs = [{}] + single + [everywhere, dict(everywhere, second=ds[-1], low="m0")]
        for rev in (False, True):
            if tier == "thorough" and len(ds) <= 3:
                for k in range(len(ds) + 1):
                    for hide in itertools.combinations(ds, k):
                        for j in range(len(rest) + 1):
                            for bs in itertools.combinations(rest, j):
                                yield {"g": g, "rev": rev, "hide": list(hide), "br": {"br_" + b: b for b in bs}}
                continue
            if tier == "quick":
                brs = [{}, everywhere] if rev else [{"one": ds[0], "two": "m0"}, {"one": ds[-1], "second": ds[-1]}]
                if not rev and g[ds[1]] == [ds[0]] and g[ds[0]] == ["m0"]:
                    brs.append({"one": ds[1], "two": "m0"})  # with a commit without branches between them
            for br in brs:
                yield {"g": g, "rev": rev, "hide": [], "br": br}
            if rev:
                continue
            yield {"g": g, "rev": rev, "hide": [], "br": everywhere, "config": {"branchless.navigation.autoSwitchBranches": "false"}}
            for h in ds:
                yield {"g": g, "rev": rev, "hide": [h], "br": {"one": ds[-1]} if children(g, h) and h != ds[-1] else {}}


def step(g, vis, public, branches, times, cur, cmd, n, by_branch):
    """The candidates of one step, oldest first."""
    if cmd == "next":
        res = [x for x in children(g, cur) if x in vis]
        if by_branch:
            below = set().union(*[descendants(g, x) for x in res]) if res else set()
            below = [x for x in below if x in branches.values()]
            res = [x for x in below if not any(y != x and y in ancestors(g, x) for y in below)]
    else:
        res = list(g[cur])
        if by_branch:
            above = set().union(*[ancestors(g, x) for x in res]) if res else set()
            above = [x for x in above if x in branches.values()]
            res = [x for x in above if not any(y != x and x in ancestors(g, y) for y in above)]
        if n is None:
            res = [x for x in res if x not in public]
    return sorted(res, key=lambda x: times[x])


def walk(g, vis, public, branches, times, cur, cmd, n, by_branch, towards):
    """Where the command ends up; None if it has to refuse."""
    i = 0
    while n is None or i < n:
        c = step(g, vis, public, branches, times, cur, cmd, n, by_branch)
        if not c:
            return None if i == 0 and n is not None else cur
        if len(c) > 1 and not towards:
            return None
        cur = c[-1] if towards == "-n" else c[0]
        i += 1
    return cur


def visible(g, hide, branches, head):
    keep = [x for x in g if x not in hide] + list(branches.values()) + [head]
    return set().union(*[ancestors(g, x) for x in keep])


def setup(u, ctx):
    g = u["g"]
    ks = list(g)
    times = {k: (len(ks) - i if u["rev"] else i) * 10 for i, k in enumerate(ks)}
    r, oids = make(ctx, g, branches=u["br"], hide=u["hide"], times=times, config=u.get("config"), files=lambda g, k: {"one": "the same everywhere\n"})
    return g, times, r, oids


def run_unit(u, ctx):
    g, times, r, oids = setup(u, ctx)
    refs = r.user_refs()
    branches = dict(u["br"], master=mains(g)[-1])
    public = ancestors(g, mains(g)[-1])
    merge = any(len(p) > 1 for p in g.values())
    auto = not u.get("config")
    for head in g:
        vis = visible(g, u["hide"], branches, head)
        on = [b for b in branches if branches[b] == head]
        start = ("ref", "refs/heads/" + on[0]) if on else ("oid", oids[head])
        for cmd in NAV + (NAV_MERGE if merge else []):
            if "only" in u and u["only"] != [head, list(cmd)]:
                continue
            if cmd[0] == "next" and cmd[3] and walk(g, vis, public, branches, times, head, *cmd[:3], "") is not None:
                continue  # the same as without the choice
            if cmd[1] == 2 and walk(g, vis, public, branches, times, head, cmd[0], 1, *cmd[2:]) is None:
                continue  # the first step is refused already
            want = walk(g, vis, public, branches, times, head, *cmd)
            args = [cmd[0]] + (["-a"] if cmd[1] is None else [str(cmd[1])] if cmd[1] != 1 else [])
            args += (["-b"] if cmd[2] else []) + ([cmd[3]] if cmd[3] else [])
            at = [b for b in branches if branches[b] == want]
            evaluate(ctx, u, r, oids, refs, start, head, args, want, at[0] if len(at) == 1 and (auto or cmd[2]) else None, [head, list(cmd)])
        if u["rev"] or u["hide"] or head not in ("m0", "a") or ("only" in u and u["only"][0] != "switch"):
            continue
        d = drafts(g)
        for args, want, branch in switches(g, vis, branches, head, d):
            case = ["switch", head, args]
            if "only" in u and u["only"] != case:
                continue
            evaluate(ctx, u, r, oids, refs, start, head, ["switch"] + [a.format(**oids) for a in args], want, branch, case, strict=True)
    r.remove()


def switches(g, vis, branches, head, ds):
    last = ds[-1]
    yield ["{%s}" % last], last, None
    yield ["roots({%s}:)" % ds[0]], ds[0], None
    below = [x for x in descendants(g, ds[0]) if x in vis]
    heads = [x for x in below if not any(y != x and x in ancestors(g, y) for y in below)]
    yield ["descendants({%s})" % ds[0]], heads[0] if len(heads) == 1 else None, None
    yield ["none()"], None, None
    yield ["-c", "fresh", "{%s}" % last], last, "+fresh"
    yield ["-c", "fresh", "heads({%s})" % last], last, "+fresh"
    yield ["-c", "fresh"], head, "+fresh"
    for b in list(branches)[:1]:
        yield [b], branches[b], b
        yield ["-d", b], branches[b], None
        yield ["branches(%s)" % b], branches[b], None


def evaluate(ctx, u, r, oids, refs, start, head, args, want, branch, case, strict=False):
    w = r
    set_head(w, start)
    out = w.gb(*args)
    ctx.transition()
    ctx.evaluation()
    ctx.state([sorted(u["g"].items()), sorted(u["br"].items()), u["hide"], u["rev"], head, args[0]])
    after, now = w.user_refs(), w.head()
    fresh = branch and branch.startswith("+")
    if fresh:
        branch = branch[1:]
    exp = dict(refs)
    if fresh and want:
        exp["refs/heads/" + branch] = oids[want]
    msg = None
    if want is None:
        if out.rc == 0:
            msg = "succeeded although there is no single commit to go to"
        elif now != start:
            msg = "refused but moved HEAD to %s" % (now,)
        ctx.outcome("refused")
    else:
        ok = [("ref", "refs/heads/" + branch)] if branch else [("oid", oids[want])]
        if want == head and not strict:
            ok.append(start)
            ok.append(("oid", oids[want]))
        if out.rc != 0:
            msg = "failed, expected to go to %s" % want
        elif now not in ok:
            msg = "HEAD is %s, expected %s" % (name(u, oids, now), " or ".join(name(u, oids, x) for x in ok))
        ctx.outcome("moved" if want != head else "stayed")
    if msg is None and after != exp:
        msg = "branches changed: %s, expected %s" % (after, exp)
    if out.panicked():
        msg = "crashed"
    if fresh:
        set_head(w, start)
        w.plain("update-ref", "-d", "refs/heads/" + branch)
    if msg:
        label = "%s, branches %s, hidden %s%s, HEAD %s: %s" % (
            graphs.fmt(u["g"]), u["br"], u["hide"], ", times reversed" if u["rev"] else "", head, " ".join(args))
        ctx.violation(label, label + "\n" + msg + "\n" + repr(out), dict(u, only=case))
    else:
        ctx.sample("%s from %s -> %s" % (" ".join(args), head, want))


def name(u, oids, h):
    inv = {v: k for k, v in oids.items()}
    return "%s %s" % (h[0], inv.get(h[1], h[1]))
