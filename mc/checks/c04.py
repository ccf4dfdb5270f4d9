"""C04: branches and HEAD follow rewritten commits."""
import itertools

from ..graphs import (ancestors, descendants, drafts, files_of, fmt, forests, make, mains, Mismatch, observed,
                      unlabelled)
from ..repo import QueryFailed
from . import c01, c02

PROPERTY = "C04"
LEVEL = "exploration"
TECHNIQUE = ("bounded exhaustive enumeration of commit graphs x branch placements x HEAD positions x rewriting commands "
             "on the real binary against a label-following model")
RULE = "distinct (graph, branches, HEAD, command) in which at least one commit was rewritten"
BOUND = {
    "quick": "main of 2 commits, all forests of <=2 drafts with 2 branches at any commits (also the same one), HEAD "
             "detached anywhere or on any branch, move source/exact/fixup to every destination, reword, amend; 3-draft "
             "chain and fork with branches on 2 drafts",
    "thorough": "as quick with all forests of 3 drafts",
}

NAMES = ["feature/one", "two"]
APPLIED = ["feature/one", "one"]


def placements(g, few):
    labs = drafts(g) if few else drafts(g) + ["m0"]
    for c in itertools.combinations_with_replacement(labs, 2):
        yield dict(zip(NAMES, c))


def heads(g, br, few):
    for k in (drafts(g) if few else g):
        yield k
    for n in br:
        yield "refs/heads/" + n
    yield "refs/heads/master"


def units(tier):
    gs = [(g, False) for n in (1, 2) for g in unlabelled(forests(2, n))]
    if tier == "quick":
        gs += [({"m0": [], "m1": ["m0"], "a": ["m0"], "b": ["a"], "c": ["b"]}, True),
               ({"m0": [], "m1": ["m0"], "a": ["m0"], "b": ["a"], "c": ["a"]}, True)]
    else:
        gs += [(g, False) for g in unlabelled(forests(2, 3))]
    for g, few in gs:
        for br in placements(g, few):
            for h in heads(g, br, few):
                yield {"g": g, "br": br, "head": h, "few": few}
    # commits whose changes the destination already has disappear
    for g in [{"m0": [], "m1": ["m0"], "a": ["m0"]}, {"m0": [], "m1": ["m0"], "a": ["m0"], "b": ["a"]},
              {"m0": [], "m1": ["m0"], "a": ["m0"], "b": ["a"], "c": ["a"]}]:
        for applied in drafts(g):
            for c in itertools.product(drafts(g), repeat=2):
                yield {"g": g, "br": dict(zip(APPLIED, c)), "applied": applied}


def commands(g, head, few):
    ds = drafts(g)
    dests = ["m1"] + ds if few else list(g)
    for d in ds:
        for dest in dests:
            if dest == d:
                continue
            for mode in "sx":
                if few and mode == "s" and len(children_of(g, d)) == 0:
                    continue
                yield ("move", mode, [d], dest)
    for d in ds:
        for dest in ds:
            if dest != d and not few:
                yield ("fixup", "x", [d], dest)
    for d in ds:
        yield ("reword", d)
    if head in ds:
        yield ("amend", head)


def children_of(g, k):
    return [x for x in g if k in g[x]]


def run_applied(u, ctx):
    g, br, gone = u["g"], u["br"], u["applied"]

    def files(g, k):
        res = files_of(g, k)
        if "m1" in ancestors(g, k):
            res["f_" + gone] = "contents of %s\n" % gone
        return res

    want = {}
    for k, ps in g.items():
        if k != gone:
            want[k] = ["m1"] if k == "a" or ps == ["a"] and gone == "a" else ps
    for head in drafts(g) + ["refs/heads/" + n for n in br]:
        r, oids = make(ctx, g, branches=br, head=head, files=files)
        at = br[head[11:]] if head.startswith("refs/") else head
        refs0 = r.user_refs()
        for extra in ([], ["--on-disk"]):
            w = r.copy(ctx.tmp())
            out = w.gb("move", "-s", oids["a"], "-d", oids["m1"], *extra)
            ctx.transition()
            ctx.evaluation()
            label = "graph [%s] branches %s HEAD %s, %s applied in m1: move -s a -d m1 %s" % (
                fmt(g), br, head, gone, " ".join(extra))

            def bad(msg):
                ctx.violation(label, label + "\n" + msg + "\n" + repr(out), u)

            try:
                if out.rc != 0:
                    return bad("failed")
                lab, par = observed(w)
                if par != want:
                    return bad("wrong graph %s, expected %s" % (fmt(par), fmt(want)))
            except (Mismatch, QueryFailed) as e:
                return bad(str(e))
            onto = "m1" if gone == "a" else "a"
            refs = w.user_refs()
            for n, o in refs0.items():
                k = br.get(n[11:], "m1")
                # the branch of a vanished commit is deleted or moves to what the commit sat on
                if refs.get(n) != lab[onto if k == gone else k] and not (k == gone and n not in refs):
                    return bad("%s is at %s, expected %s" % (n, refs.get(n), k))
            if set(refs) - set(refs0):
                return bad("new references: %s" % sorted(set(refs) - set(refs0)))
            if head in refs and w.head() != ("ref", head):
                return bad("HEAD is %s, expected to stay on %s" % (w.head(), head))
            ho = w.head_oid()
            if ho != lab[onto if at == gone else at]:
                return bad("HEAD is at %s" % ho)
            if w.worktree() != w.files(ho) or w.git("status", "--porcelain").out or w.in_progress():
                return bad("working copy does not match HEAD")
            ctx.state(label)
            ctx.outcome("vanished")
            w.remove()
        r.remove()


def run_unit(u, ctx):
    if "applied" in u:
        return run_applied(u, ctx)
    g, br, head = u["g"], u["br"], u["head"]
    r, oids = make(ctx, g, branches=br, head=head)
    for k in g:
        r.plain("tag", "t-" + k, oids[k])
    r.plain("update-ref", "refs/remotes/origin/x", oids[drafts(g)[0]])
    before = r.user_state()
    head_label = br.get(head[11:], "m1") if head.startswith("refs/") else head
    for cmd in commands(g, head_label, u["few"]):
        if "only" in u and u["only"] != list(cmd):
            continue
        one(ctx, r, u, g, br, head, head_label, oids, before, cmd)
    r.remove()


def one(ctx, r, u, g, br, head, head_label, oids, before, cmd):
    extra = {}
    gone = {}
    try:
        if cmd[0] == "move":
            want, _ = c01.model(g, cmd[1], cmd[2], cmd[3], False)
            args = ["move", "-" + cmd[1], oids[cmd[2][0]], "-d", oids[cmd[3]]]
        elif cmd[0] == "fixup":
            want, squashed = c02.model(g, cmd[1], cmd[2], cmd[3])
            gone = {s: cmd[3] for s in squashed}
            args = ["move", "--fixup", "-x", oids[cmd[2][0]], "-d", oids[cmd[3]]]
        elif cmd[0] == "reword":
            want = dict(g)
            args = ["reword", "-m", cmd[1], "-m", "new body", oids[cmd[1]]]
        else:
            want = dict(g)
            extra = {cmd[1]: {"amended": "amended\n"}}
            args = ["amend"]
    except c01.Refuse:
        return
    w = r.copy(ctx.tmp())
    if cmd[0] == "amend":
        w.write("amended", "amended\n")
        w.ok("add", "amended")
    out = w.gb(*args)
    ctx.transition()
    ctx.evaluation()
    label = "graph [%s] branches %s HEAD %s: %s" % (fmt(g), br, head, " ".join(map(str, cmd)))

    def bad(msg):
        ctx.violation("%s|%s|%s|%s" % (fmt(g), sorted(br.items()), head, cmd), label + "\n" + msg + "\n" + repr(out),
                      dict(u, only=list(cmd)))

    try:
        if out.timeout or out.panicked() or out.rc != 0:
            return bad("failed")
        lab, par = observed(w)
        if set(lab) != set(want) or any(par[k] != want[k] for k in want):
            return bad("wrong graph %s, expected %s" % (fmt(par), fmt(want)))
        if any(lab[k] != oids[k] for k in lab):
            ctx.state([fmt(g), sorted(br.items()), head, cmd])
        ctx.outcome(cmd[0])
        cur = lambda k: lab[gone.get(k, k)]
        exp = dict(before["refs"])
        exp["refs/heads/master"] = cur("m1")
        for n, k in br.items():
            exp["refs/heads/" + n] = cur(k)
        got = w.user_refs()
        if got != exp:
            d = [(k, got.get(k), exp.get(k)) for k in sorted(set(got) | set(exp)) if got.get(k) != exp.get(k)]
            return bad("references differ (name, actual, expected): %s" % d)
        h = w.head()
        if head.startswith("refs/"):
            if h != ("ref", head):
                return bad("HEAD is %s, expected to stay on %s" % (h, head))
        ho = w.head_oid(got)
        if ho != cur(head_label):
            return bad("HEAD is at %s, expected %s (%s)" % (ho, cur(head_label), head_label))
        # working copy and index match the checked-out commit
        tree = w.files(ho)
        if w.worktree() != tree:
            return bad("working copy %s does not match HEAD %s" % (sorted(w.worktree()), sorted(tree)))
        idx = {k[0]: v for k, v in w.index().items()}
        if idx != w.tree(w.commit(ho).tree):
            return bad("index does not match HEAD")
        if w.in_progress():
            return bad("operation left in progress: %s" % w.in_progress())
        ctx.sample(label)
    except Mismatch as e:
        bad(str(e))
    except QueryFailed as e:
        bad("query failed afterwards: %s" % e)
    finally:
        w.remove()
