"""C05: conflicting or refused rewrites leave the repository unchanged."""
import itertools

from ..graphs import ancestors, descendants, drafts, fmt, make, Mismatch, observed
from ..repo import QueryFailed

PROPERTY = "C05"
LEVEL = "fault_enumeration"
TECHNIQUE = ("exhaustive enumeration of conflict positions x stack shapes x HEAD/branch/dirty states x commands on the "
             "real binary; oracle is equality of the complete user-visible state")
RULE = "distinct (graph, conflicting commit, HEAD, dirtiness, command) in which the command met a conflict or refused"
BOUND = {
    "quick": "4 stack shapes of 3 drafts over 2 main commits, every position of the conflicting commit, HEAD on main / at "
             "or on a branch at every draft, clean / unstaged / untracked working copy; move, restack, sync, amend, "
             "record insert, on-request rebase + abort, 12 refused requests",
    "thorough": "as quick with 6 stack shapes incl. 4-draft chains",
}

SHAPES = {
    "chain": {"m0": [], "m1": ["m0"], "a": ["m0"], "b": ["a"], "c": ["b"]},
    "fork": {"m0": [], "m1": ["m0"], "a": ["m0"], "b": ["a"], "c": ["a"]},
    "two": {"m0": [], "m1": ["m0"], "a": ["m0"], "b": ["a"], "c": ["m0"]},
    "three": {"m0": [], "m1": ["m0"], "a": ["m0"], "b": ["m0"], "c": ["m0"]},
    "chain4": {"m0": [], "m1": ["m0"], "a": ["m0"], "b": ["a"], "c": ["b"], "d": ["c"]},
    "forks4": {"m0": [], "m1": ["m0"], "a": ["m0"], "b": ["a"], "c": ["m0"], "d": ["c"]},
}


def files_with(conf):
    """m1 and the commits in conf edit the same line of the same file."""
    def files(g, k):
        anc = ancestors(g, k)
        f = {"f_" + x: "contents of %s\n" % x for x in anc}
        text = "base"
        for x in g:
            if x in anc and (x in conf or x == "m1"):
                text = "changed by " + x
        f["shared"] = text + "\n"
        return f
    return files


def units(tier):
    shapes = ["chain", "fork", "two", "three"] + (["chain4", "forks4"] if tier == "thorough" else [])
    for s in shapes:
        g = SHAPES[s]
        ds = drafts(g)
        for conf in [[d] for d in ds] + ([["a", "c"]] if s in ("two", "three") else []):
            for head in ["refs/heads/master"] + ds + ["refs/heads/br-" + ds[-1], "refs/heads/br-a"]:
                for dirty in ("clean", "unstaged", "untracked"):
                    if dirty != "clean" and tier == "quick" and head not in ("refs/heads/master", "b",
                                                                              "refs/heads/br-a"):
                        continue
                    yield {"kind": "conflict", "shape": s, "conf": conf, "head": head, "dirty": dirty}
    for head in ("refs/heads/master", "b", "refs/heads/br-a"):
        for dirty in ("clean", "unstaged", "staged", "untracked"):
            yield {"kind": "refuse", "head": head, "dirty": dirty}


def soil(r, dirty):
    if dirty == "unstaged":
        r.write("f_m0", "locally modified\n")
    elif dirty == "staged":
        r.write("f_m0", "locally modified\n")
        r.ok("add", "f_m0")
    elif dirty == "untracked":
        r.write("untracked/file", "u\n")


def state(r):
    return r.user_state()


def explain(a, b):
    return "; ".join("%s: before %s after %s" % (k, brief(a[k]), brief(b[k])) for k in a if a[k] != b[k])


def brief(x):
    s = str(x)
    return s if len(s) < 700 else s[:700] + "..."


def run_unit(u, ctx):
    if u["kind"] == "refuse":
        return refuse(u, ctx)
    g = SHAPES[u["shape"]]
    conf = u["conf"]
    br = {"br-" + d: d for d in drafts(g)}
    r, oids = make(ctx, g, branches=br, head=u["head"], files=files_with(conf))
    root = {d: next(x for x in ancestors(g, d) if g[x] == ["m0"] and x != "m1") for d in drafts(g)}
    blocked = {root[c] for c in conf}
    ops = []
    for rt in sorted(blocked):
        ops.append(("move", ["move", "-s", oids[rt], "-d", oids["m1"]]))
        ops.append(("move-in-memory", ["move", "--in-memory", "-s", oids[rt], "-d", oids["m1"]]))
        ops.append(("move-insert", ["move", "--in-memory", "-s", oids[rt], "-d", oids["m1"], "--insert"]))
        if u["dirty"] != "unstaged":
            ops.append(("abort", ["move", "--merge", "-s", oids[rt], "-d", oids["m1"]]))
    ops.append(("sync", ["sync"]))
    ops.append(("restack", ["restack"]))
    ops.append(("restack-in-memory", ["restack", "--in-memory"]))
    for name, args in ops:
        if "only" in u and u["only"] != name:
            continue
        w = r.copy(ctx.tmp())
        run_op(ctx, u, w, g, oids, name, args, root, blocked, br)
        w.remove()
    r.remove()


def run_op(ctx, u, w, g, oids, name, args, root, blocked, br):
    label = "%s conflict at %s HEAD %s %s: %s" % (u["shape"], u["conf"], u["head"], u["dirty"], name)
    head_oid = w.head_oid()
    if name.startswith("restack"):
        # rewrite m1's role: amend the root of each stack so that the
        # conflicting commit no longer applies
        conf = u["conf"][0]
        if root[conf] == conf:
            return
        rt = root[conf]
        keep = w.head()
        w.plain("checkout", "-q", "--detach", oids[rt])
        w.write("shared", "changed by amend\n")
        w.ok("commit", "-q", "-a", "--amend", "--no-edit")
        if keep[0] == "ref":
            w.ok("checkout", "-q", keep[1][11:])
        else:
            w.ok("checkout", "-q", keep[1])
    soil(w, u["dirty"])
    before = state(w)
    out = w.gb(*args)
    ctx.transition()
    ctx.evaluation()

    def bad(msg):
        ctx.violation("%s|%s|%s|%s|%s" % (u["shape"], u["conf"], u["head"], u["dirty"], name),
                      label + "\n" + msg + "\n" + repr(out), dict(u, only=name))

    try:
        if out.timeout or out.panicked():
            return bad("crashed")
        if name == "abort":
            if out.rc == 0:
                return bad("expected the conflict to be reported")
            if not any(x.startswith("rebase") for x in w.in_progress()):
                # refused before starting
                pass
            else:
                ab = w.git("rebase", "--abort")
                ctx.transition()
                if ab.rc != 0:
                    return bad("git rebase --abort failed: %r" % ab)
            after = state(w)
            if after != before:
                return bad("state after aborting differs: " + explain(before, after))
            ctx.outcome("aborted")
            ctx.state([label])
            return
        if name == "sync":
            after = state(w)
            lab, par = observed(w)
            for d in drafts(g):
                b = root[d] in blocked
                if b and lab.get(d) != oids[d]:
                    return bad("commit %s of a conflicting stack was moved" % d)
                if not b:
                    exp = ["m1"] if root[d] == d else g[d]
                    if par.get(d) != exp:
                        return bad("commit %s of an independent stack is on %s, expected %s" % (d, par.get(d), exp))
                if after["refs"]["refs/heads/br-" + d] != lab[d]:
                    return bad("branch br-%s is not at its commit" % d)
            if set(lab) != set(g):
                return bad("visible commits %s" % sorted(lab))
            if not u["head"].startswith("refs/"):
                if w.head_oid() != lab[u["head"]]:
                    return bad("HEAD is not at its commit")
            elif after["head"] != before["head"]:
                return bad("HEAD moved: " + explain(before, after))
            hl = u["head"] if not u["head"].startswith("refs/") else br.get(u["head"][11:], "m1")
            if hl == "m1" or root[hl] in blocked:
                for k in ("index", "worktree", "in_progress"):
                    if after[k] != before[k]:
                        return bad("working copy changed: " + explain(before, after))
            ctx.outcome("sync")
            ctx.state([label])
            return
        if out.rc == 0:
            return bad("expected the conflict to be reported with a failing exit code")
        after = state(w)
        if after != before:
            return bad("state changed: " + explain(before, after))
        ctx.outcome("conflict reported")
        ctx.state([label])
        ctx.sample(label)
    except Mismatch as e:
        bad(str(e))
    except QueryFailed as e:
        bad("query failed afterwards: %s" % e)


def refuse(u, ctx):
    g = SHAPES["chain"]
    br = {"br-" + d: d for d in drafts(g)}
    r, oids = make(ctx, g, branches=br, head=u["head"])
    soil(r, u["dirty"])
    before = state(r)
    o = oids
    reqs = [
        ["move", "-s", o["a"], "-d", o["c"]],
        ["move", "-s", o["m1"], "-d", o["a"]],
        ["move", "-x", o["m1"], "-d", o["a"]],
        ["move", "-x", o["a"], "-d", o["a"]],
        ["move", "-s", "nonexistent", "-d", o["a"]],
        ["move", "-s", o["a"], "-d", "none()"],
        ["move", "-s", o["b"], "-d", o["a"] + "+" + o["c"]],
        ["move", "-s", o["a"], "-d", o["m0"], "--insert"],
        ["reword", "-m", "new", o["m0"]],
        ["reword", "-m", "new", "nonexistent"],
        ["reword", "-m", "new", o["a"] + "+" + o["m1"]],
        ["hide", "nonexistent"],
        ["switch", "nonexistent"],
        ["restack", "nonexistent"],
        ["sync", "nonexistent"],
        ["query", "parents("],
    ]
    for args in reqs:
        w = r.copy(ctx.tmp())
        out = w.gb(*args)
        ctx.transition()
        ctx.evaluation()
        label = "HEAD %s %s: %s" % (u["head"], u["dirty"], args)
        m = None
        if out.timeout:
            m = "timed out"
        elif out.rc == 0:
            m = "expected a refusal"
        else:
            after = state(w)
            if after != before:
                m = "state changed: " + explain(before, after)
        if m:
            ctx.violation(label, label + "\n" + m + "\n" + repr(out), u)
        ctx.outcome("refused")
        ctx.state([label])
        w.remove()
    r.remove()
