"""C12: undo returns the repository to the state before the last operation."""
from ..graphs import drafts, fmt, make
from ..repo import QueryFailed

PROPERTY = "C12"
LEVEL = "model_checking"
TECHNIQUE = ("explicit-state exploration of all operation sequences up to a depth on the real binary; after every "
             "sequence undo is run (repeatedly) and the resulting state must be a recorded earlier state of that history")
BOUND = {
    "quick": "start states: 2-draft stack with branches (HEAD on branch / detached / on main) and fork, also with packed references; alphabet of about 20 operations "
             "(commit, amend, plain amend, move, fixup, reword, hide, unhide, restack, navigation, branch create/move/delete, "
             "reset, record); all sequences of 2 operations (1 from the main branch, the fork and with packed references), then undo and undo again",
    "thorough": "all sequences of 3 operations from the first start state, 2 from the others",
}
G1 = {"m0": [], "m1": ["m0"], "a": ["m0"], "b": ["a"]}
G2 = {"m0": [], "m1": ["m0"], "a": ["m0"], "b": ["a"], "c": ["a"]}

START = {
    "branch": (G1, {"one": "a", "two": "b"}, "refs/heads/two"),
    "detached": (G1, {"one": "a", "two": "b"}, "a"),
    "main": (G1, {"one": "a"}, "refs/heads/master"),
    "fork": (G2, {"one": "a", "two": "b"}, "a"),
    "packed": (G1, {"one": "a", "two": "b"}, "refs/heads/two"),
    "packed detached": (G1, {"one": "a", "two": "b"}, "a"),
}

W = ["wrap", "--"]
OPS = {
    "commit": ("edit new", W + ["commit", "-m", "new"]),
    "git amend": ("edit f_m0", W + ["commit", "--amend", "--no-edit"]),
    "git amend msg": (None, W + ["commit", "--amend", "-m", "other message"]),
    "amend": ("edit f_m0", ["amend"]),
    "move a m1": (None, ["move", "-s", "{a}", "-d", "{m1}"]),
    "move b m1": (None, ["move", "-x", "{b}", "-d", "{m1}"]),
    "fixup": (None, ["move", "--fixup", "-x", "{b}", "-d", "{a}"]),
    "swap": (None, ["move", "-x", "{b}", "-d", "{m0}", "--insert"]),
    "reword a": (None, ["reword", "-m", "reworded", "{a}"]),
    "hide a": (None, ["hide", "{a}"]),
    "hide -r a": (None, ["hide", "-r", "{a}"]),
    "hide b keep": (None, ["hide", "--no-delete-branches", "{b}"]),
    "unhide b": (None, ["unhide", "{b}"]),
    "restack": (None, ["restack"]),
    "prev": (None, ["prev"]),
    "next": (None, ["next", "--newest"]),
    "switch m1": (None, ["switch", "{m1}"]),
    "checkout one": (None, W + ["checkout", "one"]),
    "branch new": (None, W + ["branch", "new", "{a}"]),
    "branch -f": (None, W + ["branch", "-f", "one", "{m1}"]),
    "branch -D": (None, W + ["branch", "-D", "one"]),
    "reset": (None, W + ["reset", "--hard", "{m1}"]),
    "record": ("edit f_m0", ["record", "-m", "recorded"]),
    "record -c": ("edit f_m0", ["record", "-m", "recorded", "-c", "created"]),
    "rebase": (None, W + ["rebase", "{m1}"]),
    "merge": (None, W + ["merge", "--no-ff", "-m", "merged", "{b}"]),
    "cherry-pick": (None, W + ["cherry-pick", "{b}"]),
}


def units(tier):
    for st in START:
        depth = 2 if st in ("branch", "detached") else 1
        if tier == "thorough":
            depth = 3 if st == "branch" else 2
        for op in OPS:
            yield {"start": st, "first": op, "depth": depth}


def resolve(w, oids, visible):
    """The current visible version of every original commit: the one which adds its file."""
    names = {}
    for o in visible:
        c = w.commit(o)
        base = w.files(c.parents[0]) if c.parents else {}
        for k in oids:
            if "f_" + k in w.files(o) and "f_" + k not in base:
                names.setdefault(k, o)
    return names


def view(w):
    refs = w.user_refs()
    heads = {k: v for k, v in refs.items() if k.startswith("refs/heads/")}
    return {"branches": heads, "head": w.head_oid(refs), "visible": sorted(w.query("all()"))}


def run_unit(u, ctx):
    g, br, head = START[u["start"]]
    r, oids = make(ctx, g, branches=br, head=head)
    if u["start"].startswith("packed"):
        r.git("pack-refs", "--all")
    path = u.get("only")
    seen = set()
    explore(ctx, u, r, oids, [], [view(r)], path[0] if path else u["first"], len(path) if path else u["depth"], seen)


def explore(ctx, u, r, oids, path, states, op, depth, seen):
    w = r.copy(ctx.tmp())
    w.clock += 10
    pre, args = OPS[op]
    if pre:
        w.write(pre.split()[1], "edited %d\n" % w.clock)
        w.plain("add", "-A")
    names = resolve(w, oids, states[-1]["visible"])
    if op.startswith("unhide"):
        names = oids
    try:
        args = [a.format(**names) for a in args]
    except KeyError:
        # the commit which the operation is about is not there any more
        return w.remove()
    out = w.gb(*args)
    ctx.transition()
    try:
        after = view(w)
    except QueryFailed as e:
        bad(ctx, u, path + [op], "unreadable after %s: %s" % (op, e), out)
        return w.remove()
    if out.timeout or out.panicked():
        bad(ctx, u, path + [op], "crashed", out)
        return w.remove()
    if out.rc != 0 or after == states[-1]:
        # refused or without effect: nothing to undo
        ctx.outcome("no effect" if out.rc == 0 else "refused")
        return w.remove()
    path = path + [op]
    states = states + [after]
    ctx.state([u["start"], after])
    check(ctx, u, w, path, states)
    if depth > 1:
        nxt = u["only"][len(path):len(path) + 1] if "only" in u else OPS
        for o in nxt:
            explore(ctx, u, w, oids, path, states, o, depth - 1, seen)
    w.remove()


def bad(ctx, u, path, msg, out):
    label = "start %s: %s" % (u["start"], "; ".join(path))
    ctx.violation(label + "|" + msg.split(":")[0], label + "\n" + msg + "\n" + repr(out), dict(u, only=path))


def describe(w, v):
    def n(o):
        c = w.commit(o) if o else None
        return "%s(%s)" % (o[:7], c.label) if c else str(o)
    return {"branches": {k[11:]: n(o) for k, o in v["branches"].items()}, "head": n(v["head"]),
            "visible": sorted(map(n, v["visible"]))}


def check(ctx, u, r, path, states):
    w = r.copy(ctx.tmp())
    for n in range(2):
        out = w.gb("undo", "-y")
        ctx.transition()
        ctx.evaluation()
        if out.rc != 0 or out.timeout or out.panicked():
            bad(ctx, u, path, "undo number %d failed" % (n + 1), out)
            break
        try:
            v = view(w)
        except QueryFailed as e:
            bad(ctx, u, path, "unreadable after undo number %d: %s" % (n + 1, e), out)
            break
        if n == 0:
            if v != states[-2]:
                bad(ctx, u, path, "after undo: state is\n  %s\nexpected\n  %s\nbefore undo\n  %s" % (
                    describe(w, v), describe(w, states[-2]), describe(w, states[-1])), out)
                break
            ctx.outcome("undone")
        elif v != states[-1]:
            bad(ctx, u, path, "after undoing the undo: state is\n  %s\nexpected\n  %s" % (
                describe(w, v), describe(w, states[-1])), out)
            break
    ctx.sample("; ".join(path))
    w.remove()
