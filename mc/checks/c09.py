"""C09: the state at every point of the event history is determined by the events before it."""
import os

from .. import core, smartlog
from ..graphs import ancestors, make
from ..repo import set_head
from .c18 import compare, expected, text

PROPERTY = "C09"
LEVEL = "model_checking"
TECHNIQUE = ("exhaustive enumeration of event histories: every sequence of hook invocations and hide/unhide commands is "
             "recorded by the real binary, every cursor position of the resulting history is displayed by the real "
             "binary, and each display is compared with a fold over the events before the cursor")
BOUND = {
    "quick": "%d operations (commits, rewrites, hiding, unhiding, creating, moving (also without stating the old value) and deleting branches one at a time and "
             "together, deletions reported twice, main branch, HEAD, tags and ignored references); all sequences of <=3 "
             "operations that differ in effect; every cursor position, and for one in five histories also counted from the end and "
             "out of range" % 16,
    "thorough": "as quick with sequences of 4 operations",
}
ASSUMPTIONS = ["before its first recorded update the main branch has its present value"]

G = {"m0": [], "m1": ["m0"], "a": ["m0"], "b": ["a"], "c": ["m0"]}
Z = "0" * 40

# name -> kind and arguments
OPS = {
    "commit a": ("commit", "a"),
    "commit b": ("commit", "b"),
    "rewrite a->c": ("rewrite", [("a", "c")]),
    "rewrite c->a": ("rewrite", [("c", "a")]),
    "rewrite a->c b->m1": ("rewrite", [("a", "c"), ("b", "m1")]),
    "hide a": ("hide", "a"),
    "hide b": ("hide", "b"),
    "unhide a": ("unhide", "a"),
    "one := b": ("refs", [("refs/heads/one", "b")]),
    "one := c": ("forced", [("refs/heads/one", "c")]),
    "one deleted": ("refs", [("refs/heads/one", None)]),
    "one deleted twice": ("refs2", [("refs/heads/one", None)]),
    "one := a, feature/x := c, HEAD := c": ("refs", [("refs/heads/one", "a"), ("refs/heads/feature/x", "c"), ("HEAD", "c")]),
    "master := m0": ("refs", [("refs/heads/master", "m0")]),
    "ignored": ("refs", [("ORIG_HEAD", "b"), ("refs/branchless/x", "b"), ("FETCH_HEAD", "b"), ("AUTO_MERGE", "b"),
                         ("CHERRY_PICK_HEAD", "b"), ("REBASE_HEAD", "b")]),
    "remote and tag := b": ("refs", [("refs/remotes/origin/q", "b"), ("refs/tags/t", "b")]),
}
IGNORED = {"ORIG_HEAD", "FETCH_HEAD", "AUTO_MERGE", "CHERRY_PICK_HEAD", "REBASE_HEAD", "refs/branchless/x"}


def units(tier):
    depth = 3 if tier == "quick" else 4
    for x in OPS:
        for y in OPS:
            yield {"first": [x, y], "depth": depth}


def events_of(op, refs):
    """The model: events an operation stands for.  refs: current values."""
    kind, arg = OPS[op]
    if kind == "commit":
        return [("ref", "HEAD", arg), ("show", arg)]
    if kind == "rewrite":
        return [("rewrite", x, y) for x, y in arg]
    if kind in ("hide", "unhide"):
        return [("hide" if kind == "hide" else "show", arg)]
    return [("ref", n, k) for n, k in arg if n not in IGNORED]


def append(events, new):
    for e in new:
        if e[0] == "ref" and e[2] is None and events and events[-1] == e:
            continue  # Git reports some deletions twice
        events.append(e)


def fold(events):
    status, refs = {}, {}
    for e in events:
        if e[0] == "ref":
            if e[2] is None:
                refs.pop(e[1], None)
            else:
                refs[e[1]] = e[2]
        elif e[0] == "rewrite":
            status[e[1]] = "hidden"
            status[e[2]] = "active"
        else:
            status[e[1]] = "active" if e[0] == "show" else "hidden"
    return status, refs


def hook(r, name, *args, stdin):
    res = r.run([os.path.join(core.BIN, "git-branchless"), "hook", name] + list(args), input=stdin)
    return res


def perform(r, op, oids, refs):
    kind, arg = OPS[op]
    outs = []
    if kind == "commit":
        outs.append(hook(r, "reference-transaction", "committed",
                         stdin="%s %s HEAD\n" % (oids[refs["HEAD"]] if "HEAD" in refs else Z, oids[arg])))
        set_head(r, ("oid", oids[arg]))
        outs.append(hook(r, "post-commit", stdin=""))
    elif kind == "rewrite":
        outs.append(hook(r, "post-rewrite", "amend", stdin="".join("%s %s\n" % (oids[x], oids[y]) for x, y in arg)))
    elif kind in ("hide", "unhide"):
        outs.append(r.gb(kind, oids[arg]))
    else:
        lines = "".join("%s %s %s\n" % (oids[refs[n]] if n in refs and kind != "forced" else Z, oids[k] if k else Z, n)
                        for n, k in arg)
        for state in ("prepared", "committed") if kind != "refs2" else ("committed", "committed"):
            outs.append(hook(r, "reference-transaction", state, stdin=lines))
            if kind == "refs2":
                lines = "".join("%s %s %s\n" % (Z, Z, n) for n, k in arg)
    return outs


def display(r, n):
    return smartlog.run(r, "--event-id=%d" % n)[0]


def run_unit(u, ctx):
    r, oids = make(ctx, G, observe=(), head="refs/heads/master")
    names = {v: k for k, v in oids.items()}
    display(r, 0)
    path = list(u["first"])
    tails = [[]]
    for _ in range(u["depth"] - len(path)):
        tails = [t + [op] for t in tails for op in OPS]
    if "only" in u:
        tails = [u["only"]]
    pre, base = [], r
    for op in path:
        base, pre = step(ctx, u, base, pre, op, oids)
        if base is None:
            return
    for t in tails:
        w, ev = base.copy(ctx.tmp()), list(pre)
        for op in t:
            w, ev = step(ctx, u, w, ev, op, oids, "%s" % (path + t))
            if w is None:
                break
        else:
            observe(ctx, u, w, ev, path + t, t, oids, names)
            w.remove()
    base.remove()


def step(ctx, u, r, events, op, oids, label=""):
    refs = fold(events)[1]
    outs = perform(r, op, oids, refs)
    ctx.transition()
    for out in outs:
        if out.rc != 0 or out.panicked():
            ctx.violation("%s %s" % (label, op), "operation %s failed: %r" % (op, out), u)
            return None, None
    events = list(events)
    append(events, events_of(op, refs))
    return r, events


def observe(ctx, u, r, events, seq, tail, oids, names):
    n = len(events)
    cursors = [("at", k) for k in range(n + 1)]
    if list(OPS).index(seq[-1]) % 5 == 0:
        cursors += [("back", k) for k in (1, 2, n + 1)] + [("at", n + 5), ("now", 0)]
    for cursor in cursors:
        how, k = cursor
        at = {"at": min(k, n), "back": max(n - k, 0), "now": n}[how]
        out = display(r, {"at": k, "back": -k, "now": 1000000}[how])
        ctx.evaluation()
        msg = check(r, out, events[:at], names)
        ctx.state(repr(events[:at]))
        if msg:
            label = "history %s, cursor %s %d of %d" % (seq, how, k, n)
            ctx.violation(label, label + "\n" + msg + "\n" + text(out.out, names) + out.err, dict(u, only=tail))
            return
    ctx.outcome("%d events" % n)
    if tail and tail[-1] == "commit a":
        ctx.sample({"history": seq, "events": events})


def check(r, out, events, names):
    if out.rc != 0 or out.panicked():
        return "failed"
    status, refs = fold(events)
    main = refs.get("refs/heads/master", "m1")
    br = {n[11:]: k for n, k in refs.items() if n.startswith("refs/heads/")}
    br["master"] = main
    head = refs.get("HEAD")
    public = ancestors(G, main)
    hidden = {k for k, s in status.items() if s == "hidden"}
    manual = {k for k in hidden if [e for e in events if e[0] != "ref" and k in e[1:]][-1][0] == "hide"}
    tips = [k for k, s in status.items() if s == "active"] + list(br.values()) + [main] + ([head] if head else [])
    visible = set().union(*(ancestors(G, t) for t in tips))
    sel = (visible - public) | set(br.values()) | ({head} if head else set())
    d = expected(G, sel, main, head or main, False)
    return compare(out.out, names, G, d, hidden, visible, head, main, br, False, manual)
