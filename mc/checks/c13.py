"""C13: garbage collection never removes a commit that is still in use."""
import itertools

from ..graphs import make
from ..repo import QueryFailed
from .c12 import describe, resolve

PROPERTY = "C13"
LEVEL = "model_checking"
TECHNIQUE = ("explicit-state exploration of all operation sequences up to a depth on the real binary (garbage collection itself "
             "being one of the operations); after every sequence collection, reflog expiry and pruning are run and every "
             "object of the visible commits must survive")
BOUND = {
    "quick": "2-draft stack, with / without branches or a merge on top, HEAD on the stack or on main; all sequences of 2 of 27 operations and of 3 of 8 core operations",
    "thorough": "all sequences of 3 operations from the first start state, 4 of the core operations",
}
G = {"m0": [], "m1": ["m0"], "a": ["m0"], "b": ["a"]}
MERGE = dict(G, c=["b", "m1"])
START = {
    "plain": ({}, "b"),
    "main": ({}, "refs/heads/master"),
    "branch": ({"one": "a", "two": "b"}, "refs/heads/two"),
    "merge": ({}, "refs/heads/master"),
}
OPS = {
    "commit": ("edit new", ["commit", "-m", "new"]),
    "git amend": ("edit f_m0", ["commit", "--amend", "--no-edit"]),
    "amend": ("edit f_m0", ["branchless", "amend"]),
    "record": ("edit f_m0", ["branchless", "record", "-m", "recorded"]),
    "record -I": ("edit f_m0", ["branchless", "record", "-m", "recorded", "--insert"]),
    "record -d": ("edit f_m0", ["branchless", "record", "-m", "recorded", "--stash"]),
    "move a": (None, ["branchless", "move", "-s", "{a}", "-d", "{m1}"]),
    "move b": (None, ["branchless", "move", "-x", "{b}", "-d", "{m1}"]),
    "move b disk": (None, ["branchless", "move", "--on-disk", "-x", "{b}", "-d", "{m1}"]),
    "swap": (None, ["branchless", "move", "-x", "{b}", "-d", "{m0}", "--insert"]),
    "fixup": (None, ["branchless", "move", "--fixup", "-x", "{b}", "-d", "{a}"]),
    "reword a": (None, ["branchless", "reword", "-m", "reworded", "{a}"]),
    "hide a": (None, ["branchless", "hide", "{a}"]),
    "hide b": (None, ["branchless", "hide", "{b}"]),
    "unhide a": (None, ["branchless", "unhide", "-r", "{a}"]),
    "unhide b": (None, ["branchless", "unhide", "{b}"]),
    "restack": (None, ["branchless", "restack"]),
    "undo": (None, ["branchless", "undo", "-y"]),
    "gc": (None, ["branchless", "gc"]),
    "checkout m": (None, ["checkout", "-q", "--detach", "{m1}"]),
    "checkout a": (None, ["checkout", "-q", "--detach", "{a}"]),
    "branch": (None, ["branch", "-f", "new", "{b}"]),
    "branch -D": (None, ["branch", "-D", "two"]),
    "reset": (None, ["reset", "-q", "--hard", "{m1}"]),
    "rebase": (None, ["rebase", "-q", "{m1}"]),
    "merge": (None, ["merge", "-q", "--no-ff", "-m", "merged", "{b}"]),
    "cherry-pick": (None, ["cherry-pick", "{b}"]),
}
CORE = ["git amend", "move a", "hide a", "unhide a", "undo", "gc", "checkout m", "restack"]


def units(tier):
    for st in START:
        for op in OPS:
            yield {"start": st, "first": op, "depth": 3 if tier == "thorough" and st == "plain" else 2, "ops": "all"}
        for x, y in itertools.product(CORE, CORE):
            yield {"start": st, "first": x, "second": y, "depth": 4 if tier == "thorough" else 3, "ops": "core"}


def view(w):
    refs = w.user_refs()
    return {"branches": {k: v for k, v in refs.items()}, "head": w.head_oid(refs), "visible": sorted(w.query("all()"))}


def run_unit(u, ctx):
    br, head = START[u["start"]]
    r, oids = make(ctx, MERGE if u["start"] == "merge" else G, branches=br, head=head)
    path = u.get("only") or ([u["first"]] + ([u["second"]] if "second" in u else []))
    explore(ctx, u, r, oids, [], path, u["depth"] if "only" not in u else len(path), set())


def explore(ctx, u, r, oids, path, todo, depth, seen):
    op = todo[0]
    w = r.copy(ctx.tmp())
    w.clock += 10
    try:
        names = resolve(w, oids, w.query("all()"))
        if op.startswith("unhide"):
            names = oids
        pre, args = OPS[op]
        args = [a.format(**names) for a in args]
    except (KeyError, QueryFailed):
        return w.remove()
    if pre:
        w.write(pre.split()[1], "edited %d\n" % w.clock)
        w.plain("add", "-A")
    out = w.git(*args)
    ctx.transition()
    path = path + [op]
    if op == "gc" and (out.rc != 0 or out.panicked()):
        bad(ctx, u, path, "gc failed", out)
    if out.rc != 0:
        ctx.outcome("refused")
        return w.remove()
    if len(todo) > 1:
        explore(ctx, u, w, oids, path, todo[1:], depth - 1, seen)
        return w.remove()
    try:
        v = view(w)
    except QueryFailed as e:
        bad(ctx, u, path, "unreadable: %s" % e, out)
        return w.remove()
    key = repr((path[-1], sorted(w.refs().items()), v))
    ctx.state([u["start"], key])
    if key not in seen:
        seen.add(key)
        check(ctx, u, w, path, v)
        if depth > 1:
            for o in (CORE if u["ops"] == "core" else OPS):
                explore(ctx, u, w, oids, path, [o], depth - 1, seen)
    w.remove()


def bad(ctx, u, path, msg, out):
    label = "start %s: %s" % (u["start"], "; ".join(path))
    ctx.violation(label + "|" + msg.split(":")[0], label + "\n" + msg + "\n" + repr(out), dict(u, only=path))


def check(ctx, u, r, path, v):
    w = r.copy(ctx.tmp())
    ctx.evaluation()
    out = w.gb("gc")
    ctx.transition()
    if out.rc != 0 or out.panicked():
        bad(ctx, u, path, "gc failed", out)
        return w.remove()
    w.plain("reflog", "expire", "--expire=now", "--expire-unreachable=now", "--all")
    w.plain("prune", "--expire=now")
    present = set(w.ok("cat-file", "--batch-all-objects", "--batch-check=%(objectname)").split())
    missing = [o for o in set(v["visible"]) | set(v["branches"].values()) | {v["head"]} if o and o not in present]
    if missing:
        bad(ctx, u, path, "lost commits: %s of\n  %s" % (missing, describe(r, v)), out)
        return w.remove()
    o2 = w.git("rev-list", "--objects", "--stdin", input="".join(
        o + "\n" for o in v["visible"] + [v["head"]] + list(v["branches"].values()) if o))
    if o2.rc != 0 or set(l.split()[0] for l in o2.out.splitlines()) - present:
        bad(ctx, u, path, "lost objects", o2)
        return w.remove()
    try:
        after = view(w)
    except QueryFailed as e:
        bad(ctx, u, path, "unreadable after collection: %s" % e, out)
        return w.remove()
    if after != v:
        bad(ctx, u, path, "collection changed the state: from\n  %s\nto\n  %s" % (describe(r, v), describe(r, after)), out)
    else:
        before = set(r.ok("cat-file", "--batch-all-objects", "--batch-check=%(objectname)").split())
        ctx.outcome("something collected" if before - present else "nothing collected")
        ctx.sample("; ".join(path))
    w.remove()
