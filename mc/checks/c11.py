"""C11: everything done with plain Git is recorded.

Reference model: the set of live commits, changed by each Git command the way
the command is documented (commit adds one, amend and rebase replace), plus the
actual references.  The recorded history is observed through the smartlog of
the latest recorded event, which shows branches and HEAD as recorded."""
from ..graphs import make
from ..repo import QueryFailed
from .. import smartlog

PROPERTY = "C11"
LEVEL = "model_checking"
TECHNIQUE = ("explicit-state exploration of all sequences of plain Git commands up to a depth on the real binary and hooks; "
             "after every sequence the recorded references, visible commits and rewrites are compared with Git's own state "
             "and a model of which commits each command created or replaced")
BOUND = {
    "quick": "start: stack of 2 drafts + main of 2, branches on both (one of them with an unusual name), HEAD on branch / detached / on main; 32 Git commands; all "
             "sequences of 2 from the first start state, 1 from the others and 2 restricted to 10 reference-changing commands",
    "thorough": "all sequences of 2 from all start states, 3 of the reference-changing commands",
}
ASSUMPTIONS = ["`git branch -m` and `-c` are left out: git 2.43 does not report the new name to hooks",
               "`git rebase --abort` is explored on a detached HEAD only: git runs no hook when it reattaches HEAD to a branch",
               "branches which have not been touched since initialisation are not part of the recorded history"]
G = {"m0": [], "m1": ["m0"], "a": ["m0"], "b": ["a"]}
# an unusual but valid name, to see that it is handled as well
TWO = "t/w#o+@,\u00e9"
START = {"branch": ["checkout", "-q", TWO], "detached": ["checkout", "-q", "--detach", "{a}"], "main": ["checkout", "-q", "master"]}

# name: (edit before, git arguments, effect on the live set, extra environment)
OPS = {
    "commit": ("e new", ["commit", "-qm", "new"], "new", {}),
    "commit empty": (None, ["commit", "-q", "--allow-empty", "-m", "new"], "new", {}),
    "amend": ("e f_m0", ["commit", "-q", "--amend", "--no-edit"], "amend", {}),
    "amend msg": (None, ["commit", "-q", "--amend", "-m", "other"], "amend", {}),
    "branch": (None, ["branch", "new", "{a}"], None, {}),
    "branch -f": (None, ["branch", "-f", "one", "{m1}"], None, {}),
    "branch -D": (None, ["branch", "-D", "one"], None, {}),
    "branch -D two": (None, ["branch", "-D", "one", TWO], None, {}),
    "checkout": (None, ["checkout", "-q", "one"], None, {}),
    "checkout -b": (None, ["checkout", "-q", "-b", "fresh"], None, {}),
    "checkout -B": (None, ["checkout", "-q", "-B", "one", "{b}"], None, {}),
    "checkout detach": (None, ["checkout", "-q", "--detach", "{m1}"], None, {}),
    "switch -": (None, ["switch", "-q", "-"], None, {}),
    "switch -C": (None, ["switch", "-q", "-C", TWO, "{m1}"], None, {}),
    "reset hard": (None, ["reset", "-q", "--hard", "{m1}"], None, {}),
    "reset soft": (None, ["reset", "-q", "--soft", "HEAD^"], None, {}),
    "update-ref": (None, ["update-ref", "refs/heads/one", "{b}"], None, {}),
    "update-ref -d": (None, ["update-ref", "-d", "refs/heads/one"], None, {}),
    "pack-refs": (None, ["pack-refs", "--all"], None, {}),
    "tag": (None, ["tag", "-f", "t", "{b}"], None, {}),
    "merge": (None, ["merge", "-q", "--no-ff", "-m", "merged", "{b}"], "new", {}),
    "merge ff": (None, ["merge", "-q", "--ff-only", "{b}"], None, {}),
    "cherry-pick": (None, ["cherry-pick", "{b}"], "new*", {}),
    "cherry-pick 2": (None, ["cherry-pick", "{m0}..{b}"], "new*", {}),
    "revert": (None, ["revert", "--no-edit", "HEAD"], "new", {}),
    "rebase": (None, ["rebase", "-q", "{m1}"], "rebase", {}),
    "rebase onto": (None, ["rebase", "-q", "--onto", "{m1}", "HEAD^"], "rebase", {}),
    "rebase two": (None, ["rebase", "-q", "{m1}", TWO], "rebase", {}),
    "rebase fixup": (None, ["rebase", "-q", "-i", "{m1}"], "rebase", {"GIT_SEQUENCE_EDITOR": "sed -i '2,$s/^pick/fixup/'"}),
    "rebase drop": (None, ["rebase", "-q", "-i", "{m1}"], "rebase", {"GIT_SEQUENCE_EDITOR": "sed -i '1s/^pick/drop/'"}),
    "rebase reword": (None, ["rebase", "-q", "-i", "{m1}"], "rebase",
                      {"GIT_SEQUENCE_EDITOR": "sed -i 's/^pick/reword/'", "GIT_EDITOR": "sed -i '1s/$/ again/'"}),
    "rebase abort": (None, ["rebase", "-q", "-i", "{m1}"], "abort", {"GIT_SEQUENCE_EDITOR": "sed -i '1s/^pick/break\\npick/;$s/$/\\nexec false/'"}),
    "stash": ("e f_m0", ["stash", "-q"], None, {}),
}
REFS = ["branch", "branch -f", "branch -D", "branch -D two", "checkout -b", "checkout -B", "switch -C", "update-ref", "update-ref -d", "pack-refs"]


def units(tier):
    for st in START:
        full = 2 if st == "branch" or tier == "thorough" else 1
        for op in OPS:
            yield {"start": st, "first": op, "depth": full, "ops": "all"}
        if st != "branch" or tier == "thorough":
            for op in REFS:
                yield {"start": st, "first": op, "depth": 3 if tier == "thorough" else 2, "ops": "refs"}


class State:
    def __init__(self, live, rew, touched, vague=()):
        self.live, self.rew, self.touched, self.vague = set(live), dict(rew), set(touched), set(vague)

    def copy(self):
        return State(self.live, self.rew, self.touched, self.vague)


def run_unit(u, ctx):
    r, oids = make(ctx, G, head="a")
    r.ok("branch", "one", oids["a"])
    r.ok("branch", TWO, oids["b"])
    r.ok(*[x.format(**oids) for x in START[u["start"]]])
    st = State([oids["a"], oids["b"]], {}, ["one", TWO])
    path = u.get("only") or [u["first"]]
    explore(ctx, u, r, oids, st, [], path, len(path) if "only" in u else u["depth"])


def explore(ctx, u, r, oids, st, path, todo, depth):
    op = todo[0]
    w = r.copy(ctx.tmp())
    w.clock += 10
    st = st.copy()
    edit, args, effect, env = OPS[op]
    if edit:
        w.write(edit.split()[1], "edited %d\n" % w.clock)
        w.plain("add", "-A")
    before, head = w.user_refs(), w.head_oid()
    out = w.git(*[a.format(**oids) for a in args], env=env)
    ctx.transition()
    if effect == "abort":
        if not w.in_progress():
            ctx.outcome("no effect")
            return w.remove()
        w.git("rebase", "--abort")
        if w.head()[0] == "ref":
            ctx.outcome("HEAD reattached without a hook")
            return w.remove()
    elif out.rc != 0:
        ctx.outcome("refused by git")
        return w.remove()
    path = path + [op]
    apply(w, st, oids, op, before, head, effect)
    after = w.user_refs()
    for k in set(before) | set(after):
        if before.get(k) != after.get(k):
            st.touched.add(k[11:])
    ctx.state([u["start"], path[-1], sorted(after.items()), w.head_oid(), sorted(st.live)])
    if len(todo) == 1:
        check(ctx, u, w, st, path)
    nxt = [todo[1:]] if len(todo) > 1 else ([[o] for o in (REFS if u["ops"] == "refs" else OPS)] if depth > 1 else [])
    for t in nxt:
        explore(ctx, u, w, oids, st, path, t, depth - 1)
    w.remove()


def apply(w, st, oids, op, before, head, effect):
    now = w.head_oid()
    if effect == "new":
        st.live.add(now)
    elif effect == "new*":
        o = now
        while o != head:
            st.live.add(o)
            o = w.commit(o).parents[0]
    elif effect == "amend":
        replace(st, head, now)
    elif effect == "rebase":
        # the rebased commits are those between HEAD and m1 now
        new, o = [], now
        while o and o != oids["m1"]:
            c = w.commit(o)
            new.append(o)
            o = c.parents[0] if c.parents else None
        if o != oids["m1"]:
            return
        for n in new:
            if n in st.live:
                continue  # fast-forwarded over
            for old in [x for x in st.live | set(st.rew)]:
                if w.commit(old).author == w.commit(n).author and old not in new and matches(w, old, n, before, head):
                    replace(st, old, n)
            st.live.add(n)
        gone = [x for x in chain(w, head, oids["m1"]) if x in st.live and x not in new]
        if op == "rebase fixup":
            # folds the later commits into the first one
            for x in gone:
                replace(st, x, new[-1] if new else now)
        elif op != "rebase drop":
            # a commit which became empty is reported as rewritten or not at
            # all, depending on when git noticed
            st.vague.update(gone)


def chain(w, o, stop):
    res = []
    while o and o != stop:
        res.append(o)
        c = w.commit(o)
        o = c.parents[0] if c.parents else None
    return res


def matches(w, old, new, before, head):
    a, b = w.commit(old), w.commit(new)
    return a.label.replace(" again", "") == b.label.replace(" again", "")


def replace(st, old, new):
    if old == new:
        return
    st.live.discard(old)
    st.rew[old] = new
    st.live.add(new)
    st.rew.pop(new, None)


def ancestors(w, oids):
    res, todo = set(), [x for x in oids if x]
    while todo:
        x = todo.pop()
        if x not in res:
            res.add(x)
            todo += w.commit(x).parents
    return res


def bad(ctx, u, path, msg, out):
    label = "start %s: %s" % (u["start"], "; ".join(path))
    ctx.violation(label + "|" + msg.split(":")[0], label + "\n" + msg + "\n" + repr(out), dict(u, only=path))


def check(ctx, u, w, st, path):
    ctx.evaluation()
    refs = w.user_refs()
    head = w.head_oid()
    heads = {k[11:]: v for k, v in refs.items() if k.startswith("refs/heads/")}
    out, nodes = smartlog.run(w, "--event-id", "1000000")
    ctx.transition()
    if out.rc != 0 or out.panicked():
        return bad(ctx, u, path, "smartlog failed", out)
    rec = {}
    for n in nodes:
        for b in n.branches:
            rec[b] = n.oid
    for b in st.touched | set(rec):
        if rec.get(b) != heads.get(b) and not (b == "master" and b in heads and b not in rec):
            return bad(ctx, u, path, "recorded branch %s: %s, actual %s" % (b, rec.get(b), heads.get(b)), out)
    cur = [n.oid for n in nodes if n.current]
    if head and cur != [head]:
        return bad(ctx, u, path, "recorded HEAD: %s, actual %s" % (cur, head), out)
    try:
        vis = set(w.query("all()"))
    except QueryFailed as e:
        return bad(ctx, u, path, "unreadable: %s" % e, out)
    want = ancestors(w, (st.live - st.vague) | set(heads.values()) | {head})
    if not want <= vis <= ancestors(w, want | st.vague):
        n = lambda s: sorted("%s(%s)" % (o[:8], w.commit(o).label) for o in s)
        return bad(ctx, u, path, "visible commits: unexpected %s, missing %s" % (n(vis - want), n(want - vis)), out)
    out, nodes = smartlog.run(w)
    by = {n.oid: n for n in nodes}
    for old, new in st.rew.items():
        while new in st.rew:
            new = st.rew[new]
        if old in by and by[old].rewritten != new[:8]:
            return bad(ctx, u, path, "rewrite: %s is shown as rewritten into %s, expected %s" % (old[:8], by[old].rewritten, new[:8]), out)
    ctx.outcome("recorded")
    ctx.sample("; ".join(path))
