"""C08: restacking leaves no visible commit on an obsolete parent.

Reference model: versions of commits.  A version is (name, n, parent version);
amending v into n creates (name, n, parent of v) and records v -> new.  The
last event about a version decides: rewritten (with target), hidden, or live.
Restacking puts every live version on the newest version of its parent."""
from ..graphs import ancestors, drafts, fmt, make, Mismatch, observed, unlabelled, forests
from ..repo import QueryFailed

PROPERTY = "C08"
LEVEL = "model_checking"
TECHNIQUE = ("explicit-state exploration of all operation sequences (amend of any live or obsolete version, in place or on "
             "a branch, hide, checkout of a branch left on an obsolete version) over small graphs, executed on the real binary and restacked after every prefix; "
             "oracle: version model")
BOUND = {
    "quick": "main of 2 commits; chain of 3, fork, two stacks; all sequences of <=3 operations (chain of 2 and fork: "
             "<=3, others <=2) of amend to one of 2 contents (also the present one) / amend on branch / hide / checkout of an abandoned branch, restack twice after each prefix",
    "thorough": "as quick with 4 operations on the small graphs, 3 on the others, and all forests of 3 drafts",
}
ASSUMPTIONS = ["a commit whose rewriting was superseded by a later hide of the same commit is not explored"]

G = {
    "chain2": {"m0": [], "m1": ["m0"], "a": ["m0"], "b": ["a"]},
    "fork": {"m0": [], "m1": ["m0"], "a": ["m0"], "b": ["a"], "c": ["a"]},
    "chain3": {"m0": [], "m1": ["m0"], "a": ["m0"], "b": ["a"], "c": ["b"]},
    "stacks": {"m0": [], "m1": ["m0"], "a": ["m0"], "b": ["a"], "c": ["m1"], "d": ["c"]},
    "chain4": {"m0": [], "m1": ["m0"], "a": ["m0"], "b": ["a"], "c": ["b"], "d": ["c"]},
}


class Model:
    def __init__(self, g, branches, head):
        self.par = {}
        ids = {}
        for k, ps in g.items():
            v = (k, 0, ids[ps[0]] if ps else None)
            ids[k] = v
        self.versions = [ids[k] for k in g]
        self.rew = {}
        self.hidden = set()
        self.branches = {n: ids[k] for n, k in branches.items()}
        self.head = ids[head]
        self.on = None

    def copy(self):
        m = Model.__new__(Model)
        m.__dict__.update(versions=list(self.versions), rew=dict(self.rew), hidden=set(self.hidden),
                          branches=dict(self.branches), head=self.head, on=self.on)
        return m

    def key(self):
        return repr((sorted(map(repr, self.versions)), sorted((repr(k), repr(v)) for k, v in self.rew.items()),
                     sorted(map(repr, self.hidden)), sorted((k, repr(v)) for k, v in self.branches.items()),
                     repr(self.head), self.on))

    def live(self):
        return [v for v in self.versions if v not in self.rew and v not in self.hidden]

    def shown(self):
        res = []
        for v in self.live() + list(self.branches.values()) + [self.head]:
            while v is not None and v not in res:
                res.append(v)
                v = v[2]
        return res

    def newest(self, v):
        seen = set()
        while v in self.rew and v not in seen:
            seen.add(v)
            v = self.rew[v]
        return v

    def amend(self, v, n, branch=None):
        w = (v[0], n, v[2])
        if w not in self.versions:
            self.versions.append(w)
        self.rew.pop(w, None)
        self.hidden.discard(w)
        self.hidden.discard(v)
        if w != v:
            self.rew[v] = w
        self.head = w
        self.on = branch
        if branch:
            self.branches[branch] = w
        return w

    def restacked(self):
        """After restacking: {version: its restacked form}."""
        memo = {}
        public = lambda v: v[0].startswith("m")
        shown = self.shown()

        def place(v):
            if v in memo:
                return memo[v]
            if v[2] is None or public(v):
                memo[v] = v
                return v
            if v in self.rew:
                memo[v] = v
                return v
            p = self.newest(v[2])
            # a hidden commit is not moved off a rewritten parent by itself
            # (and so neither is what is visible on top of it)
            if v in self.hidden and (v[2] in self.rew or v not in shown):
                memo[v] = v
                return v
            w = (v[0], v[1], place(p))
            memo[v] = w
            return w

        return place


def name(v):
    return v[0] if v[1] == 0 else "%s.%d" % (v[0], v[1])


def contents(v):
    res = {}
    while v is not None:
        res.setdefault("f_" + v[0], "contents of %s\n" % name(v) if v[1] else "contents of %s\n" % v[0])
        v = v[2]
    return res


def ops(m, hide):
    vs = m.shown()
    for v in vs:
        if v[0].startswith("m"):
            continue
        for n in (1, 2):
            # amending a version into itself changes nothing
            if n != v[1] or v not in m.rew:
                yield ("amend", v, n)
        if hide and v not in m.rew and v not in m.hidden:
            yield ("hide", v)
    for b, v in m.branches.items():
        if v[0].startswith("m"):
            continue
        n = v[1] % 2 + 1
        yield ("amend-branch", b, n)
        if v in m.rew and m.on != b:
            yield ("checkout", b)


def units(tier):
    if tier == "quick":
        plan = [("chain2", 3, True), ("fork", 2, True), ("chain3", 2, True), ("stacks", 2, False), ("chain4", 2, False)]
    else:
        plan = [("chain2", 4, True), ("fork", 3, True), ("chain3", 3, True), ("stacks", 3, False), ("chain4", 2, True)]
    for n, depth, hide in plan:
        g = G[n]
        ds = drafts(g)
        for br in ({}, {"one": ds[0], "two": ds[-1]}):
            m = Model(g, br, ds[-1])
            for i, op in enumerate(ops(m, hide)):
                yield {"g": g, "br": br, "depth": depth, "hide": hide, "first": i}


def run_unit(u, ctx):
    g = u["g"]
    ds = drafts(g)
    r, oids = make(ctx, g, branches=u["br"], head=ds[-1])
    m = Model(g, u["br"], ds[-1])
    ids = {v: oids[v[0]] for v in m.versions}
    if "only" in u:
        run_path(u, ctx, r, m, ids)
        return
    seen = set()
    op = list(ops(m, u["hide"]))[u["first"]]
    if u["first"] == 0:
        check(ctx, u, r, m, ids, [])
    explore(ctx, u, r, m, ids, [], op, u["depth"], seen)
    r.remove()


def explore(ctx, u, r, m, ids, path, op, depth, seen):
    w = r.copy(ctx.tmp())
    m2, ids2 = m.copy(), dict(ids)
    path = path + [op]
    err = apply(ctx, w, m2, ids2, op)
    if err:
        ctx.violation("%s|%s" % (fmt(u["g"]), path), "%s\n%s" % (show(u, path), err), dict(u, only=[list(map(str, p)) for p in path]))
        w.remove()
        return
    k = m2.key()
    ctx.state([fmt(u["g"]), k])
    if (k, depth) not in seen:
        seen.add((k, depth))
        check(ctx, u, w, m2, ids2, path)
        if depth > 1:
            for o in ops(m2, u["hide"]):
                explore(ctx, u, w, m2, ids2, path, o, depth - 1, seen)
    w.remove()


def run_path(u, ctx, r, m, ids):
    path = []
    for want in u["only"]:
        for o in ops(m, u["hide"]):
            if list(map(str, o)) == want:
                err = apply(ctx, r, m, ids, o)
                path.append(o)
                if err:
                    ctx.violation("replay", err, u)
                    return
                break
        else:
            raise Exception("replay path does not apply")
    check(ctx, u, r, m, ids, path)


def apply(ctx, w, m, ids, op):
    ctx.transition()
    if op[0] == "hide":
        out = w.gb("hide", "--no-delete-branches", ids[op[1]])
        if out.rc != 0:
            return "hide failed: %r" % out
        m.hidden.add(op[1])
        return
    if op[0] == "checkout":
        w.ok("checkout", "-q", op[1])
        m.head, m.on = m.branches[op[1]], op[1]
        return
    if op[0] == "amend":
        v, n, br = op[1], op[2], None
        w.ok("checkout", "-q", "--detach", ids[v])
    else:
        br, n = op[1], op[2]
        v = m.branches[br]
        w.ok("checkout", "-q", br)
    nv = (v[0], n, v[2])
    w.write("f_" + v[0], contents(nv)["f_" + v[0]])
    w.ok("commit", "-q", "-a", "--amend", "-m", name(nv))
    m.amend(v, n, br)
    oid = w.head_oid()
    if nv in ids and ids[nv] != oid:
        return "HARNESS: version %s has two ids" % (nv,)
    ids[nv] = oid


def show(u, path):
    return "graph [%s] branches %s: %s" % (fmt(u["g"]), u["br"], "; ".join(
        "%s %s" % (o[0], " ".join(name(x) if isinstance(x, tuple) else str(x) for x in o[1:])) for o in path))


def check(ctx, u, r, m, ids, path):
    check_with(ctx, u, r, m, ids, path, ())
    if len(m.rew) == 1:
        # naming the only abandoned commit makes no difference
        check_with(ctx, u, r, m, ids, path, [ids[v] for v in m.rew])


def check_with(ctx, u, r, m, ids, path, args):
    w = r.copy(ctx.tmp())
    out = w.gb("restack", *args)
    ctx.transition()
    ctx.evaluation()
    label = show(u, path) + (" (named)" if args else "")

    def bad(msg):
        ctx.violation("%s|%s|%s" % (fmt(u["g"]), sorted(u["br"].items()), label), label + "\n" + msg + "\n" + repr(out),
                      dict(u, only=[list(map(str, p)) for p in path]))

    try:
        msg = verdict(ctx, w, m, ids, out)
        if msg is None:
            s1 = w.user_state()
            out = w.gb("restack")
            ctx.transition()
            if out.rc != 0 or w.user_state() != s1:
                msg = "a second restack changed something or failed"
        if msg:
            bad(msg)
        else:
            ctx.sample(label)
    except (Mismatch, QueryFailed) as e:
        bad(str(e))
    w.remove()


def verdict(ctx, w, m, ids, out):
    if out.rc != 0 or out.timeout or out.panicked():
        return "restack failed"
    place = m.restacked()
    live = [place(v) for v in m.live()]
    branches = {n: place(m.newest(v)) for n, v in m.branches.items()}
    moved = any(place(v) != v for v in m.live())
    ctx.outcome("restacked" if moved else "nothing to do")
    vis = set(w.query("all()"))
    by = {}
    for oid in vis:
        by.setdefault(w.commit(oid).label, []).append(oid)

    def find(v):
        """The visible commit with exactly this version's history."""
        res = []
        for oid in by.get(name(v), []):
            x, o = v, oid
            ok = True
            while x is not None:
                c = w.commit(o)
                if c.label != name(x):
                    ok = False
                    break
                x = x[2]
                if (x is None) != (not c.parents):
                    ok = False
                    break
                o = c.parents[0] if c.parents else None
            if ok:
                res.append(oid)
        return res

    used = set()
    for v in live:
        f = find(v)
        if len(f) != 1:
            return "expected exactly one visible commit %s (history %s), found %s; visible: %s" % (
                name(v), hist(v), f, sorted((w.commit(o).label, [w.commit(p).label for p in w.commit(o).parents]) for o in vis))
        got = {p: x[1].decode() for p, x in w.files(f[0]).items()}
        if got != contents(v):
            return "contents of %s are %s, expected %s" % (name(v), got, contents(v))
        o = f[0]
        while o is not None:
            used.add(o)
            c = w.commit(o)
            o = c.parents[0] if c.parents else None
    refs = w.user_refs()
    for n, v in branches.items():
        f = find(v)
        if refs.get("refs/heads/" + n) not in f:
            return "branch %s is at %s, expected %s (history %s)" % (
                n, refs.get("refs/heads/" + n), name(v), hist(v))
        used.update(anc(w, refs["refs/heads/" + n]))
    used.update(anc(w, w.head_oid(refs)))
    if m.head not in m.rew and m.head not in m.hidden:
        if w.head_oid(refs) not in find(place(m.head)):
            return "HEAD is at %s, expected %s" % (w.commit(w.head_oid(refs)).label, name(m.head))
    if m.on and w.head() != ("ref", "refs/heads/" + m.on):
        return "HEAD is %s, expected branch %s" % (w.head(), m.on)
    if vis - used:
        return "unexpected visible commits: %s" % sorted(w.commit(o).label for o in vis - used)
    if w.ok("-c", "core.hooksPath=/dev/null", "status", "--porcelain").strip():
        return "working copy is not clean"


def anc(w, oid):
    while oid is not None:
        yield oid
        c = w.commit(oid)
        oid = c.parents[0] if c.parents else None


def hist(v):
    res = []
    while v is not None:
        res.append(name(v))
        v = v[2]
    return " on ".join(res)
