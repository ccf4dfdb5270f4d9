"""C06: public commits are never rewritten unless forced."""
import itertools

from ..graphs import ancestors, drafts, fmt, forests, make, Mismatch, observed, unlabelled
from ..repo import QueryFailed

PROPERTY = "C06"
LEVEL = "exploration"
TECHNIQUE = ("bounded exhaustive enumeration of commit graphs x commands x arguments that reach public commits, on the real "
             "binary; oracle: main and its commits unchanged, exit code, and success when forced")
RULE = "distinct (graph, HEAD, command) that would have to rewrite a public commit"
BOUND = {
    "quick": "linear and merged main branches of 3 commits, all forests of <=2 drafts, every command with every public "
             "target (direct, through descendants, default arguments, mixed sets), with and without force; "
             "HEAD on main / on a draft",
    "thorough": "as quick with forests of 3 drafts",
}


def graphs(tier):
    for n in range(0, 3 if tier == "quick" else 4):
        for g in unlabelled(forests(3, n)):
            yield g
    # a main branch containing a merge
    yield {"m0": [], "m1": ["m0"], "m2": ["m0"], "m3": ["m1", "m2"], "a": ["m1"], "b": ["m3"]}
    yield {"m0": [], "m1": ["m0"], "m2": ["m0"], "m3": ["m1", "m2"], "a": ["m2"], "b": ["a"]}


def units(tier):
    for g in graphs(tier):
        ds = drafts(g)
        for head in ["refs/heads/master", "m1"] + ds[:2]:
            yield {"g": g, "head": head}


def commands(g, o, head):
    ms = [k for k in g if k.startswith("m")]
    ds = drafts(g)
    last = ms[-1]
    for m in ms[1:]:
        for dest in ds + [x for x in ms if x != m]:
            for mode in "sx":
                if mode == "x" and len(g[m]) > 1:
                    continue
                yield ["move", "-" + mode, o[m], "-d", o[dest]], (mode, m, dest)
        for d in ds:
            # a mixed set: one draft and one public commit
            yield ["move", "-s", o[m] + "+" + o[d], "-d", o["m0"]], None
            yield ["move", "-x", o[d], "-x", o[m], "-d", o["m0"]], None
            yield ["move", "--fixup", "-x", o[d], "-d", o[m]], None
            yield ["move", "--fixup", "-x", o[m], "-d", o[d]], None
            yield ["reword", "-m", "new", o[d], o[m]], None
        yield ["reword", "-m", m, "-m", "new", o[m]], ("reword", m)
    # (rewording a root commit is not supported even when forced)
    yield ["reword", "-m", "m0", "-m", "new", o["m0"]], None
    yield ["reword", "-m", "x", "public()"], None
    yield ["reword", "-m", "x", "main()"], None
    yield ["move", "-b", o[last], "-d", o["m0"]], None
    for m in ms[1:]:
        yield ["test", "fix", "-x", "echo fixed >f_" + m, o[m]], None
        for d in ds:
            yield ["test", "fix", "-x", "echo fixed >f_" + m, o[m] + "+" + o[d]], None
    for d in ds:
        # inserting below something public
        for m in ms[:-1]:
            yield ["move", "-x", o[d], "-d", o[m], "--insert"], None
            yield ["move", "--fixup", "-x", o[d], "-d", o[m]], None


def run_unit(u, ctx):
    g, head = u["g"], u["head"]
    r, oids = make(ctx, g, head=head)
    before = r.user_state()
    mains = {k: oids[k] for k in g if k.startswith("m")}
    seen = set()
    for args, forced in commands(g, oids, head):
        if tuple(args) in seen:
            continue
        seen.add(tuple(args))
        if "only" in u and u["only"] != args:
            continue
        case(ctx, u, r, g, oids, before, args, forced)
    defaults(ctx, u, r, g, oids, before)
    r.remove()


def case(ctx, u, r, g, oids, before, args, forced):
    label = "graph [%s] HEAD %s: %s" % (fmt(g), u["head"], named(args, oids))

    def bad(msg, out):
        ctx.violation("%s|%s|%s" % (fmt(g), u["head"], named(args, oids)), label + "\n" + msg + "\n" + repr(out),
                      dict(u, only=args))

    w = r.copy(ctx.tmp())
    out = w.gb(*args)
    ctx.transition()
    ctx.evaluation()
    ctx.state(label)
    try:
        if out.timeout:
            return bad("timed out", out)
        after = w.user_state()
        if out.rc == 0:
            if after["refs"] != before["refs"]:
                return bad("succeeded without force and changed references: %s -> %s" % (
                    before["refs"], after["refs"]), out)
            return bad("succeeded without force", out)
        if after != before:
            return bad("refused but changed the repository", out)
        ctx.outcome("refused")
        if forced and u["head"] == "refs/heads/master":
            f = w.gb(args[0], "-f", *args[1:])
            ctx.transition()
            force_ok(ctx, w, g, oids, forced, f, lambda m: bad("with force: " + m, f))
        ctx.sample(label)
    except QueryFailed as e:
        bad("query failed afterwards: %s" % e, out)
    finally:
        w.remove()


def force_ok(ctx, w, g, oids, forced, out, bad):
    """The same request goes through when forced (where it makes sense)."""
    if forced[0] == "reword":
        m = forced[1]
        if out.rc != 0:
            # rebasing merges in memory is not supported by reword
            if any(len(v) > 1 for v in g.values()):
                return
            return bad("reword -f failed")
        lab, par = observed(w)
        if w.commit(lab[m]).message.strip() != m + "\n\nnew" or par != {k: g[k] for k in par}:
            return bad("reword -f gave the wrong result")
        ctx.outcome("forced")
        return
    if any(len(v) > 1 for v in g.values()):
        return
    from . import c01
    g2 = {("p" + k[1:] if k.startswith("m") and k != "m0" else k): [("p" + p[1:] if p.startswith("m") and p != "m0" else p)
                                                                  for p in v] for k, v in g.items()}
    ren = lambda k: "p" + k[1:] if k.startswith("m") and k != "m0" else k
    try:
        want, _ = c01.model(g2, forced[0], [ren(forced[1])], ren(forced[2]), False)
    except c01.Refuse:
        if out.rc == 0:
            bad("impossible request succeeded")
        return
    if out.rc != 0:
        return bad("failed although forced")
    lab, par = observed(w)
    got = {ren(k): [ren(p) for p in v] for k, v in par.items()}
    # what the moved main branch leaves behind was never recorded as a draft
    # and need not stay visible
    tips = [ren([k for k in g if k.startswith("m")][-1])] + drafts(g)
    kept = set().union(*(ancestors(want, t) for t in tips))
    if any(got.get(k) != want[k] for k in kept) or any(k not in want for k in got):
        return bad("wrong graph %s, expected %s" % (fmt(got), fmt(want)))
    ctx.outcome("forced")


def named(args, oids):
    s = " ".join(args)
    for k, v in oids.items():
        s = s.replace(v, k)
    return s


def defaults(ctx, u, r, g, oids, before):
    """Default arguments, and rewriting of HEAD itself."""
    on_public = u["head"] == "refs/heads/master" or u["head"].startswith("m")
    if not on_public:
        return
    last = [k for k in g if k.startswith("m")][-1]
    at = last if u["head"].startswith("refs/") else u["head"]
    reqs = [["reword", "-m", "new"]]
    if at != "m0":
        reqs.append(["move", "-d", oids["m0"]])
    for args in reqs:
        case(ctx, u, r, g, oids, before, args, None)
    # amend of a public commit
    w = r.copy(ctx.tmp())
    w.write("f_m0", "amended\n")
    b = w.user_state()
    out = w.gb("amend")
    ctx.transition()
    ctx.evaluation()
    a = w.user_state()
    label = "graph [%s] HEAD %s: amend" % (fmt(g), u["head"])
    if out.rc == 0 or a != b:
        ctx.violation(label, label + "\namend of a public commit was not refused cleanly\n" + repr(out), u)
    w.remove()
