"""C07: in-memory and on-disk rebases give the same result."""
import itertools

from ..graphs import ancestors, descendants, drafts, files_of, fmt, forests, make, Mismatch, observed, unlabelled
from ..repo import QueryFailed
from . import c01, c02

PROPERTY = "C07"
LEVEL = "exploration"
TECHNIQUE = ("bounded exhaustive enumeration of commit graphs x contents x branches x HEAD x move requests; differential "
             "oracle: the same request executed with --in-memory and with --on-disk from identical copies; merge commits "
             "(on-disk only) against a parent-map model")
RULE = "distinct (graph, contents, HEAD, request) for which both modes succeeded and rewrote something"
BOUND = {
    "quick": "main of 2 commits, all forests of <=2 drafts and the 3-draft chain and forks; contents: disjoint files, duplicate of a main "
             "commit, change contained in a main commit, empty commit, binary/mode/symlink/nested changes; two branches; HEAD on "
             "main, detached at first draft, on branch; source, exact and insert moves (fixups are not supported on disk) to every destination; "
             "merges of two drafts moved by source to main",
    "thorough": "as quick with all forests of 3 drafts",
}

STYLES = ["plain", "dup", "absorb", "empty", "kinds"]


def files_for(style):
    def files(g, k):
        res = {}
        for x in ancestors(g, k):
            if style == "empty" and x == "a":
                continue
            if style == "kinds":
                if x == "a":
                    res["d/s/f_a"] = ("100755", "run a\n")
                    res["link"] = ("120000", "f_m0")
                    continue
                if x == "b":
                    res["f_m0"] = ("100755", "contents of m0\n")
                    res["d/s/f_b"] = "\0bin\n"
                    continue
            res["f_" + x] = "contents of %s\n" % x
            if x == "m1" and style in ("dup", "absorb"):
                res["f_a"] = "contents of a\n"
                if style == "dup":
                    del res["f_m1"]
        if style == "kinds" and "b" in ancestors(g, k):
            res["f_m0"] = ("100755", "contents of m0\n")
        return res
    return files


def graphs(tier):
    for n in (1, 2):
        yield from unlabelled(forests(2, n))
    if tier == "quick":
        for b, c in (("a", "b"), ("a", "a"), ("m0", "a")):
            yield {"m0": [], "m1": ["m0"], "a": ["m0"], "b": [b], "c": [c]}
    else:
        yield from unlabelled(forests(2, 3))


def merge_graphs():
    yield {"m0": [], "m1": ["m0"], "a": ["m0"], "b": ["a"], "c": ["a"], "d": ["b", "c"]}
    yield {"m0": [], "m1": ["m0"], "a": ["m0"], "b": ["a"], "c": ["a"], "d": ["b", "c"], "e": ["d"]}
    yield {"m0": [], "m1": ["m0"], "a": ["m0"], "b": ["m0"], "c": ["a", "b"]}
    yield {"m0": [], "m1": ["m0"], "a": ["m0"], "b": ["m0"], "c": ["a", "b"], "d": ["c"]}
    yield {"m0": [], "m1": ["m0"], "a": ["m0"], "b": ["m0"], "c": ["b", "a"], "d": ["c"]}
    yield {"m0": [], "m1": ["m0"], "a": ["m0"], "b": ["a"], "c": ["a"], "d": ["c", "b"], "e": ["b"]}
    yield {"m0": [], "m1": ["m0"], "a": ["m0"], "b": ["a"], "c": ["m0"], "d": ["b", "c"], "e": ["d"], "f": ["a"]}


def units(tier):
    for g in graphs(tier):
        ds = drafts(g)
        for style in STYLES:
            if style in ("dup", "absorb", "empty") and "m1" in ancestors(g, "a"):
                continue
            for head in ("refs/heads/master", ds[0], "refs/heads/two"):
                if style != "plain" and head == "refs/heads/master":
                    continue
                if tier == "quick" and len(ds) == 3 and style in ("dup", "kinds") and head != ds[0]:
                    continue
                yield {"g": g, "style": style, "head": head}
    for g in merge_graphs():
        for head in ("refs/heads/master", drafts(g)[0], drafts(g)[-1]):
            yield {"g": g, "style": "plain", "head": head, "merge": True}


def requests(g, few):
    ds = drafts(g)
    for d in ds:
        for dest in (["m0", "m1"] + ds if not few else ["m1", ds[-1]]):
            if dest == d:
                continue
            for mode in "sx":
                for ins in (False, True):
                    yield [mode, d, dest, ins, False]


def view(w):
    lab, par = observed(w)
    commits = {}
    for k, oid in lab.items():
        c = w.commit(oid)
        commits[k] = (par[k], sorted(w.files(oid).items()), c.message, c.author)
    refs = w.user_refs()
    name = lambda oid: w.commit(oid).message + "@" + ",".join(par.get(w.commit(oid).label, ["?"])) if w.commit(oid) else oid
    return {"commits": commits, "refs": {k: name(v) for k, v in refs.items()}, "head": name(w.head_oid(refs)),
            "status": w.ok("-c", "core.hooksPath=/dev/null", "status", "--porcelain"), "in_progress": w.in_progress()}


def run_unit(u, ctx):
    g, style, head = u["g"], u["style"], u["head"]
    ds = drafts(g)
    br = {"feature/one": ds[0], "two": ds[-1]}
    r, oids = make(ctx, g, branches=br, head=head, files=merge_files if u.get("merge") else files_for(style))
    if u.get("merge"):
        merges(ctx, u, r, g, oids)
        r.remove()
        return
    for q in requests(g, len(ds) == 3):
        if "only" in u and u["only"] != q:
            continue
        mode, src, dest, ins, fix = q
        try:
            if fix:
                c02.model(g, mode, [src], dest)
            else:
                c01.model(g, mode, [src], dest, ins)
        except c01.Refuse:
            continue
        if ins and not [k for k in g if dest in g[k] and k != src and k in ds]:
            continue
        args = ["move", "-" + mode, oids[src], "-d", oids[dest]] + (["--insert"] if ins else []) + \
            (["--fixup"] if fix else [])
        res = []
        for how in ("--in-memory", "--on-disk"):
            w = r.copy(ctx.tmp())
            out = w.gb(*args, how)
            ctx.transition()
            try:
                v = view(w) if out.rc == 0 else None
            except (Mismatch, QueryFailed) as e:
                v = {"unreadable": str(e)}
            changed = out.rc == 0 and w.head_oid() != r.head_oid() or out.rc == 0 and w.user_refs() != r.user_refs()
            res.append((out, v, changed))
            w.remove()
        ctx.evaluation()
        (o1, v1, ch), (o2, v2, _) = res
        label = "graph [%s] contents %s branches %s HEAD %s: %s" % (fmt(g), style, br, head, " ".join(map(str, q)))

        def bad(msg):
            ctx.violation("%s|%s|%s|%s" % (fmt(g), style, head, q), label + "\n" + msg + "\n" + repr(o1) + "\n" + repr(o2),
                          dict(u, only=q))

        if o1.timeout or o2.timeout or o1.panicked() or o2.panicked():
            bad("crashed")
            continue
        if (o1.rc == 0) != (o2.rc == 0):
            bad("only one mode succeeded")
            continue
        if v1 and "unreadable" in v1:
            bad("in memory: " + v1["unreadable"])
            continue
        if v1 != v2:
            d = {k: (v1[k], v2[k]) for k in v1 if v1.get(k) != v2.get(k)} if "unreadable" not in v2 else v2
            bad("results differ (in memory, on disk): %s" % d)
            continue
        ctx.outcome("equal" if o1.rc == 0 else "both refused")
        if ch:
            ctx.state(label)
        ctx.sample(label)
    r.remove()


def merge_files(g, k):
    """Merges contain no changes of their own (Git redoes a merge when
    rebasing it)."""
    return {"f_" + x: "contents of %s\n" % x for x in ancestors(g, k) if len(g[x]) < 2}


def merges(ctx, u, r, g, oids):
    """Moving a stack containing merges on disk."""
    ds = drafts(g)
    for src in ds:
        for dest in ["m1", "m0"]:
            q = [src, dest]
            if "only" in u and u["only"] != q:
                continue
            if dest in g[src]:
                continue
            if len(g[src]) > 1:
                continue
            want = {k: ([dest] if k == src else v) for k, v in g.items()}
            sub = descendants(g, src)
            w = r.copy(ctx.tmp())
            out = w.gb("move", "-s", oids[src], "-d", oids[dest], "--on-disk")
            ctx.transition()
            ctx.evaluation()
            label = "graph [%s] HEAD %s: move -s %s -d %s --on-disk" % (fmt(g), u["head"], src, dest)
            m = None
            try:
                if out.timeout or out.panicked() or out.rc != 0:
                    m = "failed"
                else:
                    lab, par = observed(w)
                    if par != want:
                        m = "wrong graph %s, expected %s" % (fmt(par), fmt(want))
                    for k in want if m is None else ():
                        got = {p: v[1].decode() for p, v in w.files(lab[k]).items()}
                        if got != merge_files(want, k):
                            m = "contents of %s are %s, expected %s" % (k, sorted(got), sorted(merge_files(want, k)))
                        elif w.commit(lab[k]).message != w.commit(oids[k]).message or \
                                w.commit(lab[k]).author != w.commit(oids[k]).author:
                            m = "message or author of %s changed" % k
                    refs = w.user_refs()
                    if m is None and (refs["refs/heads/two"] != lab[ds[-1]] or refs["refs/heads/feature/one"] != lab[ds[0]]):
                        m = "branches are %s" % refs
            except (Mismatch, QueryFailed) as e:
                m = str(e)
            if m:
                ctx.violation(label, label + "\n" + m + "\n" + repr(out), dict(u, only=q))
            else:
                ctx.outcome("merge moved")
                ctx.state(label)
            w.remove()
