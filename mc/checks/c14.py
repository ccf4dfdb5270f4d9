"""C14: a working-copy snapshot restores exactly what was captured."""
import itertools

from ..graphs import make
from ..repo import GIT, blob_oid
from .. import core, wcopy

PROPERTY = "C14"
LEVEL = "exploration"
TECHNIQUE = ("exhaustive enumeration of (HEAD, index, disk) states including conflict stages, captured and restored by the real "
             "binary in several situations, comparing HEAD, all index stages and the tracked files on disk with the capture")
RULE = "distinct (captured state, situation at restore time) restored exactly"
BOUND = {
    "quick": "one path with 6 states per layer (216 triples) restored in 3 situations (same commit, other commit, other uncommitted changes); "
             "two paths over 3 and 2 states per layer (renames); 3 states in each of the three conflict stages x 3 disk x 3 HEAD states; "
             "10 states each under 5 settings of `git status`; amend followed by undo over 4 states per layer; on a branch and detached",
    "thorough": "8 states per layer; two paths over 3 states each; everything in all situations",
}
ASSUMPTIONS = ["no clean/smudge filters or submodules", "snapshots of a repository without any commit are not explored",
               "the three stages of a conflict are not all equal (Git never produces that)",
               "undo is explored when amend left no uncommitted change",
               "files which are not in the index (deleted there but still on disk) count as untracked"]
P, Q = "d/p", "q"
BASE = {"f_m0": ("100644", b"main\n"), "f_a": ("100644", b"a\n"), "dir/f": ("100644", b"f\n")}
CONFIGS = {
    "showStash": ["status.showStash=true"],
    "branch": ["status.branch=true", "status.aheadBehind=true", "status.short=true"],
    "copies": ["status.renames=copies", "status.renameLimit=100"],
    "no renames": ["status.renames=false", "diff.renames=false"],
    "untracked": ["status.showUntrackedFiles=all", "core.quotePath=true", "status.relativePaths=true"],
}
SITUATIONS = ["same", "other", "dirty"]


def units(tier):
    deep = tier == "thorough"
    one = ["".join(t) for t in itertools.product("-ABXLMDF" if deep else "-ABXLD", repeat=3)]
    yield from chunks([{P: s} for s in one], "plain", SITUATIONS)
    three = ["".join(t) for t in itertools.product("-AB", repeat=3)]
    two = three if deep else ["".join(t) for t in itertools.product("-A", repeat=3)]
    yield from chunks([{P: s, Q: t} for s in three for t in two], "plain", SITUATIONS if deep else ["other"])
    stages = [s for s in map("".join, itertools.product("-ABX" if deep else "-AB", repeat=3)) if len(set(s)) > 1]
    cases = [{P: h + st + w} for h in "-AL" for w in ("-ABLD" if deep else "-CL") for st in stages]
    yield from chunks(cases, "conflict", SITUATIONS if deep else ["other"])
    for cfg in CONFIGS:
        yield from chunks([{P: s, Q: t} for s in ("AAB", "ABB", "-AB", "A--", "ALX") for t in ("---", "-AA")], cfg, ["other"])
    four = ["".join(t) for t in itertools.product("-ABXL" if deep else "-ABL", repeat=3)]
    yield from chunks([{P: s} for s in four], "amend+undo", [""])


def chunks(cases, kind, situations):
    groups = {}
    for c in cases:
        groups.setdefault(tuple(s[0] for s in c.values()), []).append(c)
    for g in groups.values():
        for i in range(0, len(g), 8):
            yield {"slots": g[i:i + 8], "kind": kind, "situations": situations}


def run_unit(u, ctx):
    cases = [u["only"][0]] if "only" in u else u["slots"]
    head = wcopy.layer(cases[0], 0)
    for detached in (0, 1):
        if "only" in u and u["only"][1] != detached:
            continue
        files = {"m0": {"f_m0": BASE["f_m0"], "x": ("100644", b"x\n")}, "a": dict(BASE, **head)}
        r, oids = make(ctx, {"m0": [], "a": ["m0"]}, branches={} if detached else {"one": "a"},
                       head="a" if detached else "refs/heads/one", files=lambda g, k: files[k])
        wcopy.store_blobs(r)
        for c in CONFIGS.get(u["kind"], []):
            r.plain("config", *c.split("=", 1))
        if u["kind"] == "showStash":
            r.write("f_a", "stashed\n")
            r.plain("stash", "-q")
        for n, c in enumerate(cases):
            if "only" not in u and n % 2 != detached:
                continue
            one(ctx, u, r, oids, head, c, detached)
        r.remove()


def view(w):
    ix = w.index()
    tracked = {p for p, _ in ix}
    disk = w.worktree()
    return {"head": w.head(), "oid": w.head_oid(), "index": ix, "disk": {p: disk.get(p) for p in sorted(tracked)}}


def one(ctx, u, r, oids, head, slots, detached):
    kind = u["kind"]
    label = "%s %s%s" % (kind, " ".join("%s:%s" % x for x in slots.items()), " detached" if detached else "")
    w = r.copy(ctx.tmp())
    disk = wcopy.layer(slots, 2) if kind != "conflict" else wcopy.slot(P, slots[P][4])
    if kind == "conflict":
        lines = ["0 %s\t%s" % ("0" * 40, p) for p in head]
        for st in (1, 2, 3):
            for p, (m, t) in wcopy.slot(P, slots[P][st]).items():
                lines.append("%s %s %d\t%s" % (m, blob_oid(t), st, p))
        res = w.run([GIT, "update-index", "--index-info"], input="\n".join(lines) + "\n")
        if res.rc != 0:
            raise core.HarnessError(repr(res))
    else:
        wcopy.set_index(w, head, wcopy.layer(slots, 1))
    wcopy.set_disk(w, head, disk)
    w.write("untracked", "precious\n")
    before = view(w)
    status = w.plain("status", "--porcelain=v2", "-uno", "-z").split("\0")
    refs = w.user_refs()

    def bad(x, sit, msg, out, key=None):
        ctx.violation(key or "%s %s|%s" % (label, sit, msg.split(":")[0]), "%s, restored with %s\n%s\n%r" % (label, sit, msg, out),
                      dict(u, only=[slots, detached], situations=[sit]))
        x.remove()

    if kind == "amend+undo":
        out = w.gb("amend")
        ctx.transition()
        if out.rc != 0 or out.panicked():
            w.remove()
            return ctx.outcome("not amended")
        if w.head_oid() == oids["a"]:
            w.remove()
            return ctx.outcome("nothing to amend")
        if w.plain("status", "--porcelain", "-uno").strip() or not set(wcopy.layer(slots, 2)) <= {p for p, _ in w.index()}:
            # what was not amended may be in the way of undo's checkout
            w.remove()
            return ctx.outcome("uncommitted changes left")
        out = w.gb("undo", "-y")
        ctx.transition()
        compare(ctx, u, w, "", before, refs, status, out, bad, label)
        return
    out = w.gb("snapshot", "create")
    ctx.transition()
    if out.rc != 0 or out.panicked():
        return bad(w, "-", "could not create a snapshot", out)
    oid = out.out.split()[-1]
    if w.user_refs() != refs or w.head() != before["head"]:
        return bad(w, "-", "creating a snapshot moved references", out)
    for sit in u["situations"]:
        x = w.copy(ctx.tmp())
        if sit == "other":
            x.plain("checkout", "-q", "--detach", oids["m0"])
        elif sit == "dirty":
            x.write("f_a", "staged change\n")
            x.plain("add", "f_a")
            x.write("f_a", "unstaged change\n")
            x.delete("dir/f")
            x.write("q2", "new\n")
            x.plain("add", "q2")
        out = x.gb("snapshot", "restore", oid)
        ctx.transition()
        if not compare(ctx, u, x, sit, before, refs, status, out, bad, label):
            break
    w.remove()


def known(k, before, after, status, x):
    """Recognise the two recorded defects by exactly what they do."""
    head = {p: (m, blob_oid(t)) for p, (m, t) in x.files(x.head_oid()).items()}
    if k == "index":
        # the source of a staged rename reappears as in HEAD
        sources = {status[i + 1] for i, s in enumerate(status) if s.startswith("2 R")}
        extra = {p: v for p, v in after["index"].items() if before["index"].get(p) != v}
        if extra and set(before["index"]) <= set(after["index"]) and \
                all(p in sources and st == 0 and head.get(p) == v for (p, st), v in extra.items()):
            return "staged rename"
    if k == "disk":
        # a file with conflicts on both sides is as in HEAD
        both = {s.split(" ", 10)[10] for s in status if s.startswith("u ") and s[3] == "U"}
        diff = [p for p in before["disk"] if before["disk"][p] != after["disk"].get(p)]
        if all(p in both and head.get(p) == disk_entry(after["disk"].get(p)) for p in diff):
            return "conflicted file on disk"
    return None


def disk_entry(v):
    return v and (v[0], blob_oid(v[1]))


def compare(ctx, u, x, sit, before, refs, status, out, bad, label):
    ctx.evaluation()
    if out.rc != 0 or out.panicked():
        return bad(x, sit, "restore failed", out)
    after = view(x)
    for k in before:
        if before[k] != after[k]:
            key = known(k, before, after, status, x)
            if key:
                bad(x, sit, "%s: %s, captured %s" % (k, after[k], before[k]), out, key)
                return True
            return bad(x, sit, "%s: %s, captured %s" % (k, after[k], before[k]), out)
    if x.worktree().get("untracked") != ("100644", b"precious\n"):
        return bad(x, sit, "untracked file changed", out)
    if x.user_refs() != refs:
        return bad(x, sit, "references: %s, captured %s" % (x.user_refs(), refs), out)
    ctx.outcome("restored")
    ctx.state([label, sit])
    ctx.sample(label)
    x.remove()
    return True
