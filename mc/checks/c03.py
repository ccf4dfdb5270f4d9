"""C03: rewritten commits carry over their changes and metadata exactly."""
import itertools

from .. import core
from ..repo import QueryFailed, build_repo, fast_import, blob_oid, GIT, BASE_TIME

PROPERTY = "C03"
LEVEL = "exploration"
TECHNIQUE = ("exhaustive enumeration of (old parent, commit, new parent) tree triples over a path-kind alphabet, "
             "rewritten by the real binary, against a per-path three-way rule")
RULE = "distinct (slot triple, mode) in which the commit was rewritten with a changed tree or correctly reported as conflicting"
ASSUMPTIONS = ["file contents are pairwise dissimilar so that rename detection cannot pair different paths"]
BOUND = {
    "quick": "one path with 8 states (absent, 2 regular, executable, 2 symlinks, 2 directories): all 512 triples, alone; "
             "all non-conflicting triples of two neighbouring paths in one tree; line-merge states; 10 metadata values",
    "thorough": "as quick, plus all triples of (file/dir path, sibling path) over 4x3 states alone, on-disk variant",
}


def txt(name, n):
    # dissimilar text per (name, n): avoids rename detection
    import hashlib
    return "".join(hashlib.sha1(("%s/%s/%d" % (name, n, i)).encode()).hexdigest() + "\n" for i in range(6)).encode()


# states of a slot at path p: {relative path: (mode, content)}
def slot(p, s):
    if s == "-":
        return {}
    if s == "1" or s == "2":
        return {p: ("100644", txt(p, s))}
    if s == "x":
        return {p: ("100755", txt(p, "1"))}
    if s == "l":
        return {p: ("120000", b"target-" + p.encode())}
    if s == "L":
        return {p: ("120000", b"other/" + p.encode() * 2)}
    if s == "d":
        return {p + "/in": ("100644", txt(p + "/in", "d"))}
    if s == "D":
        return {p + "/in": ("100644", txt(p + "/in", "D")), p + "/sub/z": ("100644", txt(p + "/sub/z", "D"))}
    raise ValueError(s)


STATES = "-12xlLdD"


class Ambiguous(Exception):
    """Both a conflict and either mode are acceptable."""


def three_way(b, c, d):
    """Path-level merge of full file maps; None if conflicting."""
    res = {}
    for p in set(b) | set(c) | set(d):
        x, y, z = b.get(p), c.get(p), d.get(p)
        if y == x:
            r = z
        elif z == x:
            r = y
        elif y == z:
            r = y
        else:
            if y and z and y[1] == z[1] and {y[0], z[0]} == {"100644", "100755"}:
                raise Ambiguous  # same contents added with different modes
            # mode and contents merge independently for regular files
            if x and y and z and {x[0], y[0], z[0]} <= {"100644", "100755"}:
                m = one_way(x[0], y[0], z[0])
                t = one_way(x[1], y[1], z[1])
                if m is None or t is None:
                    return None
                r = (m, t)
            else:
                return None
        if r is not None:
            res[p] = r
    for p in res:  # directory/file collisions
        parts = p.split("/")
        for i in range(1, len(parts)):
            if "/".join(parts[:i]) in res:
                return None
    return res


def one_way(x, y, z):
    return z if y == x else y if (z == x or y == z) else None


# line merges: three regions
def lines(t, m, b):
    pad = ["pad %d" % i for i in range(12)]
    return ("\n".join(["top " + t] + pad + ["mid " + m] + pad + ["bottom " + b]) + "\n").encode()


META = [
    ("plain\n", "A U Thor <author@example.com>"),
    ("subject\n\nbody line 1\n  indented\n\ntrailer: x\n", "Zoë Ünïcode <zoë@exämple.com>"),
    ("no trailing newline", "N <n@x>"),
    ("\n\nleading blank lines\n", "L B <l@b>"),
    ("trailing blanks   \n\n\n\n", "T B <t@b>"),
    ("# looks like a comment\n\n# another\n", "C <c@c>"),
    ("", "Empty Message <e@m>"),
    ("fixup! something\n", "F <f@f>"),
    ("tab\there ☃ \U0001f600\n", "S <s@s>"),
    ("subject\r\n\r\ncrlf body\r\n", "R <r@r>"),
]
TZ = ["+0000", "-0730", "+1400"]


def units(tier):
    triples = ["".join(t) for t in itertools.product(STATES, repeat=3)]
    out = []
    for i in range(0, len(triples), 16):
        out.append({"kind": "single", "triples": triples[i:i + 16]})
    out += [{"kind": "batch", "n": i} for i in range(4)]
    regs = list(itertools.product("012", repeat=2))
    merges = [(y, z) for y in regs for z in regs if y != ("0", "0") and z != ("0", "0")]
    for i in range(0, len(merges), 8):
        out.append({"kind": "lines", "cases": merges[i:i + 8]})
    for i, _ in enumerate(META):
        out.append({"kind": "meta", "i": i})
    if tier == "thorough":
        pairs = list(itertools.product("-1dx", "-12"))
        three = list(itertools.product(range(len(pairs)), repeat=3))
        for i in range(0, len(three), 24):
            out.append({"kind": "pair", "cases": three[i:i + 24]})
    return out


def run_unit(u, ctx):
    if u["kind"] == "single":
        for t in u["triples"]:
            b, c, d = (slot("p", s) for s in t)
            try:
                three_way(b, c, d)
            except Ambiguous:
                ctx.outcome("ambiguous, not judged")
                continue
            case(ctx, u, "single " + t, b, c, d, {"triples": [t]})
    elif u["kind"] == "pair":
        pairs = list(itertools.product("-1dx", "-12"))
        for cs in u["cases"]:
            b, c, d = ({**slot("dir/p", pairs[i][0]), **slot("dir/q", pairs[i][1])} for i in cs)
            try:
                three_way(b, c, d)
            except Ambiguous:
                continue
            case(ctx, u, "pair %s" % (cs,), b, c, d, {"cases": [cs]}, conflict_on_disk=False)
    elif u["kind"] == "lines":
        for y, z in u["cases"]:
            t, m = one_way("0", y[0], z[0]), one_way("0", y[1], z[1])
            ex = None
            if t is not None and m is not None:
                ex = {"f": ("100644", lines(t, "0", m))}
            b = {"f": ("100644", lines("0", "0", "0"))}
            c = {"f": ("100644", lines(y[0], "0", y[1]))}
            d = {"f": ("100644", lines(z[0], "0", z[1]))}
            case(ctx, u, "lines %s %s" % (y, z), b, c, d, {"cases": [[y, z]]}, merged=(ex,))
    elif u["kind"] == "batch":
        b, c, d = {}, {}, {}
        n = 0
        # all non-conflicting combinations of two neighbours in one directory
        sub = ["-1d", "-1x", "12l", "-dD"][u["n"]]
        for t1 in itertools.product(sub, repeat=3):
            for t2 in itertools.product("-1x", repeat=3):
                trees = []
                name = ["n%03d", "sp ace %03d", "ünï%03d", "deep/er/%03d"][u["n"]] % n
                for i in range(3):
                    trees.append({**slot(name + "/p", t1[i]), **slot(name + "/p.q", t2[i])})
                try:
                    if three_way(*trees) is None:
                        continue
                except Ambiguous:
                    continue
                n += 1
                for acc, t in zip((b, c, d), trees):
                    acc.update(t)
        ctx.outcome("batched slots", n)
        case(ctx, u, "batch %d" % u["n"], b, c, d, {})
    elif u["kind"] == "meta":
        meta(ctx, u)


def build(ctx, b, c, d):
    keep = {"keep": ("100644", b"keep\n")}
    mine = {"mine": ("100644", b"mine\n")}
    theirs = {"theirs": ("100644", b"theirs\n")}
    child = {"child/file": ("100644", b"child\n")}
    commits = [("m0", [], {**keep, **b}, 0),
               ("a", ["m0"], {**keep, **mine, **c}, 1),
               ("c", ["a"], {**keep, **mine, **child, **c}, 2),
               ("b", ["m0"], {**keep, **theirs, **d}, 3)]
    r, oids = build_repo(ctx.tmp(), commits, "m0", drafts=["a", "c", "b"])
    return r, oids, {**keep, **mine, **theirs}, child


def case(ctx, u, name, b, c, d, only, merged=None, conflict_on_disk=True):
    r, oids, extra, child = build(ctx, b, c, d)
    before = r.user_state()
    exp = merged[0] if merged else three_way(b, c, d)
    out = r.gb("move", "-s", oids["a"], "-d", oids["b"])
    ctx.transition()
    ctx.evaluation()

    def bad(msg):
        ctx.violation(name, "%s: old parent %s / commit %s / new parent %s\n%s\n%r" % (
            name, show(b), show(c), show(d), msg, out), dict(u, **only))

    if out.timeout or out.panicked():
        bad("crashed")
    elif out.rc != 0:
        if r.user_state() != before:
            bad("failed but changed the repository")
        elif exp is not None:
            bad("failed, expected a clean result %s" % show(exp))
        else:
            ctx.outcome("conflict")
            ctx.state(name)
    elif exp is None:
        bad("expected a conflict to be reported")
    else:
        vis = r.query("all()")
        lab = {}
        for o in vis:
            lab.setdefault(r.commit(o).label, []).append(o)
        if {k: len(v) for k, v in lab.items()} != {"m0": 1, "a": 1, "b": 1, "c": 1}:
            bad("visible commits are %s" % sorted((k, len(v)) for k, v in lab.items()))
        else:
            want = {**extra, **exp}
            got = r.files(lab["a"][0])
            got_c = r.files(lab["c"][0])
            if got != want:
                bad("new version is %s, expected %s" % diff(got, want))
            elif got_c != {**want, **child}:
                bad("child's new version is %s, expected %s" % diff(got_c, {**want, **child}))
            elif r.commit(lab["a"][0]).parents != [oids["b"]] or r.commit(lab["c"][0]).parents != lab["a"]:
                bad("wrong parents")
            elif r.files(oids["b"]) != {**{k: v for k, v in extra.items() if k != "mine"}, **d}:
                raise core.HarnessError("destination object changed")
            else:
                ctx.outcome("rewritten")
                ctx.state(name)
                ctx.sample(name)
    if out.rc is not None and exp is not None and not ctx.violations:
        check_fsck(ctx, r, bad)
    r.remove()


def check_fsck(ctx, r, bad):
    f = r.git("fsck", "--strict", "--no-dangling")
    if f.rc != 0:
        bad("git fsck complains: %r" % f)


def diff(got, want):
    ks = sorted(k for k in set(got) | set(want) if got.get(k) != want.get(k))
    return show({k: got.get(k) for k in ks}), show({k: want.get(k) for k in ks})


def show(t):
    return {k: (v[0], v[1][:12]) if v else None for k, v in sorted(t.items())[:6]}


def meta(ctx, u):
    """Metadata of rewritten commits."""
    msg, author = META[u["i"]]
    for tz in TZ:
        for preserve in ("true", "false"):
            r, oids = build_repo(ctx.tmp(), [("m0", [], {"k": "k\n"}, 0), ("b", ["m0"], {"k": "k\n", "b": "b\n"}, 1)],
                                 "m0", drafts=["b"], config={"branchless.restack.preserveTimestamps": preserve})
            tree = r.ok("rev-parse", oids["b"] + "^{tree}").strip()
            raw = ("tree %s\nparent %s\nauthor %s %d %s\ncommitter Com <c@c> %d %s\n\n" % (
                tree, oids["m0"], author, BASE_TIME + 77, tz, BASE_TIME + 88, tz)).encode() + msg.encode()
            a = r.run([GIT, "hash-object", "-t", "commit", "-w", "--stdin", "--literally"], input=raw).out.strip()
            # a adds its own file
            blob = r.run([GIT, "hash-object", "-w", "--stdin"], input=b"a\n").out.strip()
            kb = r.run([GIT, "hash-object", "-w", "--stdin"], input=b"k\n").out.strip()
            t2 = r.run([GIT, "mktree"], input="100644 blob %s\ta\n100644 blob %s\tk\n" % (blob, kb)).out.strip()
            raw = raw.replace(tree.encode(), t2.encode())
            a = r.run([GIT, "hash-object", "-t", "commit", "-w", "--stdin"], input=raw).out.strip()
            r.run([GIT, "update-ref", "refs/heads/br", a])
            out = r.gb("move", "-s", a, "-d", oids["b"])
            ctx.transition()
            ctx.evaluation()
            name = "meta %d tz %s preserve %s" % (u["i"], tz, preserve)
            new = r.refs("refs/heads/br")["refs/heads/br"]
            o, n = r.commit(a), r.commit(new)
            m = None
            if out.rc != 0 or out.panicked():
                m = "move failed"
            elif n.parents != [oids["b"]]:
                m = "not moved"
            elif (n.message, n.author) != (o.message, o.author):
                m = "message/author changed: %r %r -> %r %r" % (o.message, o.author, n.message, n.author)
            elif preserve == "true" and n.committer.split(" ")[-2:] != o.committer.split(" ")[-2:]:
                m = "committer date not preserved as configured: %r -> %r" % (o.committer, n.committer)
            if m:
                ctx.violation(name, "%s: %s\n%r" % (name, m, out), u)
            ctx.outcome("metadata")
            ctx.state(name)
            r.remove()
