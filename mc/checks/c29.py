"""C29: tree construction applies exactly the requested path changes."""
import hashlib

from ..repo import QueryFailed, blob_oid, build_repo

PROPERTY = "C29"
LEVEL = "exploration"
TECHNIQUE = ("exhaustive enumeration of ordered pairs of trees over a nested path alphabet: the real binary's list of changed "
             "paths is compared with the set difference of the two file maps, and the trees it builds when such a change is "
             "applied elsewhere are compared by object id with independently computed ones")
RULE = "distinct ordered pairs of trees whose changed paths, re-applied tree or amended tree were as demanded"
BOUND = {
    "quick": "48 trees (4 states of a file x 12 states of a directory entry: absent, file, symlink, directories with files at two "
             "levels, names that sort differently as file and directory), all 2304 ordered pairs as commits, 48 root commits, "
             "merges of neighbouring trees; every change applied on top of a new file next to and inside the directory; "
             "every third change folded into its parent",
    "thorough": "as quick, every change folded into its parent",
}
ASSUMPTIONS = ["file contents are pairwise dissimilar so that rename detection cannot pair different paths",
               "no submodules; paths are valid UTF-8"]


def txt(name, n):
    return "".join(hashlib.sha1(("%s/%s/%d" % (name, n, i)).encode()).hexdigest() + "\n" for i in range(6)).encode()


def reg(p, n="1"):
    return {p: ("100644", txt(p, n))}


TOP = [{}, reg("f"), reg("f", "2"), {"f": ("100755", txt("f", "1"))}]
DIR = [
    {},
    reg("d"),
    {"d": ("120000", b"somewhere")},
    reg("d/x"),
    reg("d/x", "2"),
    {"d/x": ("100755", txt("d/x", "1"))},
    {**reg("d/x"), **reg("d/y")},
    reg("d/e/z"),
    {**reg("d/x"), **reg("d/e/z")},
    {**reg("d/e/z"), **reg("d/e/w"), **reg("d/e.a")},
    {**reg("d/e"), **reg("d/x")},
    {**reg("d/e/z/deep"), **reg("d/e/w", "2")},
]
KEEP = {**reg("keep"), **reg("d.x"), **reg("d0/q")}
TREES = [{**t, **d} for t in TOP for d in DIR]
PATHS = sorted({p for t in TREES for p in t} | {"d/e", "d", "keep", "d.x", "d0/q", "z", "d/n"})


def tree_oid(files):
    root = {}
    for p, (mode, data) in files.items():
        node = root
        parts = p.split("/")
        for x in parts[:-1]:
            node = node.setdefault(x, {})
        node[parts[-1]] = (mode, data)

    def rec(node):
        entries = []
        for name, v in node.items():
            if isinstance(v, dict):
                entries.append((name.encode() + b"/", b"40000 " + name.encode() + b"\0" + bytes.fromhex(rec(v))))
            else:
                entries.append((name.encode(), v[0].encode() + b" " + name.encode() + b"\0" + bytes.fromhex(blob_oid(v[1]))))
        body = b"".join(e for _, e in sorted(entries))
        return hashlib.sha1(b"tree %d\0" % len(body) + body).hexdigest()

    return rec(root)


def units(tier):
    for j in range(len(TREES)):
        yield {"kind": "pairs", "j": j}
    for j in range(len(TREES)):
        yield {"kind": "fold", "j": j, "step": 1 if tier == "thorough" else 3}
    yield {"kind": "roots"}


def changed(x, y):
    return {p for p in set(x) | set(y) if x.get(p) != y.get(p)}


def name(t):
    return " ".join("%s:%s%s" % (p, v[0][-3:], v[1][:2].decode()) for p, v in sorted(t.items())) or "empty"


def valid(files):
    return not any("/".join(p.split("/")[:i]) in files for p in files for i in range(1, p.count("/") + 1))


def run_unit(u, ctx):
    if u["kind"] == "pairs":
        pairs(u, ctx)
    elif u["kind"] == "fold":
        fold(u, ctx)
    else:
        roots(u, ctx)


def ask(ctx, u, r, oids, wants, what):
    """wants: label -> changed paths.  One query per path decides all commits."""
    for p in PATHS:
        ctx.transition()
        try:
            got = set(r.query('paths.changed("exact:%s")' % p))
        except QueryFailed as e:
            ctx.violation("%s %s" % (what, p), "query for %s failed: %s" % (p, e), u)
            return
        for k, w in wants.items():
            ctx.evaluation()
            if (oids[k] in got) != (p in w[1]):
                ctx.violation("%s: %s: %s" % (what, w[0], p), "%s: path %s %s reported as changed" % (
                    w[0], p, "is" if oids[k] in got else "is not"), u)


def pairs(u, ctx):
    j = u["j"]
    base = TREES[j]
    kids = [i for i in range(len(TREES)) if i != j]
    adds = {"n0": reg("z")}
    if "d" not in base:
        adds["n1"] = reg("d/n")
    commits = [("m0", [], KEEP, 0), ("p", ["m0"], {**KEEP, **base}, 1)]
    for n, a in adds.items():
        commits.append((n, ["p"], {**KEEP, **base, **a}, 2))
    for i in kids:
        commits.append(("c%d" % i, ["p"], {**KEEP, **TREES[i]}, 3 + i))
        if i % 4 == j % 4:
            # a merge of the two, with the contents of yet another tree
            commits.append(("g%d" % i, ["p", "c%d" % i], {**KEEP, **TREES[(i + 5) % len(TREES)]}, 100 + i))
    r, oids = build_repo(ctx.tmp(), commits, "m0", branches={c[0]: c[0] for c in commits[1:]})
    files = {c[0]: c[2] for c in commits}
    par = {c[0]: c[1] for c in commits}
    wants = {}
    for k in files:
        w = set().union(*(changed(files[q], files[k]) for q in par[k])) if par[k] else set(files[k])
        wants[k] = ("from [%s] to [%s]" % (" + ".join(name(files[q]) for q in par[k]), name(files[k])), w)
    ask(ctx, u, r, oids, wants, "changed paths")
    for n, a in adds.items():
        x = r.copy(ctx.tmp())
        todo = [i for i in kids if valid({**TREES[i], **a})]
        # the merges would be in the way
        x.plain("update-ref", "--stdin", input="".join("delete refs/heads/g%d\n" % i for i in kids if "g%d" % i in oids))
        out = x.gb("move", "-d", oids[n], *sum((["-x", oids["c%d" % i]] for i in todo), []))
        ctx.transition()
        refs = x.user_refs()
        got = {}
        for line in x.plain("for-each-ref", "--format=%(refname:short) %(tree) %(parent)", "refs/heads").splitlines():
            f = line.split()
            got[f[0]] = f[1:]
        for i in todo:
            ctx.evaluation()
            k = "c%d" % i
            want = tree_oid({**KEEP, **TREES[i], **a})
            ctx.state(["apply", j, i, n])
            label = "[%s] -> [%s] applied on top of added %s" % (name(base), name(TREES[i]), sorted(a)[0])
            if out.rc != 0 or got.get(k) != [want, oids[n]]:
                files_now = x.files(refs["refs/heads/" + k]) if "refs/heads/" + k in refs else {}
                ctx.violation(label, label + "\nresult has tree, parent %s, expected %s: files %s\n%r" % (
                    got.get(k), [want, oids[n]], name(files_now), out), u)
        ctx.outcome("applied on top of %s" % sorted(a)[0], len(todo))
        x.remove()
    ctx.sample({"base": name(base), "changes": len(kids)})
    r.remove()


def fold(u, ctx):
    j = u["j"]
    base = TREES[j]
    kids = [i for i in range(len(TREES)) if i != j and (i + j) % u["step"] == 0]
    if "only" in u:
        kids = [u["only"]]
    commits = [("m0", [], KEEP, 0), ("p", ["m0"], {**KEEP, **base}, 1)]
    commits += [("c%d" % i, ["p"], {**KEEP, **TREES[i]}, 3 + i) for i in kids]
    r, oids = build_repo(ctx.tmp(), commits, "m0", branches={"p": "p"})
    for i in kids:
        x = r.copy(ctx.tmp())
        x.plain("update-ref", "refs/heads/c", oids["c%d" % i])
        out = x.gb("move", "--fixup", "-x", oids["c%d" % i], "-d", oids["p"])
        ctx.transition()
        ctx.evaluation()
        ctx.state(["fold", j, i])
        ctx.outcome("folded")
        oid = x.user_refs().get("refs/heads/p")
        got = x.plain("rev-parse", oid + "^{tree}").strip() if oid else None
        want = tree_oid({**KEEP, **TREES[i]})
        if not TREES[i]:
            # nothing is left of the two commits
            left = set(x.query("all()"))
            if left == {oids["m0"]}:
                got = want
        if out.rc != 0 or got != want:
            label = "[%s] -> [%s] folded into its parent" % (name(base), name(TREES[i]))
            ctx.violation(label, label + "\nfiles are %s\n%r" % (name(x.files(oid)) if oid else None, out), dict(u, only=i))
        x.remove()
    r.remove()


def roots(u, ctx):
    commits = [("m0", [], KEEP, 0)]
    commits += [("r%d" % i, [], t, 1 + i) for i, t in enumerate(TREES)]
    r, oids = build_repo(ctx.tmp(), commits, "m0", branches={c[0]: c[0] for c in commits[1:]})
    ask(ctx, u, r, oids, {c[0]: ("root [%s]" % name(c[2]), set(c[2])) for c in commits}, "root")
    for i in range(len(TREES)):
        ctx.state(["root", i])
    ctx.outcome("root", len(TREES))
    r.remove()
