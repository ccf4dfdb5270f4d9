"""C15: amend records exactly the intended changes and disturbs nothing else."""
import itertools

from ..graphs import make
from ..repo import QueryFailed
from .. import wcopy

PROPERTY = "C15"
LEVEL = "exploration"
TECHNIQUE = ("exhaustive enumeration of (HEAD, index, disk) states of one and two paths, amended by the real binary, against "
             "a per-path rule for the amended files, the remaining changes and the descendants")
RULE = "distinct (path states, descendants, option) in which amend changed the commit as the rule demands or correctly refused"
BOUND = {
    "quick": "one path, 8 states per layer (absent, 2 files, executable, 2 symlinks, directory, file in place of the parent directory): all 512 (HEAD, index, disk) triples with a "
             "child commit; all pairs of two paths over 3 states per layer; child touching the same path over 3x3x3x4 states; "
             "--reparent with child and grandchild over 4 states per layer; from a subdirectory over 4 states per layer; on a branch and detached",
    "thorough": "as quick, with every triple also without children and with --reparent",
}
ASSUMPTIONS = ["no clean/smudge filters or submodules"]
P, Q = "d/p", "q"


def units(tier):
    one = ["".join(t) for t in itertools.product("-ABXLMDF", repeat=3)]
    yield from chunks([{P: s} for s in one], "child")
    three = ["".join(t) for t in itertools.product("-AB", repeat=3)]
    yield from chunks([{P: s, Q: t} for s, t in itertools.combinations_with_replacement(three, 2)], "child")
    yield from chunks([{P: s} for s in three], "touch")
    yield from chunks([{P: "".join(s)} for s in itertools.product("-ABL", repeat=3)], "reparent")
    yield from chunks([{P: "".join(s)} for s in itertools.product("-ABL", repeat=3)], "subdir")
    yield {"slots": [], "kind": "conflict"}
    if tier == "thorough":
        yield from chunks([{P: s} for s in one], "alone")
        yield from chunks([{P: s} for s in one], "reparent")


def chunks(cases, kind):
    """Grouped by what HEAD holds, so that a unit needs one repository."""
    groups = {}
    for c in cases:
        groups.setdefault(tuple(s[0] for s in c.values()), []).append(c)
    for g in groups.values():
        for i in range(0, len(g), 12):
            yield {"slots": g[i:i + 12], "kind": kind}


BASE = {"f_m0": ("100644", b"main\n"), "f_a": ("100644", b"a\n"), "dir/f": ("100644", b"f\n")}


def run_unit(u, ctx):
    if u["kind"] == "conflict":
        return conflict(u, ctx)
    kind = u["kind"]
    cases = u["slots"] if "only" not in u else [u["only"][0]]
    slots = u["slots"][0] if u["slots"] else cases[0]
    head = wcopy.layer(slots, 0)
    for child in ("-ABC" if kind == "touch" else "="):
        if "only" in u and u["only"][1] != child:
            continue
        for detached in (0, 1):
            if "only" in u and u["only"][2] != detached:
                continue
            if kind == "touch" and detached:
                continue
            g = {"m0": [], "a": ["m0"]}
            files = {"m0": {"f_m0": BASE["f_m0"]}, "a": dict(BASE, **head)}
            if kind != "alone":
                own = head if child == "=" else wcopy.slot(P, child)
                g["b"] = ["a"]
                files["b"] = dict(BASE, f_b=("100644", b"b\n"), **own)
                if kind == "reparent":
                    g["c"] = ["b"]
                    files["c"] = dict(files["b"], f_c=("100644", b"c\n"))
            br = {"one": "a", "two": list(g)[-1]} if not detached else {"two": list(g)[-1]}
            r, oids = make(ctx, g, branches=br, head="a" if detached else "refs/heads/one", files=lambda g, k: files[k])
            wcopy.store_blobs(r)
            for n, c in enumerate(cases):
                if "only" not in u and kind == "child" and n % 2 != detached:
                    continue  # alternate
                one(ctx, u, r, oids, files, c, child, detached)
            r.remove()


def one(ctx, u, r, oids, files, slots, child, detached):
    kind = u["kind"]
    w = r.copy(ctx.tmp())
    head, index, disk = (wcopy.layer(slots, n) for n in range(3))
    wcopy.set_index(w, head, index)
    wcopy.set_disk(w, head, disk)
    w.write("untracked", "precious\n")
    label = "%s %s%s%s" % (kind, " ".join("%s:%s" % x for x in slots.items()), " child " + child if child != "=" else "",
                           " detached" if detached else "")

    def bad(msg, out):
        ctx.violation(label + "|" + msg.split(":")[0], label + "\n" + msg + "\n" + repr(out),
                      dict(u, only=[slots, child, detached]))
        w.remove()

    before = w.user_state()
    wt = w.worktree()
    args = ["amend"] + (["--reparent"] if kind == "reparent" else [])
    w.clock += 10
    cwd = None
    if kind == "subdir":
        cwd = w.path + "/dir"
    out = w.gb(*args, cwd=cwd)
    ctx.transition()
    ctx.evaluation()
    if out.timeout or out.panicked() or out.rc != 0:
        return bad("amend failed", out)
    # expected files of the amended commit
    if head != index:
        new = index
    else:
        new = {p: disk[p] for p in index if p in disk}
    if new == head:
        after = w.user_state()
        ctx.outcome("nothing to amend")
        if after != before:
            return bad("state changed although there was nothing to amend: %s -> %s" % (before, after), out)
        return w.remove()
    want = dict(BASE, **new)
    refs = w.user_refs()
    h = w.head()
    if h[0] == "ref":
        if detached or h[1] != "refs/heads/one":
            return bad("HEAD: %s" % (h,), out)
        a = refs["refs/heads/one"]
    else:
        if not detached:
            return bad("HEAD was detached", out)
        a = h[1]
    oa, na = w.commit(oids["a"]), w.commit(a)
    if w.files(a) != want:
        return bad("amended files: %s, expected %s" % (show(w.files(a)), show(want)), out)
    if na.message != oa.message or na.author.rsplit(" ", 2)[0] != oa.author.rsplit(" ", 2)[0]:
        return bad("message or author: %s %s" % (na.message, na.author), out)
    if na.parents != oa.parents:
        return bad("parents: %s" % na.parents, out)
    if w.worktree() != wt:
        return bad("disk: %s, before %s" % (show(w.worktree()), show(wt)), out)
    ix = wcopy.index_files(w)
    if ix != wcopy.oids(want):
        return bad("index: %s, expected %s" % (ix, wcopy.oids(want)), out)
    try:
        vis = set(w.query("all()"))
    except QueryFailed as e:
        return bad("unreadable: %s" % e, out)
    expect = {oids["m0"], a}
    if kind != "alone":
        if refs.get("refs/heads/two") not in vis:
            return bad("child branch: %s is not visible" % refs.get("refs/heads/two"), out)
        prev, keep = a, False
        if kind == "touch":
            # conflicting children are left where they are
            base, mine, theirs = head.get(P), new.get(P), wcopy.slot(P, child).get(P)
            keep = mine != base and theirs != base and mine != theirs
        chain = []
        x = refs["refs/heads/two"]
        for k in (["c", "b"] if kind == "reparent" else ["b"]):
            chain.insert(0, (k, x))
            x = w.commit(x).parents[0]
        if keep:
            if refs["refs/heads/two"] != oids["b"]:
                return bad("conflicting child moved", out)
            expect |= {oids["b"], oids["a"]}
        else:
            if x != a:
                return bad("child is not on the amended commit: on %s" % x, out)
            for k, x in chain:
                expect.add(x)
                f = dict(files[k])
                if kind != "reparent":
                    if kind == "touch":
                        base, mine, theirs = head.get(P), new.get(P), f.get(P)
                        m = mine if theirs == base else theirs
                        f.pop(P, None)
                        if m:
                            f[P] = m
                    else:
                        for p in head:
                            f.pop(p)
                        f.update(new)
                if w.files(x) != f:
                    return bad("files of %s: %s, expected %s" % (k, show(w.files(x)), show(f)), out)
                if w.commit(x).message != w.commit(oids[k]).message:
                    return bad("message of %s: %s" % (k, w.commit(x).message), out)
    if set(refs) != {"refs/heads/master", "refs/heads/two"} | (set() if detached else {"refs/heads/one"}) or \
            refs["refs/heads/master"] != oids["m0"]:
        return bad("branches: %s" % refs, out)
    if vis != expect:
        return bad("visible: %s, expected %s" % (sorted(vis), sorted(expect)), out)
    ctx.outcome("amended from the index" if head != index else "amended from disk")
    ctx.state(label)
    ctx.sample(label)
    w.remove()


def show(files):
    return {p: "%s %r" % v for p, v in files.items() if p not in BASE}


def conflict(u, ctx):
    """Unresolved conflicts: refuse, change nothing."""
    for side in ("both", "ours", "theirs"):
        files = {"m0": {"f": "base\n"}, "a": {"f": "a\n"}, "b": {"f": "b\n"}}
        if side == "ours":
            files["b"] = {}
        if side == "theirs":
            files["a"] = {"x": "x\n"}
        r, oids = make(ctx, {"m0": [], "a": ["m0"], "b": ["m0"]}, head="a", files=lambda g, k: files[k])
        r.git("cherry-pick", oids["b"])
        if not any(st for _, st in r.index()):
            raise AssertionError("no conflict")
        for resolved in (0, 1):
            if resolved:
                r.write("f", "resolved\n")
            before = r.user_state()
            out = r.gb("amend")
            ctx.transition()
            ctx.evaluation()
            if out.rc == 0 or out.panicked() or r.user_state() != before:
                ctx.violation("conflict %s %d" % (side, resolved), "amend with unresolved conflicts: %r" % out, dict(u))
            else:
                ctx.outcome("refused with conflicts")
                ctx.state([side, resolved])
