"""C25: recording a commit captures the right changes in the right place."""
import itertools

from ..graphs import make
from ..repo import QueryFailed
from .. import wcopy

PROPERTY = "C25"
LEVEL = "exploration"
TECHNIQUE = ("exhaustive enumeration of (HEAD, index, disk) states, HEAD positions, descendants and option combinations, recorded by the real binary, "
             "against a rule for the new commit's files, the remaining changes, the branches, HEAD and the former children")
RULE = "distinct (path states, HEAD position, options, child) in which the new commit is as the rule demands or nothing was recorded as it must be"
BOUND = {
    "quick": "one path, 6 states per layer: all 216 (HEAD, index, disk) triples without options on a branch; 3 states per layer x 8 option sets x 4 HEAD positions; "
             "a child touching the same path over 4x3x3x4 states with --insert; pairs of two paths over 9 states; from a subdirectory",
    "thorough": "all 512 triples of 8 states for every option set on a branch and detached",
}
ASSUMPTIONS = ["no clean/smudge filters or submodules", "interactive selection is not explored"]
P, Q = "d/p", "q"
OPTS = {"": [], "c": ["-c", "fresh"], "d": ["-d"], "s": ["-s"], "I": ["-I"], "Ic": ["-I", "-c", "fresh"], "Id": ["-I", "-d"], "Is": ["-I", "-s"]}
HEADS = {"branch": ("a", "refs/heads/one"), "detached": ("a", "a"), "main": ("m1", "refs/heads/master"), "public": ("m0", "m0")}
BASE = {"f_m0": ("100644", b"main\n"), "dir/f": ("100644", b"f\n")}
G = {"m0": [], "m1": ["m0"], "a": ["m0"], "b": ["a"], "c": ["a"], "e": ["b"], "d": ["m1"]}
BRANCHES = {"one": "a", "also": "a", "two": "e", "three": "c"}


def product(states):
    return ["".join(t) for t in itertools.product(states, repeat=3)]


def units(tier):
    yield from chunks([{P: s} for s in product("-ABXLD")], [["branch", ""]], "=")
    three = product("-AB")
    every = [[h, o] for h in HEADS for o in OPTS]
    for i in range(0, len(every), 4):
        yield from chunks([{P: s} for s in three], every[i:i + 4], "=")
    for child in "-ABC":
        yield from chunks([{P: "".join(t)} for t in itertools.product("-AB", "-AB", "-ABC")], [["branch", "I"]], child)
        yield from chunks([{P: "".join(t)} for t in itertools.product("-AB", "-ABC", "B")], [["detached", "Is"]], child)
    pairs = [{P: s, Q: t} for s, t in itertools.product(["AAA", "AAB", "ABB", "ABA", "--A", "-AA", "AA-", "A--", "A-A"], repeat=2)]
    yield from chunks(pairs, [["branch", ""], ["detached", "I"]], "=")
    yield from chunks([{P: s} for s in three], [["branch", ""]], "=", "dir")
    yield {"kind": "conflict"}
    if tier == "thorough":
        for h in ("branch", "detached"):
            for o in OPTS:
                yield from chunks([{P: s} for s in product("-ABXLMDF")], [[h, o]], "=")


def chunks(cases, modes, child, cwd=None):
    """Grouped by what HEAD holds, so that a unit needs one repository."""
    groups = {}
    for c in cases:
        groups.setdefault(tuple(s[0] for s in c.values()), []).append(c)
    for g in groups.values():
        for i in range(0, len(g), 24 if len(modes) == 1 else 9):
            yield {"slots": g[i:i + 24 if len(modes) == 1 else i + 9], "modes": modes, "child": child, "cwd": cwd}


def run_unit(u, ctx):
    if u.get("kind") == "conflict":
        return conflict(u, ctx)
    slots = u["slots"][0]
    head = wcopy.layer(slots, 0)
    files = {}
    for k in G:
        files[k] = dict(BASE, **head)
        files[k]["f_" + k] = ("100644", k.encode())
    for k in ("c",):
        own = head if u["child"] == "=" else wcopy.slot(P, u["child"])
        for p in head:
            files[k].pop(p)
        files[k].update(own)
    files["e"]["f_b"] = files["b"]["f_b"]
    for k in ("b", "c", "e"):
        files[k]["f_a"] = files["a"]["f_a"]
    files["d"]["f_m1"] = files["m1"]["f_m1"]
    for h in dict.fromkeys(m[0] for m in u["modes"]):
        r, oids = make(ctx, G, branches=BRANCHES, head=HEADS[h][1], files=lambda g, k: files[k])
        wcopy.store_blobs(r)
        for hh, o in u["modes"]:
            for c in u["slots"]:
                if hh == h and ("only" not in u or u["only"] == [c, h, o]):
                    one(ctx, u, r, oids, files, c, h, o)
        r.remove()


def one(ctx, u, r, oids, files, slots, h, o):
    w = r.copy(ctx.tmp())
    head, index, disk = (wcopy.layer(slots, n) for n in range(3))
    wcopy.set_index(w, head, index)
    wcopy.set_disk(w, head, disk)
    w.write("untracked", "precious\n")
    label = "%s, record %s, %s%s%s" % (h, " ".join(OPTS[o]), " ".join("%s:%s" % x for x in slots.items()),
                                       "" if u["child"] == "=" else ", child " + u["child"], ", in a subdirectory" if u["cwd"] else "")
    out = None

    def bad(msg):
        ctx.violation(label + "|" + msg.split(":")[0], label + "\n" + msg + "\n" + repr(out), dict(u, only=[slots, h, o]))
        w.remove()

    before, wt, refs0 = w.user_state(), w.worktree(), w.user_refs()
    w.clock += 10
    out = w.gb("record", "-m", "recorded", *OPTS[o], cwd=w.path + "/dir" if u["cwd"] else None)
    ctx.transition()
    ctx.evaluation()
    if out.timeout or out.panicked():
        return bad("record crashed")
    new = index if head != index else {p: disk[p] for p in index if p in disk}
    if new == head:
        ctx.outcome("nothing to record")
        if out.rc != 0 or w.user_state() != before:
            return bad("state changed although there was nothing to record: %s -> %s" % (before, w.user_state()))
        return w.remove()
    cur, ref = HEADS[h]
    refs, hd = w.user_refs(), w.head()
    try:
        vis = set(w.query("all()"))
    except QueryFailed as e:
        return bad("unreadable: %s" % e)
    found = [x for x in vis if x not in oids.values() and w.commit(x).label == "recorded"]
    if len(found) != 1:
        return bad("recorded commits: %s" % found)
    n = found[0]
    want = dict(files[cur])
    for p in head:
        want.pop(p)
    want.update(new)
    if w.files(n) != want:
        return bad("recorded files: %s, expected %s" % (show(w.files(n)), show(want)))
    if w.commit(n).parents != [oids[cur]]:
        return bad("parents: %s" % w.commit(n).parents)
    # children
    kids = {"a": ["b", "c", "e"], "m1": ["d"], "m0": []}[cur] if "I" in o else []
    base, mine, theirs = head.get(P), new.get(P), files["c"].get(P)
    if "c" in kids and u["child"] != "=" and mine != base and theirs != base and mine != theirs:
        kids = []
        ctx.outcome("children conflict")
    if "s" in o and out.rc != 0 and not any(n in w.commit(x).parents for x in vis):
        kids = []  # stopped when Git refused to switch back
    expect = {k: v for k, v in oids.items() if k not in kids}
    byname = {}
    for x in vis - {n}:
        byname.setdefault(w.commit(x).label, []).append(x)
    for k in kids:
        if len(byname.get(k, [])) != 1:
            return bad("child %s: %s" % (k, byname.get(k)))
        expect[k] = byname[k][0]
    if vis != set(expect.values()) | {n}:
        return bad("visible: unexpected %s, missing %s" % ([w.commit(x).label for x in vis - set(expect.values()) - {n}],
                                                            [k for k, v in expect.items() if v not in vis]))
    for k in kids:
        p = G[k][0]
        if w.commit(expect[k]).parents != [n if p == cur else expect[p]]:
            return bad("position of %s: on %s" % (k, w.commit(expect[k]).parents))
        f = dict(files[k])
        if k == "c" and u["child"] != "=":
            m = mine if theirs == base else theirs
            f.pop(P, None)
            if m:
                f[P] = m
        else:
            for p in head:
                f.pop(p)
            f.update(new)
        if w.files(expect[k]) != f:
            return bad("files of %s: %s, expected %s" % (k, show(w.files(expect[k])), show(f)))
        if w.commit(expect[k]).message != w.commit(oids[k]).message:
            return bad("message of %s: changed" % k)
    # branches and HEAD
    exp = {"refs/heads/" + b: expect[k] for b, k in BRANCHES.items()}
    exp["refs/heads/master"] = oids["m1"]
    if "c" in o:
        exp["refs/heads/fresh"] = n
        hwant = ("ref", "refs/heads/fresh")
    elif "d" in o or "s" in o:
        hwant = ("oid", n) if "d" in o else ("ref", ref) if ref.startswith("refs/") else ("oid", oids[cur])
    else:
        if ref.startswith("refs/"):
            exp[ref] = n
        hwant = ("ref", ref) if ref.startswith("refs/") else ("oid", n)
    if refs != exp:
        return bad("branches: %s, expected %s" % (diff(refs, exp), diff(exp, refs)))
    left = {p: disk.get(p) for p in new if disk.get(p) != new[p]}  # changes not recorded
    if "s" in o and out.rc != 0:
        # Git refuses to switch back over changes which were not recorded
        if not left and not any(p not in index and p not in new and disk.get(p) for p in set(head) | set(disk)):
            return bad("failed: although nothing is in the way")
        if hd not in (("oid", n), hwant) or w.worktree() != wt:
            return bad("switching back failed: but HEAD is %s and the files are %s" % (hd, show(w.worktree())))
        ctx.outcome("could not switch back")
        ctx.state(label)
        return w.remove()
    if out.rc != 0:
        return bad("failed")
    if hd != hwant:
        if not (hd[0] == "ref" and hwant[0] == "oid" and "s" in o and refs.get(hd[1]) == hwant[1]):
            return bad("HEAD: %s, expected %s" % (hd, hwant))
    now = w.worktree()
    if "s" in o:
        wtx = dict(wt)
        for p in set(new) | set(head):
            if p in new and p not in disk and p in head and p in now:
                wtx[p] = head[p]  # Git may recreate a file which was missing
            if (p in new and disk.get(p) == new[p]) or (p not in new and p in head and p not in disk):
                wtx.pop(p, None)
                if p in head:
                    wtx[p] = head[p]
        if sorted(now) != sorted(wtx) or any(now[p] != wtx[p] for p in now):
            return bad("files after switching back: %s, expected %s" % (show(now), show(wtx)))
        ixwant = dict(files[cur])
    else:
        if now != wt:
            return bad("disk: %s, before %s" % (show(now), show(wt)))
        ixwant = want
    if wcopy.index_files(w) != wcopy.oids(ixwant):
        return bad("index: %s, expected %s" % (wcopy.index_files(w), wcopy.oids(ixwant)))
    ctx.outcome("recorded from the index" if head != index else "recorded from disk")
    ctx.state(label)
    ctx.sample(label)
    w.remove()


def diff(a, b):
    return {k: v for k, v in a.items() if b.get(k) != v}


def show(files):
    return {p: "%s %r" % tuple(v) for p, v in files.items() if p not in BASE}


def conflict(u, ctx):
    """Unresolved conflicts: refuse, change nothing."""
    files = {"m0": {"f": "base\n"}, "a": {"f": "a\n"}, "b": {"f": "b\n"}}
    r, oids = make(ctx, {"m0": [], "a": ["m0"], "b": ["m0"]}, head="a", files=lambda g, k: files[k])
    r.git("cherry-pick", oids["b"])
    for resolved in (0, 1):
        for o in OPTS.values():
            if resolved:
                r.write("f", "resolved\n")
            before = r.user_state()
            out = r.gb("record", "-m", "x", *o)
            ctx.transition()
            ctx.evaluation()
            if out.rc == 0 or out.panicked() or r.user_state() != before:
                ctx.violation("conflict %s %d" % (o, resolved), "record with unresolved conflicts: %r" % out, dict(u))
            else:
                ctx.outcome("refused with conflicts")
                ctx.state([o, resolved])
