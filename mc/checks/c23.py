"""C23: sync puts every stack on the up-to-date main branch."""
import itertools
import json
import os
import subprocess

from ..graphs import make, forests, unlabelled, drafts, ancestors, descendants
from ..repo import QueryFailed, set_head

PROPERTY = "C23"
LEVEL = "exploration"
TECHNIQUE = ("exhaustive enumeration of stacks, main-branch positions (local and upstream), conflicts, already-applied commits, selections and HEAD positions, "
             "synced by the real binary, against a model of the resulting graph, branches, HEAD and working copy")
RULE = "distinct (graph, contents, selection, HEAD, upstream) in which the resulting graph is the modelled one"
BOUND = {
    "quick": "all forests of 1-3 drafts over 3 main commits without pull (every selection of one commit, all, pairs of 2-draft forests), all sets of conflicting drafts, "
             "every draft (and pair of drafts) already applied, also if changed again upstream, all HEADs on 2-draft forests; all 9 (local, upstream) positions and a diverged main branch with pull",
    "thorough": "4 drafts; all HEADs on 3-draft forests; all pairs of flags",
}
ASSUMPTIONS = ["linear stacks and forks; merge commits in stacks are covered by C04/C07", "main branches are local branches"]


def units(tier):
    big = tier == "thorough"
    # without pull
    for n in (1, 2, 3) + ((4,) if big else ()):
        for g in unlabelled(forests(3, n)):
            ds = drafts(g)
            heads = ["refs/heads/master", "m0"] + ds + ["refs/heads/b_" + d for d in ds]
            if n == 3 and not big:
                heads = ["refs/heads/master", "c", "refs/heads/b_a"]
            if n == 4:
                heads = ["refs/heads/b_a"]
            cases = []
            for head in heads:
                cases.append([None, head, []])
            for d in ds:
                cases.append([[d], "refs/heads/b_" + d, []])
                cases.append([[d], "m0", []])
            if n == 2 or big:
                cases.append([ds[:2], "refs/heads/master", []])
            for k in range(1, n + 1):
                for flags in itertools.combinations(ds, k):
                    cases.append([None, "refs/heads/b_" + ds[-1], [[d, "hot"] for d in flags]])
            for d in ds:
                for e in [x for x in ds if x != d] + [None]:
                    cases.append([None, "refs/heads/b_" + ds[0], [[d, "dup"]] + ([[e, "hot"]] if e else [])])
                    if n < 3 or big:
                        cases.append([None, d, [[d, "dup"]] + ([[e, "hot"]] if e else [])])
            for k in (1, 2):
                # applied upstream and changed again afterwards
                for dups in itertools.combinations(ds, k):
                    if k == 1 or dups[0] not in ancestors(g, dups[1]):
                        cases.append([None, "refs/heads/b_" + ds[-1], [["m2", "over"]] + [[d, "dup"] for d in dups]])
            cases = [c + [h] for c in cases for h in ([[]] if n == 3 and not big else [[], [ds[-1]]])]
            yield {"g": g, "main": "m2", "up": None, "cases": cases}
    # with pull
    for n in (1, 2):
        for local in range(3):
            for up in range(3):
                for g in unlabelled(forests(local + 1, n)):
                    ds = drafts(g)
                    full = {"m%d" % i: ["m%d" % (i - 1)] if i else [] for i in range(3)}
                    full.update({d: g[d] for d in ds})
                    heads = ["refs/heads/master", "m%d" % local, ds[-1], "refs/heads/b_a"] if n == 1 or big else ["refs/heads/master", "refs/heads/b_b"]
                    cases = [[None, h, [], []] for h in heads]
                    cases += [[None, heads[-1], [[d, f]], []] for d in ds for f in ("hot", "dup")]
                    cases += [[[ds[0]], heads[-1], [], []], [[ds[-1]], heads[0], [], []]]
                    yield {"g": full, "main": "m%d" % local, "up": "m%d" % up, "cases": cases}
    for base, up in itertools.combinations(range(3), 2):
        for n in (0, 1, 2):
            for ps in itertools.product(*[["m%d" % base, "l0", "l1"] + list("ab"[:i]) for i in range(n)]):
                full = {"m%d" % i: ["m%d" % (i - 1)] if i else [] for i in range(3)}
                full.update({"l0": ["m%d" % base], "l1": ["l0"]})
                full.update(dict(zip("ab", ([p] for p in ps))))
                ds = "ab"[:n]
                heads = ["refs/heads/master", "l0", "l1"] + ["refs/heads/b_" + d for d in ds]
                cases = [[None, h, [], []] for h in heads]
                cases += [[None, heads[-1], [[d, f]], []] for d in ["l0", "l1"] + list(ds) for f in ("hot", "dup")]
                yield {"g": full, "main": "l1", "up": "m%d" % up, "cases": cases}


def files(flags):
    def f(g, k):
        anc = ancestors(g, k)
        out, text = {}, "base"
        for x in g:
            if x in anc:
                out["f_" + ("m1" if flags.get(x) == "dup" else x)] = "contents of %s\n" % ("m1" if flags.get(x) == "dup" else x)
                if x == "m1" or flags.get(x) in ("hot", "dup"):
                    text = "changed by " + ("m1" if flags.get(x) == "dup" else x)
                if x == "m2" and flags.get(x) == "over":
                    text = "changed by m2"
        out["shared"] = text + "\n"
        return out
    return f


def rebase(g, root, dest, flags):
    """The graph after moving the subtree at root onto dest, or None in case of a conflict."""
    new = {k: list(v) for k, v in g.items()}
    sub = [k for k in g if k in descendants(g, root)]
    base = g[root][0]
    gained = ancestors(g, dest) - ancestors(g, base)
    lost = ancestors(g, base) - ancestors(g, dest)
    assert not lost & {"m1"}, lost
    new[root] = [dest]
    dropped = {}
    for k in sub:
        new[k] = [dropped.get(p, p) for p in new[k]]
        if "m2" in gained and flags.get("m2") == "over" and flags.get(k) == "hot":
            return None
        if "m1" in gained:
            if flags.get(k) == "hot" and not any(flags.get(x) == "dup" for x in ancestors(g, k)):
                return None
            if flags.get(k) == "dup":
                dropped[k] = new[k][0]
    for k in dropped:
        del new[k]
    return new, dropped


def run_unit(u, ctx):
    g, cache = u["g"], {}
    ds = drafts(g)
    own = [d for d in ds if d not in ("l0", "l1")]
    for case in u["cases"]:
        if "only" in u and u["only"] != case:
            continue
        sel, head, flags, hide = case
        key = json.dumps([flags, hide])
        if key not in cache:
            for r, _ in cache.values():
                r.remove()
            cache.clear()
            fl = dict(map(tuple, flags))
            if any(fl.get(k) == "dup" and ("m1" in ancestors(g, k) or any(fl.get(x) == "hot" for x in ancestors(g, k))) for k in ds):
                continue  # not a duplicate there, or one of a different change
            cache[key] = make(ctx, g, main=u["main"], branches={"b_" + d: d for d in own}, files=files(fl), hide=hide, observe=own)
            if u["up"]:
                r, oids = cache[key]
                d = r.path + "-origin.git"
                subprocess.run(["git", "init", "-q", "--bare", "-b", "master", d], check=True)
                r.plain("push", "-q", d, oids[u["up"]] + ":refs/heads/master")
                r.plain("update-ref", "refs/remotes/origin/master", oids["m0"])
                r.ok("config", "remote.origin.url", d)
                r.ok("config", "remote.origin.fetch", "+refs/heads/*:refs/remotes/origin/*")
                r.ok("config", "branch.master.remote", "origin")
                r.ok("config", "branch.master.merge", "refs/heads/master")
        r, oids = cache[key]
        one(ctx, u, r, oids, g, own, case)
    for r, _ in cache.values():
        r.remove()


def one(ctx, u, r, oids, g, own, case):
    sel, head, flags, hide = case
    flags = dict(map(tuple, flags))
    w = r.copy(ctx.tmp())
    set_head(w, ("ref", head) if head.startswith("refs/") else ("oid", oids[head]))
    w.plain("reset", "-q", "--hard")
    w.write("untracked", "precious\n")
    label = "%s main %s upstream %s sync %s HEAD=%s %s hidden %s" % (json.dumps(g), u["main"], u["up"], sel, head, flags, hide)
    refs0, head0, at = w.user_refs(), w.head(), w.head_oid()
    inv = {o: k for k, o in oids.items()}
    at = inv[at]
    w.clock += 10
    out = w.gb("sync", *(["-p"] if u["up"] else []), *[oids[k] for k in sel or []])
    ctx.transition()
    ctx.evaluation()

    def bad(msg):
        ctx.violation(label + "|" + msg.split(":")[0], label + "\n" + msg + "\n" + repr(out), dict(u, only=case))
        w.remove()

    if out.timeout or out.panicked() or w.in_progress():
        return bad("sync crashed")
    # the model
    # a hidden commit without visible descendants is not part of any stack unless something else keeps it visible
    gone = {h for h in hide if h != at and not any(v == oids[h] for n, v in refs0.items())}
    cur = {k: v for k, v in g.items() if k not in gone}
    main, dropped = u["main"], {}

    def attempt(root, dest):
        nonlocal cur
        res = rebase(cur, root, dest, flags)
        if res is None:
            ctx.outcome("conflict")
            return False
        cur = res[0]
        dropped.update(res[1])
        return True

    if u["up"]:
        mine = ancestors(cur, main) - ancestors(cur, u["up"])
        if not mine:
            main = u["up"]
        else:
            root = next(k for k in cur if k in mine)
            if cur[root] != [u["up"]]:
                attempt(root, u["up"])
                while main in dropped:
                    main = dropped[main]
    public = ancestors(cur, main)
    ups = {k for k in g if k.startswith("m")}
    stack = [k for k in cur if k not in public and k not in ups]
    wanted = set().union(*[ancestors(cur, k) for k in sel]) if sel is not None else set(cur)
    for root in [k for k in stack if cur[k][0] in public or cur[k][0] in ups]:
        if root in cur and root in wanted and cur[root] != [main]:
            attempt(root, main)
    # the observation
    try:
        vis = w.query("all()")
    except QueryFailed as e:
        return bad("unreadable: %s" % e)
    lab = {}
    for o in vis:
        k = w.commit(o).label
        if k in ups and k not in public:
            continue
        if k in lab:
            return bad("visible twice: %s" % k)
        lab[k] = o
    want = {k: v for k, v in cur.items() if k not in ups or k in public}
    if set(lab) != set(want):
        return bad("visible: %s, expected %s" % (sorted(lab), sorted(want)))
    f = files(flags)
    for k, o in lab.items():
        c = w.commit(o)
        ps = [w.commit(p).label for p in c.parents]
        if ps != want[k] or any(lab[p] != c.parents[i] for i, p in enumerate(ps)):
            return bad("parents: %s is on %s, expected %s" % (k, ps, want[k]))
        same = ancestors(want, k) == ancestors(g, k) and all(want[x] == g[x] for x in ancestors(want, k))
        if same and o != oids[k]:
            return bad("rewritten: %s although it did not move" % k)
        got = {p: v[1].decode() for p, v in w.files(o).items()}
        if got != f(dict(want), k):
            return bad("contents: %s has %s, expected %s" % (k, got, f(want, k)))
    refs, gone_refs = {}, set()
    for n, o in refs0.items():
        if n.startswith("refs/remotes/"):
            continue
        k = inv[o]
        if n == "refs/heads/master":
            k = main
        if k in dropped:
            gone_refs.add(n)
            continue
        refs[n] = lab.get(k, oids[k])
    now = {n: o for n, o in w.user_refs().items() if not n.startswith("refs/remotes/")}
    onto = at
    while onto in dropped:
        onto = dropped[onto]
    for n in gone_refs & set(now):
        # the branch of a dropped commit is deleted or moves to what the commit sat on
        k = inv[refs0[n]]
        while k in dropped:
            k = dropped[k]
        if now.pop(n) != lab[k]:
            return bad("branch of a dropped commit: %s" % n)
    if now != refs:
        return bad("references: %s, expected %s" % (names(now, lab), names(refs, lab)))
    hd, ho = w.head(), w.head_oid()
    if head0[0] == "ref" and head0[1] not in gone_refs:
        if hd != head0:
            return bad("HEAD: %s, expected %s" % (hd, head0))
    elif ho != lab.get(onto, oids.get(onto)):
        return bad("HEAD: %s, expected at %s" % (hd, onto))
    k = main if head0 == ("ref", "refs/heads/master") else onto
    expect = {p: ("100644", t.encode()) for p, t in f(cur if k in cur else g, k).items()}
    expect["untracked"] = ("100644", b"precious\n")
    if w.worktree() != expect or w.git("status", "--porcelain", "-uno").out:
        return bad("working copy: %s, expected %s" % (sorted(w.worktree()), sorted(expect)))
    if u["up"] and (cur != g or main != u["main"]):
        # one undo takes back the whole sync
        un = w.gb("undo", "-y")
        ctx.transition()
        now = {n: o for n, o in w.user_refs().items() if not n.startswith("refs/remotes/")}
        was = {n: o for n, o in refs0.items() if not n.startswith("refs/remotes/")}
        if un.rc != 0 or now != was or w.head_oid() != oids[at]:
            out = un
            return bad("undo: HEAD %s references %s, expected %s %s" % (names({0: w.head_oid()}, oids), names(now, oids), at, names(was, oids)))
        ctx.outcome("undone")
    ctx.outcome("moved" if cur != {k: v for k, v in g.items() if k not in gone} else "nothing to move")
    if dropped:
        ctx.outcome("dropped an applied commit")
    ctx.state([label])
    ctx.sample({"case": label})
    w.remove()


def names(refs, lab):
    inv = {o: k for k, o in lab.items()}
    return {n: inv.get(o, o) for n, o in refs.items()}
