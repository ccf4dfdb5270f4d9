"""C21: `git test` reports true results and restores everything."""
import hashlib
import itertools
import os

from ..repo import build_repo
from ..testrun import CLASS, CODES, Ctl, Hang, Report, Run

PROPERTY = "C21"
LEVEL = "model_checking"
TECHNIQUE = ("explicit-state exploration of the real `git test`: every assignment of exit codes to the commits of small graphs, "
             "for every strategy, search mode and fixture; every sequence of runs with the result cache in between (including runs "
             "killed half-way); every order in which two commands running at a time can end; compared with a model of the results, "
             "the cache and the fixed commits")
BOUND = {
    "quick": "graphs of up to 3 commits (stack, fork, merge, commits with equal contents), 5 outcomes (pass, fail, skip, abort, "
             "killed; stack and fork, else 3) per commit, strategies working-copy and worktree, searches none/linear/reverse/binary, clean copy with an "
             "untracked file or uncommitted changes; cache: all sequences of 2 operations out of 20 and a probing run; fixes: every "
             "set of commits x 3 behaviours per commit; 2 jobs: every completion order of 3 commits x 3 outcomes",
    "thorough": "as quick; searches with all 5 outcomes, cache sequences of 3 operations, 4 commits with 2 and 3 jobs",
}
ASSUMPTIONS = ["the command is not interactive", "commands are told apart by their text; see the known finding on command names",
               "the command leaves no untracked files behind and does not touch the index or HEAD"]

FILES = {"m": {"f": "m\n"}, "a": {"f": "a\n", "g/a": "1\n"}, "b": {"f": "b\n", "g/a": "1\n", "g/b": "2\n"},
         "c": {"f": "c\n", "g": "now a file\n"}, "d": {"f": "d\n", "g/a": "2\n"}}
GRAPHS = {
    "stack": [("m", []), ("a", ["m"]), ("b", ["a"]), ("c", ["b"])],
    "fork": [("m", []), ("a", ["m"]), ("b", ["a"]), ("c", ["a"])],
    "merge": [("m", []), ("a", ["m"]), ("b", ["m"]), ("c", ["a", "b"])],
    "same": [("m", []), ("a", ["m"]), ("b", ["a"]), ("c", ["b"])],
    "stack4": [("m", []), ("a", ["m"]), ("b", ["a"]), ("c", ["b"]), ("d", ["c"])],
    "fork4": [("m", []), ("a", ["m"]), ("b", ["a"]), ("c", ["b"]), ("d", ["a"])],
}
OUT5 = ["0", "1", "125", "127", "K"]
OUT3 = ["0", "1", "125"]
SEARCH = {"none": [], "linear": ["--search", "linear"], "reverse": ["--search", "reverse"], "binary": ["--search", "binary"]}
STRATEGY = {"wc": ["--strategy", "working-copy"], "wt": ["--strategy", "worktree"]}


def files(g, k):
    if g == "same" and k == "b":
        k = "a"
    return FILES[k]


def labels(g):
    return [k for k, _ in GRAPHS[g] if k != "m"]


def ancestors(g, k):
    par = dict(GRAPHS[g])
    out, todo = set(), [k]
    while todo:
        x = todo.pop()
        if x not in out:
            out.add(x)
            todo += par[x]
    return out


def make(ctx, g, head="c", branches=None):
    commits = [(k, ps, files(g, k), i) for i, (k, ps) in enumerate(GRAPHS[g])]
    r, oids = build_repo(ctx.tmp(), commits, "m", drafts=labels(g), branches={"x": "b"} if branches is None else branches,
                         head=head)
    return r, oids


def units(tier):
    thorough = tier == "thorough"
    for g in ("stack", "fork", "merge", "same"):
        for s in STRATEGY:
            outs = OUT5 if thorough or g in ("stack", "fork") else OUT3
            for first in outs:
                yield {"kind": "run", "graph": g, "strategy": s, "search": "none", "first": first, "outs": outs,
                       "fixture": "branch" if g == "fork" else "plain"}
            for search in ("linear", "reverse", "binary"):
                if g == "same":
                    continue
                outs = OUT5 if thorough or s == "wt" and search == "binary" else OUT3
                for first in outs:
                    yield {"kind": "run", "graph": g, "strategy": s, "search": search, "first": first, "outs": outs,
                           "fixture": "plain"}
    yield {"kind": "dirty"}
    for i in range(len(cache_ops())):
        yield {"kind": "cache", "first": i, "depth": 3 if thorough else 2}
    for g in ("stack", "fork"):
        for s in STRATEGY:
            for first in range(3):
                yield {"kind": "fix", "graph": g, "strategy": s, "first": first}
    for search in SEARCH:
        for first in OUT3 + ["127"]:
            for g in ("stack", "fork") + (("stack4", "fork4") if thorough else ()):
                yield {"kind": "jobs", "graph": g, "jobs": 2, "search": search, "first": first, "outs": OUT3}
        if thorough:
            for first in OUT3:
                yield {"kind": "jobs", "graph": "stack4", "jobs": 3, "search": search, "first": first, "outs": ["0", "1"]}
    yield {"kind": "jobs", "graph": "same", "jobs": 2, "search": "none", "first": "0", "outs": ["0"], "cached": True}
    yield {"kind": "slug"}


def run_unit(u, ctx):
    {"run": do_run, "dirty": do_dirty, "cache": do_cache, "fix": do_fix, "jobs": do_jobs, "slug": do_slug}[u["kind"]](u, ctx)


def sha(content):
    return hashlib.sha1(content.encode()).hexdigest()


def tested_tree(g, k, have, tracked=()):
    """The difference between what the command saw and the commit's files,
    not counting files that no commit knows (left behind or untracked)."""
    want = {p: sha(c) for p, c in files(g, k).items()}
    known = set().union(*(FILES[x] for x in FILES))
    got = {p: h for p, h in have.items() if p in known}
    return None if want == got else "saw %s, the commit has %s" % (got, want)


def judge(ctx, u, key, g, want, oids, ctl, rep, search, cached=None, jobs=1, aborted_ok=False):
    """Compare runs and report with the outcomes. cached: {label: class} of
    results that have to come from the cache."""
    cached = cached or {}
    name = {v: k for k, v in oids.items()}
    ks = labels(g)
    runs = ctl.runs()
    ran = [name.get(o, o) for o, _, _ in runs]
    ctx.evaluation()

    def bad(msg):
        ctx.violation(key, "%s: %s; commands run on %s\n%s" % (key, msg, ran, rep.text), u)
        return False

    for k in ran:
        if k not in ks:
            return bad("command run on %s, which was not selected" % k)
        if ran.count(k) > 1:
            return bad("command run more than once on %s" % k)
        if k in cached:
            return bad("command run on %s although there is a result for its contents" % k)
    for o, _, have in runs:
        d = tested_tree(g, name[o], have)
        if d:
            return bad("wrong contents when testing %s: %s" % (name[o], d))
    if rep.twice:
        return bad("commits reported twice: %s" % rep.twice)
    got = rep.status
    for k, (kind, c) in got.items():
        w = cached[k] if k in cached else CLASS[want[k]]
        if kind != w:
            return bad("%s is reported as %s instead of %s" % (k, kind, w))
        if k not in cached and k not in ran:
            return bad("a result for %s is reported, but the command was not run there" % k)
        if kind in ("pass", "fail") and c != (k in cached):
            return bad("%s is%s reported as a cached result" % (k, "" if c else " not"))
    n = [v[0] for v in got.values()]
    counts = (n.count("pass"), n.count("fail") + n.count("abort"), n.count("skip"))
    if rep.counts != counts or rep.ran != len(got):
        return bad("summary %s/%s does not match the results %s" % (rep.counts, rep.ran, counts))
    aborted = "abort" in n
    # a command that had been started may end after the search or the whole
    # run is over, and is not reported then
    if search == "none":
        if not aborted:
            if set(got) != set(ks):
                return bad("no result for %s" % sorted(set(ks) - set(got)))
        ok = set(n) == {"pass"}
        if (rep.rc == 0) != ok:
            return bad("exit code %s" % rep.rc)
    else:
        passed = {k for k, v in got.items() if v[0] == "pass"}
        failed = {k for k, v in got.items() if v[0] == "fail"}
        if aborted:
            if rep.rc == 0:
                return bad("exit code 0 after an abort")
            return True
        if jobs == 1 and set(ran) - set(got):
            return bad("no result for %s" % sorted(set(ran) - set(got)))
        consistent = not any(q in ancestors(g, p) for p in passed for q in failed)
        if consistent:
            if rep.rc != 0:
                return bad("exit code %s" % rep.rc)
            last = {k for k in passed if not any(k != o and k in ancestors(g, o) for o in passed)}
            first = {k for k in failed if not any(k != o and o in ancestors(g, k) for o in failed)}
            if rep.bounds.get("Last") != last:
                return bad("last passing %s instead of %s" % (rep.bounds.get("Last"), last))
            if rep.bounds.get("First") != first:
                return bad("first failing %s instead of %s" % (rep.bounds.get("First"), first))
            for k in ks:
                if k not in got and not any(k in ancestors(g, p) for p in passed) \
                        and not any(q in ancestors(g, k) for q in failed):
                    return bad("the search ended without deciding %s" % k)
    return True


def same_state(ctx, u, key, before, r):
    after = r.user_state()
    if after != before:
        diff = {k: (before[k], after[k]) for k in before if before[k] != after[k]}
        if set(diff) == {"in_progress"}:
            key += ": operation left in progress"
        ctx.violation(key, "%s: not restored: %s" % (key, diff), u)
        return False
    return True


def do_run(u, ctx):
    g = u["graph"]
    if u["fixture"] == "branch":
        r, oids = make(ctx, g, head="refs/heads/x")
    else:
        r, oids = make(ctx, g)
    r.write("untracked", "keep me\n")
    ctl = Ctl(ctx.tmp())
    before = r.user_state()
    ks = labels(g)
    for rest in itertools.product(u["outs"], repeat=len(ks) - 1):
        if "only" in u and list(rest) != u["only"]:
            continue
        want = dict(zip(ks, (u["first"],) + rest))
        ctl.clear()
        for k in ks:
            ctl.act(oids[k], CODES[want[k]])
        key = "%s %s %s %s" % (g, u["strategy"], u["search"], " ".join("%s=%s" % kv for kv in want.items()))
        r.clock += 1
        out = r.gb("test", "run", "-x", ctl.cmd(), "--no-cache", *STRATEGY[u["strategy"]], *SEARCH[u["search"]],
                   "+".join(oids[k] for k in ks), env=ctl.env)
        ctx.transition()
        replay = dict(u, only=list(rest))
        if out.timeout or out.panicked() and u["search"] == "none":
            ctx.violation(key, "%s: %r" % (key, out), replay)
            return
        consistent = out.rc in (0, 1)
        if consistent and not judge(ctx, replay, key, g, want, oids, ctl, Report(out), u["search"]):
            return
        if not consistent and not contradictory(g, want):
            ctx.violation(key, "%s: %r" % (key, out), replay)
            return
        if not same_state(ctx, replay, key, before, r):
            return
        ctx.state(key)
        ctx.outcome("exit %s" % out.rc)


def contradictory(g, want):
    return any(want[p] == "0" and want[q] == "1" and q in ancestors(g, p) for p in want for q in want)


def do_dirty(u, ctx):
    """With uncommitted changes the run may be refused, but must not lose them."""
    base, oids = make(ctx, "stack")
    ks = labels("stack")
    for s in STRATEGY:
        for how, args in itertools.product(("unstaged", "staged", "deleted", "both", "added"), (["run"], ["fix"])):
            r = base.copy(ctx.tmp())
            if how in ("unstaged", "both"):
                r.write("f", "changed\n")
            if how == "staged":
                r.write("f", "changed\n")
                r.plain("add", "f")
            if how == "deleted":
                r.delete("g")
            if how == "both":
                r.plain("add", "f")
                r.write("f", "changed again\n")
            if how == "added":
                r.write("new", "new\n")
                r.plain("add", "new")
            ctl = Ctl(ctx.tmp())
            for k in ks:
                ctl.act(oids[k], "exit 0")
            before = r.user_state()
            key = "uncommitted changes (%s) %s %s" % (how, s, args[0])
            r.clock += 1
            out = r.gb("test", *args, "-x", ctl.cmd(), "--no-cache", *STRATEGY[s], "+".join(oids[k] for k in ks), env=ctl.env)
            ctx.transition()
            if out.rc == 0:
                if not judge(ctx, u, key, "stack", {k: "0" for k in ks}, oids, ctl, Report(out), "none"):
                    return
            elif ctl.runs() and s == "wc" and out.rc != 1:
                ctx.violation(key, "%s: %r" % (key, out), u)
                return
            ctx.evaluation()
            if not same_state(ctx, u, key, before, r):
                continue
            ctx.state(key)
            ctx.outcome("dirty exit %s" % out.rc)


def cache_ops():
    ops = [("clean",), ("reword",)]
    for cmd in "ab":
        for cache in (True, False):
            if cmd == "b" and not cache:
                continue
            for o in OUT5 + ["I"]:
                ops.append((cmd, cache, o))
    return ops


def do_cache(u, ctx):
    """One commit with a result cache; I = the run is killed half-way."""
    ops = cache_ops()
    base, oids = make(ctx, "same", branches={})
    # the tested commits: b and c, where b has the contents of a
    tree = {"b": "T", "c": "U"}
    for seq in itertools.product(range(len(ops)), repeat=u["depth"] - 1):
        if "only" in u and list(seq) != u["only"]:
            continue
        todo = [ops[i] for i in (u["first"],) + seq]
        if u["depth"] == 3 and todo[-1][0] not in ("a", "clean"):
            continue
        replay = dict(u, only=list(seq))
        r = base.copy(ctx.tmp())
        ctl = Ctl(ctx.tmp())
        cache = {}
        cur = dict(oids)
        good = True
        for n, op in enumerate(todo + [("show",), ("a", True, "2")]):
            key = "cache: " + ", ".join(" ".join(str(x) for x in o) for o in todo[:n + 1])
            if not cache_step(ctx, replay, key, r, ctl, cache, cur, op, tree):
                good = False
                break
        if not good:
            return
        ctx.state("cache %s" % (todo,))
        r.remove()


def cache_step(ctx, u, key, r, ctl, cache, cur, op, tree):
    r.clock += 1
    ctx.transition()
    ctl.clear()
    if op[0] == "clean":
        out = r.gb("test", "clean", "+".join(cur[k] for k in "bc"))
        if out.rc != 0:
            ctx.violation(key, "%s: %r" % (key, out), u)
            return False
        cache.clear()
        return True
    if op[0] == "reword":
        # the same contents in other commits
        out = r.gb("reword", "-f", cur["b"], "-m", "b%d" % r.clock)
        if out.rc != 0:
            ctx.violation(key, "%s: %r" % (key, out), u)
            return False
        cur["c"] = r.head_oid()
        cur["b"] = r.commit(cur["c"]).parents[0]
        return True
    names = {"b": r.commit(cur["b"]).message.split()[0], "c": "c"}
    if op[0] == "show":
        for cmd in "ab":
            out = r.gb("test", "show", "-x", ctl.cmd(cmd), "+".join(cur[k] for k in "bc"), env=ctl.env)
            rep = Report(out)
            ctx.evaluation()
            for k in "bc":
                w = cache.get((tree[k], cmd))
                got = rep.status.get(names[k])
                if (got[0] if got else None) != (CLASS[w] if w else None):
                    ctx.violation(key + ", show", "%s: show reports %s for %s, result in the cache: %s\n%s" % (key, got, k, w, out.out), u)
                    return False
        return True
    cmd, use, o = op
    killed = o == "I"
    todo = [k for k in "bc" if not (use and (tree[k], cmd) in cache)]
    for k in "bc":
        if killed and todo and k == todo[-1]:
            ctl.fifo(cur[k], "exit 0")
        else:
            ctl.act(cur[k], CODES["0" if killed else o])
    args = ["test", "run", "-x", ctl.cmd(cmd), "--strategy", "worktree"] + ([] if use else ["--no-cache"]) + \
           ["+".join(cur[k] for k in "bc")]
    run = Run(r, args, ctl)
    try:
        if killed and todo and not (use and any(cache.get((tree[k], cmd)) == "127" for k in "bc" if k not in todo and k < todo[-1])):
            waiting = run.settle()
            run.kill()
            if waiting is None:
                ctx.violation(key, "%s: the command was not run" % key, u)
                return False
            for k in todo[:-1]:
                if use:
                    cache[(tree[k], cmd)] = "0"
            ctx.outcome("killed")
            return True
        for c in ctl.blocked():
            run.release(c)
        out = run.finish()
    except Hang as e:
        run.kill()
        ctx.violation(key, "%s: %s" % (key, e), u)
        return False
    finally:
        run.kill()
    rep = Report(out)
    inv = {v: k for k, v in cur.items()}
    ran = [inv[c] for c, _, _ in ctl.runs()]
    ctx.evaluation()
    want, seen = {}, []
    for k in "bc":
        if use and (tree[k], cmd) in cache:
            c, v = True, cache[(tree[k], cmd)]
        else:
            c, v = False, "0" if killed else o
            seen.append(k)
            if use and v != "K":
                cache[(tree[k], cmd)] = v
        want[names[k]] = (CLASS[v], c and v in ("0", "1", "2"))
        if v == "127":
            # the next command may have been started already
            for k2 in "bc":
                if names[k2] not in want and k2 in ran and not (use and (tree[k2], cmd) in cache):
                    seen.append(k2)
                    if use and o not in ("K", "I"):
                        cache[(tree[k2], cmd)] = o
            break
    got = {k: (v[0], v[1]) for k, v in rep.status.items()}
    if ran != seen and set(ran) != set(seen) or got != want:
        ctx.violation(key, "%s: reported %s, should be %s; ran on %s, should be %s\n%s" % (key, got, want, ran, seen, out.out), u)
        return False
    ctx.outcome("cached" if not ran else "ran")
    return True


FIX = ["exit 0", "echo fixed-$(cat f) > f; exit 0", "echo broken > f; exit 1"]


def do_fix(u, ctx):
    g = u["graph"]
    base, oids = make(ctx, g)
    ks = labels(g)
    par = dict(GRAPHS[g])
    base.write("untracked", "keep me\n")
    info = {k: base.commit(oids[k]) for k in ks}
    for rest in itertools.product(range(3), repeat=len(ks) - 1):
        act = dict(zip(ks, (u["first"],) + rest))
        for n in range(1, len(ks) + 1):
            for sel in itertools.combinations(ks, n):
                if "only" in u and [list(rest), list(sel)] != u["only"]:
                    continue
                replay = dict(u, only=[list(rest), list(sel)])
                key = "fix %s %s %s" % (g, u["strategy"], " ".join("%s=%d%s" % (k, act[k], "" if k in sel else "-") for k in ks))
                r = base.copy(ctx.tmp())
                ctl = Ctl(ctx.tmp())
                for k in ks:
                    ctl.act(oids[k], FIX[act[k]])
                before = r.user_state()
                r.clock += 1
                out = r.gb("test", "fix", "-x", ctl.cmd(), "--no-cache", *STRATEGY[u["strategy"]], "+".join(oids[k] for k in sel),
                           env=ctl.env)
                ctx.transition()
                ctx.evaluation()
                fixed = {k for k in sel if act[k] == 1}
                if any(act[k] == 2 for k in sel):
                    # no fix is applied if the command failed on some commit
                    fixed = set()
                changed = {k for k in ks if ancestors(g, k) & fixed}
                problem = fix_problem(r, g, ks, par, oids, info, fixed, changed, before)
                if out.panicked() or out.timeout:
                    problem = "%r" % out
                if problem is None:
                    for o, _, have in ctl.runs():
                        d = tested_tree(g, {v: k for k, v in oids.items()}[o], have)
                        problem = problem or d
                if problem:
                    ctx.violation(key, "%s: %s\n%s" % (key, problem, out.out), replay)
                    return
                ctx.state(key)
                ctx.outcome("%d rewritten" % len(changed))
                r.remove()


def fix_problem(r, g, ks, par, oids, info, fixed, changed, before):
    after = r.user_state()
    if not changed:
        return None if after == before else "nothing to fix, but the state changed"
    by = {}
    for o in after["visible"]:
        c = r.commit(o)
        k = c.message.split()[0]
        if k in by:
            return "two visible commits %s" % k
        by[k] = c
    if set(by) != set(ks) | {"m"}:
        return "visible commits are %s" % sorted(by)
    for k in ks:
        c = by[k]
        if (k in changed) != (c.oid != oids[k]):
            return "%s was%s rewritten" % (k, "" if c.oid != oids[k] else " not")
        if list(c.parents) != [by[p].oid for p in par[k]]:
            return "%s has other parents" % k
        want = {p: ("100644", x.encode()) for p, x in files(g, k).items()}
        if k in fixed:
            want["f"] = ("100644", b"fixed-" + want["f"][1])
        if r.files(c.oid) != want:
            return "%s has the contents %s" % (k, r.files(c.oid))
        if (c.author, c.message) != (info[k].author, info[k].message):
            return "author or message of %s changed" % k
    if after["refs"] != {n: by[k].oid for n, k in (("refs/heads/master", "m"), ("refs/heads/x", "b"))}:
        return "branches are %s" % after["refs"]
    if r.head_oid() != by["c"].oid or after["in_progress"]:
        return "HEAD is %s, in progress %s" % (after["head"], after["in_progress"])
    have = {p: v[1] for p, v in r.worktree().items()}
    want = {p: v[1] for p, v in r.files(by["c"].oid).items()}
    want["untracked"] = b"keep me\n"
    if have != want:
        return "working copy has %s" % have
    return None


def do_jobs(u, ctx):
    """Every order in which the commands running at the same time can end."""
    g = u["graph"]
    r, oids = make(ctx, g, branches={})
    ks = labels(g)
    ctl = Ctl(ctx.tmp())
    before = r.user_state()
    name = {v: k for k, v in oids.items()}
    for rest in itertools.product(u["outs"], repeat=len(ks) - 1):
        want = dict(zip(ks, (u["first"],) + rest))
        prefix = u["only"][1] if "only" in u else []
        if "only" in u and list(rest) != u["only"][0]:
            continue
        while prefix is not None:
            order, options, out = one_order(ctx, u, r, ctl, oids, name, want, prefix)
            key = "%s jobs %d %s %s order %s" % (g, u["jobs"], u["search"], " ".join("%s=%s" % kv for kv in want.items()),
                                                 "".join(order))
            replay = dict(u, only=[list(rest), order])
            if isinstance(out, str):
                ctx.violation(key, "%s: %s" % (key, out), replay)
                return
            rep = Report(out)
            if out.rc not in (0, 1) and not contradictory(g, want):
                ctx.violation(key, "%s: %r" % (key, out), replay)
                return
            if u.get("cached"):
                # commits with equal contents are tested once
                bad = [k for k in ks if rep.status.get(k, ("",))[0] != CLASS[want[k]]]
                ctx.evaluation()
                if bad:
                    ctx.violation("two jobs on commits with equal contents", "%s: reported %s\n%s" % (key, rep.status, rep.text), replay)
                    r.gb("test", "clean", "+".join(oids[k] for k in ks))
            elif out.rc in (0, 1) and not judge(ctx, replay, key, g, want, oids, ctl, rep, u["search"], jobs=u["jobs"]):
                return
            if not same_state(ctx, replay, key, before, r):
                return
            ctx.state(key)
            ctx.outcome("order of %d" % len(order))
            if "only" in u:
                break
            # next order, depth first
            prefix = None
            for i in range(len(order) - 1, -1, -1):
                later = [o for o in options[i] if o > order[i]]
                if later:
                    prefix = order[:i] + [later[0]]
                    break


def one_order(ctx, u, r, ctl, oids, name, want, prefix):
    ctl.clear()
    for k in want:
        ctl.fifo(oids[k], CODES[want[k]])
    r.clock += 1
    run = Run(r, ["test", "run", "-x", ctl.cmd(), "--jobs", str(u["jobs"])] + ([] if u.get("cached") else ["--no-cache"]) +
              SEARCH[u["search"]] + ["+".join(oids[k] for k in want)], ctl)
    order, options = [], []
    try:
        while True:
            waiting = run.settle()
            if waiting is None:
                break
            ks = sorted(name[c] for c in waiting)
            if len(ks) > u["jobs"]:
                return order, options, "%d commands at a time" % len(ks)
            i = len(order)
            k = prefix[i] if i < len(prefix) and prefix[i] in ks else ks[0]
            order.append(k)
            options.append(ks)
            ctx.transition()
            if not run.release(oids[k]):
                return order, options, "the command on %s is gone" % k
        return order, options, run.finish()
    except Hang as e:
        return order, options, str(e)
    finally:
        run.kill()


COMMANDS = ["test -f a/b", "test -f a b", "test -f a__b", "test -f a\nb", "true a", "true  a", "true a ", "true 'a'"]


def do_slug(u, ctx):
    """A result of one command is never reported for another."""
    base, oids = make(ctx, "stack")
    for x, y in itertools.permutations(COMMANDS, 2):
        if "only" in u and [x, y] != u["only"]:
            continue
        r = base.copy(ctx.tmp())
        for c in (x, y):
            r.clock += 1
            out = r.gb("test", "run", "-x", c, "--strategy", "worktree", oids["c"])
            ctx.transition()
        ctx.evaluation()
        rep = Report(out)
        if rep.status.get("c", (None, True))[1]:
            ctx.violation("cached result of %r for %r" % (x, y), "running %r after %r: %s" % (y, x, out.out), dict(u, only=[x, y]))
            continue
        ctx.state("commands %r %r" % (x, y))
        r.remove()
