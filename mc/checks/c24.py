"""C24: submit pushes exactly the selected branches."""
import itertools
import os
import shutil
import subprocess

from ..graphs import make
from ..repo import Repo, QueryFailed

PROPERTY = "C24"
LEVEL = "exploration"
TECHNIQUE = ("exhaustive enumeration of the local, tracking and remote state of every branch, selections, options and points at which somebody else updates "
             "the remote, submitted by the real binary to real remotes, against a rule for every remote and local reference")
RULE = "distinct (branch states, selection, options, interference) in which exactly the references the rule names were updated"
BOUND = {
    "quick": "8 local/tracking/remote states of a branch: all 64 pairs x 4 selections x 4 option sets; all triples of 4 states with -c and without; "
             "2 remotes x 16 states; commits with 2 branches; somebody else's update (5 kinds) at 3 points of the run; 5 default selections",
    "thorough": "all 512 triples of 8 states x 8 selections with -c and without",
}
ASSUMPTIONS = ["branch forge", "the upstream of a branch has the branch's name and is where it is pushed to"]

G = {"m0": [], "m1": ["m0"], "a": ["m1"], "b": ["a"], "c": ["m1"], "x": ["m0"], "oa": ["m0"], "ob": ["oa"], "oc": ["m1"]}
BRANCH = {"A": "a", "B": "b", "C": "c"}
# state -> (has an upstream, tracking value, remote value); "=" own commit, "<" own older version, "!" somebody else's commit, "^" an ancestor
STATES = {
    "N-": (False, None, None),
    "N!": (False, None, "!"),
    "N^": (False, None, "^"),
    "U=": (True, "=", "="),
    "U<": (True, "<", "<"),
    "U<!": (True, "<", "!"),
    "U=!": (True, "=", "!"),
    "U<-": (True, "<", None),
}
OPTS = {"": [], "c": ["-c"], "n": ["-n"], "cn": ["-c", "-n"]}
KINDS = ["other", "delete", "mine", "rewind", "unrelated"]


def units(tier):
    for s in STATES:
        yield {"cases": [[{"A": s, "B": t, "C": "N-"}, sel, o] for t in STATES for sel in (["A"], ["B"], ["A", "B"], []) for o in OPTS]}
    some = ["N-", "U=", "U<", "U<!"]
    for s, t in itertools.product(some, repeat=2):
        yield {"cases": [[{"A": s, "B": t, "C": v}, sel, o] for v in some for sel in (["A", "C"], ["A", "B", "C"]) for o in ("", "c")]}
    for s in STATES:
        yield {"kind": "two-remotes", "cases": [[{"A": s, "B": "U<", "C": t}, ["A", "B", "C"], o] for t in ("U<", "U=") for o in ("", "c")]}
    yield {"kind": "shared", "cases": [[{"A": s, "B": t, "C": v}, sel, o] for s in ("N-", "U<") for t in ("N-", "U<") for v in ("U<", "U=", "N-")
                                       for sel in (["A"], ["A", "C"], ["C"]) for o in ("", "c")]}
    for kind in KINDS:
        yield {"kind": "race", "cases": [[{"A": s, "B": t, "C": "N-"}, ["A", "B"], o, kind, point] for s in ("U<", "U<!", "U=", "N-") for t in ("U<", "N-")
                                         for o in ("", "c") for point in ("fetch", "push", "receive")]}
    yield {"kind": "defaults", "cases": [[{"A": s, "B": t, "C": v}, rev, o] for s, t, v in itertools.product(("U<", "U=", "N-"), repeat=3)
                                         for rev in ("", "all()", "draft()", "master", "@") for o in ("", "c")]}
    if tier == "thorough":
        for s, t in itertools.product(STATES, repeat=2):
            yield {"cases": [[{"A": s, "B": t, "C": v}, [x for x, y in zip("ABC", bits) if y], o] for v in STATES
                             for bits in itertools.product((0, 1), repeat=3) for o in ("", "c")]}


def run_unit(u, ctx):
    r, oids = make(ctx, {k: v for k, v in G.items()}, branches=BRANCH, head="refs/heads/B", observe=["a", "b", "c"])
    base = ctx.tmp("t")
    os.makedirs(base)
    r.ok("branch", "keep", oids["x"])
    for remote in ("origin", "fork"):
        d = os.path.join(base, remote + ".git")
        subprocess.run(["git", "init", "-q", "--bare", "-b", "master", d], check=True)
        r.plain("push", "-q", d, *["%s:refs/tmp/%s" % (o, k) for k, o in oids.items()])
        rr = Repo(d)
        rr.gitdir = d
        for k in oids:
            rr.ok("update-ref", "-d", "refs/tmp/" + k)
        rr.ok("update-ref", "refs/heads/master", oids["m1"])
        rr.ok("update-ref", "refs/heads/theirs", oids["x"])
        shutil.rmtree(os.path.join(d, "hooks"), ignore_errors=True)
        r.ok("config", "remote.%s.url" % remote, "../%s.git" % remote)
        r.ok("config", "remote.%s.fetch" % remote, "+refs/heads/*:refs/remotes/%s/*" % remote)
    r.plain("update-ref", "refs/remotes/origin/master", oids["m1"])
    r.ok("config", "branch.master.remote", "origin")
    r.ok("config", "branch.master.merge", "refs/heads/master")
    os.rename(r.path, os.path.join(base, "local"))
    for case in u["cases"]:
        if "only" not in u or u["only"] == case:
            one(ctx, u, base, oids, case)
    shutil.rmtree(base)


def value(v, branch, oids):
    own = BRANCH[branch]
    return None if v is None else oids[{"=": own, "<": "o" + own, "!": "x", "^": "m0"}[v]]


def write_ref(gitdir, name, oid):
    p = os.path.join(gitdir, name)
    os.makedirs(os.path.dirname(p), exist_ok=True)
    with open(p, "w") as f:
        f.write(oid + "\n")


def one(ctx, u, base, oids, case):
    states, sel, o = case[:3]
    kind = u.get("kind", "")
    d = ctx.tmp()
    subprocess.run(["cp", "-a", base, d], check=True)
    w = Repo(os.path.join(d, "local"))
    home = {"A": "origin", "B": "origin", "C": "origin"}
    if kind == "two-remotes":
        home["C"] = "fork"
        if STATES[states["A"]][0]:
            home["A"] = "fork"
    remotes = {n: Repo(os.path.join(d, n + ".git")) for n in ("origin", "fork")}
    for x in remotes.values():
        x.gitdir = x.path
    cfg = ""
    for b, s in states.items():
        up, tracking, remote = STATES[s]
        if up:
            cfg += '[branch "%s"]\n\tremote = %s\n\tmerge = refs/heads/%s\n' % (b, home[b], b)
        if tracking:
            write_ref(w.gitdir, "refs/remotes/%s/%s" % (home[b], b), value(tracking, b, oids))
        if remote:
            write_ref(remotes[home[b]].gitdir, "refs/heads/" + b, value(remote, b, oids))
    commit = dict(BRANCH)
    if kind == "shared":
        # A and B at the same commit
        write_ref(w.gitdir, "refs/heads/B", oids["a"])
        w.plain("reset", "-q", "--hard")
        commit["B"] = "a"
        if STATES[states["B"]][2] == "=":
            write_ref(remotes["origin"].gitdir, "refs/heads/B", oids["a"])
    label = "%s %s submit %s %s %s" % (kind, " ".join("%s:%s" % x for x in states.items()), " ".join(OPTS[o]), sel, " ".join(case[3:]))
    out = None

    def bad(msg):
        ctx.violation(label + "|" + msg.split(":")[0], label + "\n" + msg + "\n" + repr(out), dict(u, only=case))
        shutil.rmtree(d)

    touched = None
    if kind == "race":
        touched = interference(d, remotes["origin"], oids, case[3], case[4])
        cfg += '[remote "origin"]\n\tuploadpack = %s/up\n\treceivepack = %s/recv\n' % (d, d)
    with open(os.path.join(w.gitdir, "config"), "a") as f:
        f.write(cfg)
    w.write("untracked", "precious\n")
    before = {n: x.refs() for n, x in remotes.items()}
    state0 = w.user_state(visible=False)
    if kind == "defaults":
        args = [sel] if sel else []
        selected = {"": {"A", "B"}, "all()": {"A", "B", "C"}, "draft()": {"A", "B", "C"}, "master": set(), "@": {"B"}}[sel]
    else:
        args = [oids[BRANCH[b]] for b in sel] or ["none()"]
        selected = set(sel)
        if kind == "shared" and "A" in selected:
            selected.add("B")
    out = w.gb("submit", *OPTS[o], *args)
    ctx.transition()
    ctx.evaluation()
    if out.timeout or out.panicked():
        return bad("submit crashed")
    local = lambda st: dict(st, refs={k: v for k, v in st["refs"].items() if not k.startswith("refs/remotes/")})
    after = w.user_state(visible=False)
    if local(after) != local(state0):
        return bad("local state changed: %s -> %s" % (local(state0), local(after)))
    shared = kind == "shared" and bool(selected & {"A", "B"})
    fetches = [b for b in selected if STATES[states[b]][0]]
    doomed = any(states[b] == "U<-" for b in fetches)
    fine = True
    for n, x in remotes.items():
        now = x.refs()
        for ref in set(now) | set(before[n]):
            b = ref[len("refs/heads/"):]
            old, new = before[n].get(ref), now.get(ref)
            if kind == "race" and b == "A" and touched is not None and os.path.exists(d + "/done"):
                old = touched[0]
            allowed = {old}
            if b == "theirs2":
                continue
            if b == "keep" and n == "origin" and sel in ("all()", "draft()") and "c" in o:
                allowed = {oids["x"]}
            if b in BRANCH and b in selected and n == home.get(b) and "n" not in o:
                mine = oids[commit[b]]
                s = states[b]
                if s.startswith("U"):
                    want = mine
                elif "c" not in o:
                    want = old
                else:
                    want = mine if s in ("N-", "N^") else old
                allowed = {want}
                if shared and b in "AB":
                    allowed = {old, mine} if want == mine else {old}
                elif out.rc != 0:
                    allowed.add(old)
                if kind == "race" and b == "A" and case[4] != "fetch" and old != before[n].get(ref) and os.path.exists(d + "/done"):
                    # somebody else got in between: their work stays
                    allowed = {old}
                    if (case[3] == "rewind" and s == "N-" or old is None) and "c" in o:
                        allowed.add(mine)
                elif kind == "race" and b == "A" and s == "N-" and old not in (None, mine, oids["m0"]):
                    allowed = {old}
            if new not in allowed:
                return bad("remote reference: %s/%s is %s, expected one of %s" % (n, b, name(new, oids), [name(v, oids) for v in allowed]))
            if new != old and new is not None:
                ctx.outcome("pushed")
    if out.rc != 0:
        # failures must have a reason
        reasons = doomed or ("c" in o and "n" not in o and any(states[b] == "N!" for b in selected)) or kind == "race"
        if not reasons:
            return bad("submit failed")
        ctx.outcome("refused")
    ctx.state([label])
    ctx.sample({"case": label, "rc": out.rc})
    shutil.rmtree(d)


def name(o, oids):
    return next((k for k, v in oids.items() if v == o), o)


def interference(d, remote, oids, kind, point):
    """Somebody else updates A on the remote at the given point: before refs are
    advertised to a fetch, before they are advertised to a push, or when the
    pushed commits have arrived.  Returns the value A then has."""
    new = {"other": oids["x"], "delete": None, "mine": oids["a"], "rewind": oids["m0"], "unrelated": "keep"}[kind]
    ref = "refs/heads/A"
    if new == "keep":
        do = "git --git-dir=%s update-ref refs/heads/theirs2 %s" % (remote.path, oids["ob"])
        # an unrelated branch: nothing to expect from A
        result = (remote.refs().get(ref),)
    else:
        do = "rm -f %s/%s" % (remote.path, ref) if new is None else "mkdir -p %s/refs/heads; echo %s > %s/%s" % (remote.path, new, remote.path, ref)
        result = (new,)
    once = "if test ! -e %s/done; then %s; : > %s/done; fi\n" % (d, do, d)
    scripts = {"up": "#!/bin/sh\n" + (once if point == "fetch" else "") + 'exec git-upload-pack "$@"\n',
               "recv": "#!/bin/sh\n" + (once if point == "push" else "") + 'exec git-receive-pack "$@"\n'}
    if point == "receive":
        scripts["origin.git/hooks/pre-receive"] = "#!/bin/sh\n" + once
    for n, text in scripts.items():
        p = os.path.join(d, n)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, "w") as f:
            f.write(text)
        os.chmod(p, 0o755)
    return result if kind != "unrelated" else None
