"""C28: initialisation preserves the user's hooks and settings and is idempotent."""
import itertools
import json
import os
import subprocess

from .. import core
from ..repo import Repo, GIT, base_env, fast_import, set_head

PROPERTY = "C28"
LEVEL = "exploration"
TECHNIQUE = ("exhaustive enumeration of hook files, hook locations, settings, directories and install/uninstall sequences with the real binary; every hook is then executed, "
             "and its effects, the user's lines and the effective settings are compared with those before")
RULE = "distinct (hook file, sequence of installs and uninstalls, location) after which the hook does exactly what it must"
BOUND = {
    "quick": "all hook files of up to 3 lines over 9 kinds of lines (no 3 of them unusual) (with and without final newline, with and without an earlier section) x all 14 sequences of up to 3 installs/uninstalls; "
             "7 hook types; 6 hook locations x 3 directories x worktrees; 10 settings",
    "thorough": "hook files of up to 4 lines, sequences of up to 4",
}
ASSUMPTIONS = ["the user's hooks are POSIX shell scripts in regular, executable, distinct files that do not exit before their last line and have no unterminated or repeated section"]

HOOKS = ["post-applypatch", "post-checkout", "post-commit", "post-merge", "post-rewrite", "pre-auto-gc", "reference-transaction"]
START, END = "## START BRANCHLESS CONFIG", "## END BRANCHLESS CONFIG"
OLD = [START, "", "git branchless-old-thing \"$@\"", "", END]
LINES = {
    "A": "echo A \"$@\" >> \"$LOG\"",
    "B": "  echo B >> \"$LOG\"",
    "e": "",
    "c": "# branchless is great",
    "s": "# ## START BRANCHLESS CONFIG",
    "t": " ## END BRANCHLESS CONFIG",
    "p": "## START BRANCHLESS CONFIG of my own",
    "h": "cat <<X >> \"$LOG\"\nhere $1\nX",
    "O": None,  # a section written by an earlier version
}


def sequences(n):
    return ["".join(s) for k in range(1, n + 1) for s in itertools.product("IU", repeat=k)]


def units(tier):
    n = 4 if tier == "thorough" else 3
    texts = [None, ""]
    for k in range(1, n + 1):
        for t in itertools.product(LINES, repeat=k):
            if t.count("O") <= 1 and (k < 3 or sum(x in "cstp" for x in t) < 3):
                texts += ["".join(t)]
    # "!" drops the final newline; "#" starts with a shebang
    forms = []
    for i, t in enumerate(texts):
        forms.append(t if t is None else "#" + t)
        if t and len(t) < 3:
            forms += [t, "#" + t + "!"]
    batches = [forms[i:i + 7] for i in range(0, len(forms), 7)]
    seqs = sequences(4 if tier == "thorough" else 3)
    for i in range(0, len(batches), 4):
        yield {"kind": "text", "batches": batches[i:i + 4], "seqs": ["I", "II", "IU", "IUI", "U"]}
    for s in [x for x in seqs if x not in ("I", "II", "IU", "IUI", "U")]:
        yield {"kind": "text", "batches": [[None, "#A", "#Ac!", "#AOB", "#O", "AB", "#hst"], ["#AB", "O", "", "#", "#eA", "#OA", "A!"]], "seqs": [s]}
    for loc in ("default", "absolute", "relative", "relative-up", "home", "multi"):
        for cwd in ("", "sub/dir", "linked"):
            for seq in ("I", "II", "IU", "IUI"):
                yield {"kind": "place", "loc": loc, "cwd": cwd, "seq": seq}
    for s in SETTINGS:
        yield {"kind": "settings", "name": s}
    yield {"kind": "born"}


def text_of(form):
    if form is None:
        return None
    out = []
    final = not form.endswith("!")
    for ch in form.rstrip("!"):
        if ch == "#":
            out.append("#!/bin/sh")
        elif ch == "O":
            out += OLD
        else:
            out += LINES[ch].split("\n")
    t = "\n".join(out)
    return t + "\n" if final and t else t


def user_lines(text):
    """The lines outside the marked section, and the position and number of sections."""
    keep, at, n, inside = [], None, 0, False
    for l in text.split("\n"):
        if l == START and not inside:
            inside, at, n = True, len(keep), n + 1
        elif l == END and inside:
            inside = False
        elif not inside:
            keep.append(l)
    while keep and keep[-1] == "":
        keep.pop()
    return keep, at, n


def execute(path, args, stub, log):
    if os.path.exists(log):
        os.unlink(log)
    env = base_env()
    env["PATH"] = stub + ":" + env["PATH"]
    env["LOG"] = log
    p = subprocess.run([path] + args if open(path).read().startswith("#!") else ["/bin/sh", path] + args, cwd=os.path.dirname(log), env=env,
                       stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    lines = open(log).read().splitlines() if os.path.exists(log) else []
    return p.returncode, lines


def make_stub(d):
    stub = os.path.join(d, "stub")
    os.makedirs(stub)
    p = os.path.join(stub, "git")
    with open(p, "w") as f:
        f.write("#!/bin/sh\necho \"git $*\" >> \"$LOG\"\n")
    os.chmod(p, 0o755)
    return stub


def fresh(ctx, born=True):
    d = ctx.tmp()
    os.makedirs(d)
    r = Repo(os.path.join(d, "r"))
    os.makedirs(r.path)
    r.ok("init", "-q", "-b", "master", ".")
    subprocess.run(["rm", "-rf", r.gitdir + "/hooks"], check=True)
    r.ok("config", "user.name", "Testy")
    r.ok("config", "user.email", "test@example.com")
    if born:
        oids = fast_import(r, [("m0", [], {"f": "0", "sub/dir/f": "x"}, 0), ("a", ["m0"], {"f": "a", "sub/dir/f": "x"}, 1)])
        for n, o in (("master", "m0"), ("topic", "a")):
            r.plain("update-ref", "refs/heads/" + n, oids[o])
        set_head(r, ("ref", "refs/heads/topic"))
        r.plain("reset", "-q", "--hard")
    return d, r, make_stub(d)


def run_unit(u, ctx):
    {"text": text, "place": place, "settings": settings, "born": born}[u["kind"]](u, ctx)


def run_op(r, op, cwd=None):
    return r.gb("init", *(["--uninstall"] if op == "U" else []), cwd=cwd)


def calls(hook, args):
    return "git branchless hook %s %s" % (hook, " ".join(args))


def judge(path, before, seq, hook, stub, log):
    """Compare the hook with what it was before; returns an error or None."""
    if not os.path.exists(path):
        return "no hook file"
    if not os.access(path, os.X_OK) or not os.stat(path).st_mode & 0o100:
        return "not executable"
    after = open(path).read()
    keep, at, n = user_lines(after)
    keep0, at0, n0 = user_lines(before) if before is not None else (["#!/bin/sh"], None, 0)
    if keep != keep0:
        return "the user's lines are now %r, were %r" % (keep, keep0)
    if n != 1:
        return "%d sections" % n
    if at0 is not None and at != at0:
        return "the section is at line %s of the user's, was at %s" % (at, at0)
    args = ["x1", "y2"]
    want = execute_user(before, args, stub, log)
    rc, got = execute(path, args, stub, log)
    mine = [l for l in got if l.startswith("git ")]
    if [l for l in got if not l.startswith("git ")] != want:
        return "the user's part does %s, did %s" % (got, want)
    if mine != ([calls(hook, args)] if seq[-1] == "I" else []):
        return "the section calls %s" % mine
    if rc != 0:
        return "exit status %d" % rc
    return None


def execute_user(before, args, stub, log):
    if before is None:
        return []
    keep, _, _ = user_lines(before)
    p = log + ".user"
    with open(p, "w") as f:
        f.write("\n".join(keep) + "\n")
    os.chmod(p, 0o755)
    return execute(p, args, stub, log)[1]


def text(u, ctx):
    for batch in u["batches"]:
        for seq in u["seqs"]:
            if "only" in u and u["only"] != [batch, seq]:
                continue
            d, r, stub = fresh(ctx)
            texts, modes = {}, {}
            for i, (h, form) in enumerate(zip(HOOKS, batch)):
                texts[h] = text_of(form)
                if texts[h] is not None:
                    r.write(".git/hooks/" + h, texts[h], "100755")
                    modes[h] = (0o755, 0o775, 0o700, 0o744)[i % 4]
                    os.chmod(os.path.join(r.gitdir, "hooks", h), modes[h])
            r.write(".git/hooks/pre-push", "#!/bin/sh\nmine\n", "100755")
            state, cfg = r.user_state(visible=False), r.git("config", "--list").out
            err = None
            for op in seq:
                out = run_op(r, op)
                ctx.transition()
                if out.rc != 0 or out.panicked():
                    err = "init failed: %r" % out
            for h, form in zip(HOOKS, batch):
                e = err or judge(os.path.join(r.gitdir, "hooks", h), texts[h], seq, h, stub, os.path.join(d, "log"))
                mode = os.stat(os.path.join(r.gitdir, "hooks", h)).st_mode & 0o777 if not e else 0
                if not e and modes.get(h, 0) & ~mode:
                    e = "permissions were %o, are %o" % (modes[h], mode)
                ctx.evaluation()
                ctx.state([form, seq])
                if e:
                    label = "hook %s %s" % (json.dumps(form), seq)
                    ctx.violation(label + "|" + e.split(" ")[0], "%s (%s): %s\nbefore: %r\nafter: %r" % (
                        label, h, e, texts[h], open(os.path.join(r.gitdir, "hooks", h)).read()), dict(u, only=[batch, seq]))
                ctx.outcome("installed" if seq[-1] == "I" else "uninstalled")
            if open(os.path.join(r.gitdir, "hooks", "pre-push")).read() != "#!/bin/sh\nmine\n" or r.user_state(visible=False) != state:
                ctx.violation("state %s" % seq, "repository or another hook changed by %s" % seq, dict(u, only=[batch, seq]))
            if seq[-1] == "U" and norm(r.git("config", "--list").out) != norm(cfg):
                ctx.violation("settings %s" % seq, "settings after %s:\n%s\nbefore:\n%s" % (seq, r.git("config", "--list").out, cfg), dict(u, only=[batch, seq]))
            subprocess.run(["rm", "-rf", d], check=True)


def norm(cfg):
    return cfg.strip().split("\n")


def place(u, ctx):
    """The hooks that Git runs are the ones that were installed, wherever init was called."""
    d, r, stub = fresh(ctx)
    loc, seq = u["loc"], u["seq"]
    label = "hooks %s, init in %r, %s" % (loc, u["cwd"], seq)
    where = {"default": r.gitdir + "/hooks", "absolute": d + "/ext hooks", "relative": r.path + "/.githooks",
             "relative-up": d + "/shared", "home": base_env()["HOME"] + "/gbmc-hooks-" + u["cwd"][:1] + u["seq"], "multi": r.gitdir + "/hooks_multi"}[loc]
    setting = {"absolute": where, "relative": ".githooks", "relative-up": "../shared", "home": "~/gbmc-hooks-" + u["cwd"][:1] + u["seq"]}.get(loc)
    mine = "#!/bin/sh\necho user >> \"$LOG\"\n"
    if loc == "multi":
        # the dispatcher that such repositories use
        for h in HOOKS:
            r.write(".git/hooks/" + h, "#!/bin/sh\nfor f in \"$(dirname \"$0\")\"/../hooks_multi/$(basename \"$0\").d/*; do \"$f\" \"$@\" || exit 1; done\n", "100755")
        os.makedirs(where + "/post-commit.d")
        with open(where + "/post-commit.d/50_user", "w") as f:
            f.write(mine)
        os.chmod(where + "/post-commit.d/50_user", 0o755)
    else:
        os.makedirs(where)
        with open(where + "/post-commit", "w") as f:
            f.write(mine)
        os.chmod(where + "/post-commit", 0o755)
    if setting:
        r.ok("config", "core.hooksPath", setting)
    cwd = os.path.join(r.path, u["cwd"])
    if u["cwd"] == "linked":
        cwd = d + "/linked"
        r.plain("worktree", "add", "-q", "--detach", cwd, "master")
    cfg = r.git("config", "--list").out
    log = d + "/log"
    err = out = None

    def bad(msg):
        ctx.violation(label + "|" + msg.split(":")[0], label + "\n" + msg + "\n" + repr(out), u)
        subprocess.run(["rm", "-rf", d], check=True)
        if loc == "home":
            subprocess.run(["rm", "-rf", where], check=True)

    for op in seq:
        out = run_op(r, op, cwd=cwd)
        ctx.transition()
        ctx.evaluation()
        if out.rc != 0 or out.panicked():
            return bad("init failed")
    # commit with the real git, in the main worktree and in a subdirectory
    for sub in ("", "sub/dir"):
        if os.path.exists(log):
            os.unlink(log)
        tip = r.head_oid()
        out = r.git("commit", "-q", "--allow-empty", "-m", "new" + sub, cwd=os.path.join(r.path, sub), env={"LOG": log})
        ctx.transition()
        lines = open(log).read().splitlines() if os.path.exists(log) else []
        if out.rc != 0 or lines != ["user"]:
            return bad("the user's hook: ran %s" % lines)
        seen = "processed commit" in out.all
        if seen != (seq[-1] == "I"):
            return bad("git commit: the new commit was%s noticed" % ("" if seen else " not"))
        if seq[-1] == "I":
            # an in-memory rewrite from the same directory invokes the hooks as well
            new = r.head_oid()
            out = r.gb("reword", "-m", "reworded" + sub, "HEAD", cwd=os.path.join(r.path, sub), env={"LOG": log})
            ctx.transition()
            if out.rc != 0 or r.head() != ("ref", "refs/heads/topic") or r.commit(r.head_oid()).label != "reworded" + sub:
                return bad("reword failed")
            if set(r.query("all()")) & {new}:
                return bad("rewrite: the old version is still visible")
            out = r.gb("undo", "-y", cwd=os.path.join(r.path, sub), env={"LOG": log})
            if out.rc != 0 or r.refs()["refs/heads/topic"] != new:
                return bad("undo: the branch is not back")
            r.plain("checkout", "-q", "topic")
    now = r.git("config", "--list").out
    if seq[-1] == "U" and norm(now) != norm(cfg):
        return bad("settings: %s, were %s" % (now, cfg))
    ctx.state([label])
    ctx.outcome("hooks work where Git looks for them")
    subprocess.run(["rm", "-rf", d], check=True)
    if loc == "home":
        subprocess.run(["rm", "-rf", where], check=True)


SETTINGS = {
    "none": [],
    "alias": [("alias.sl", "log --oneline"), ("alias.amend", "commit --amend"), ("alias.mine", "status")],
    "detached": [("advice.detachedHead", "true")],
    "include": [("include.path", "other.cfg")],
    "two includes": [("include.path", "a.cfg"), ("include.path", "nobranchless/b.cfg")],
    "main branch": [("branchless.core.mainBranch", "topic")],
    "decoration": [("log.excludeDecoration", "refs/x/*"), ("log.excludeDecoration", "refs/y/*")],
    "own": [("branchless.restack.preserveTimestamps", "true"), ("branchless.next.interactive", "true")],
    "default branch": [("init.defaultBranch", "topic")],
    "include last": [("include.path", "zz.cfg"), ("core.editor", "true")],
}


def settings(u, ctx):
    for seq in sequences(3):
        d, r, stub = fresh(ctx)
        for n, v in SETTINGS[u["name"]]:
            r.ok("config", "--add", n, v)
        for n in ("other.cfg", "a.cfg", "zz.cfg", "nobranchless/b.cfg"):
            r.write(".git/" + n, "[fromfile]\n\t%s = 1\n" % n[0])
        state, cfg = r.user_state(visible=False), r.git("config", "--list").out
        label = "settings %s %s" % (u["name"], seq)
        for op in seq:
            out = run_op(r, op)
            ctx.transition()
            if out.rc != 0 or out.panicked():
                ctx.violation(label + "|failed", label + "\n" + repr(out), u)
        ctx.evaluation()
        now = r.git("config", "--list").out
        if seq[-1] == "U" and norm(now) != norm(cfg):
            ctx.violation(label + "|settings", "%s: now\n%s\nwere\n%s" % (label, now, cfg), u)
        if seq[-1] == "I":
            missing = [l for l in norm(cfg) if l not in norm(now)]
            incl = [l for l in norm(now) if l.startswith("include.path=branchless/")]
            sl = r.git("sl")
            main = "topic" if u["name"] in ("default branch",) else "master"
            if missing or len(incl) != 1 or sl.rc != 0:
                ctx.violation(label + "|installed", "%s: lost %s, %d includes, sl: %r" % (label, missing, len(incl), sl), u)
            own = r.git("config", "-f", r.gitdir + "/branchless/config", "branchless.core.mainBranch").out.strip()
            if own != main:
                ctx.violation(label + "|main", "%s: main branch %s" % (label, own), u)
        if r.user_state(visible=False) != state:
            ctx.violation(label + "|state", label + ": the repository changed", u)
        ctx.state([label])
        subprocess.run(["rm", "-rf", d], check=True)


def born(u, ctx):
    """Repositories without a commit, bare ones, and every main branch name."""
    d, r, stub = fresh(ctx, born=False)
    out = r.gb("init", "--main-branch", "master")
    r.write("f", "x")
    r.ok("add", "f")
    ok = r.git("commit", "-q", "-m", "first")
    ctx.transition(2)
    ctx.evaluation()
    if out.rc != 0 or ok.rc != 0 or "processed commit" not in ok.all or len(r.query("all()")) != 1:
        ctx.violation("unborn", "unborn repository: %r %r" % (out, ok), u)
    subprocess.run(["rm", "-rf", d], check=True)
    for name in ("master", "main", "mainline", "devel", "develop", "development", "trunk"):
        d, r, stub = fresh(ctx)
        r.plain("branch", "-m", "master", name)
        out = run_op(r, "I")
        ctx.transition()
        ctx.evaluation()
        got = r.git("config", "branchless.core.mainBranch").out.strip()
        if out.rc != 0 or got != name:
            ctx.violation("main branch " + name, "main branch %s detected as %s: %r" % (name, got, out), u)
        out = r.gb("init", "--main-branch", "topic")
        ctx.transition()
        got = r.git("config", "--get-all", "branchless.core.mainBranch").out.strip()
        if out.rc != 0 or got != "topic":
            ctx.violation("main branch option " + name, "main branch topic, got %s: %r" % (got, out), u)
        ctx.state(["main", name])
        subprocess.run(["rm", "-rf", d], check=True)
