"""C27: a crash at any moment loses no work and can be recovered from.

Each operation is run once with every file modification made by
git-branchless, its hooks and the Git processes it starts reported before it
is carried out (shim/shim.c).  At each report the repository is exactly what a
process killed at that moment would leave behind; each state that differs
from those seen before is kept and examined: removal of stale lock files (as
Git advises), inspection, retry of the operation, `git undo`.
"""
import concurrent.futures
import hashlib
import os
import shutil
import sqlite3

from .. import core, shim
from ..repo import GIT, QueryFailed, Repo, blob_oid, build_repo

PROPERTY = "C27"
LEVEL = "model_checking"
TECHNIQUE = "exhaustive exploration of crash points: every file modification of the real processes (preloaded library) is a crash point; recovery, retry and undo executed from every distinct crash state"
ASSUMPTIONS = [
    "a crash kills the operation's processes together; the file system keeps what had been written (no power loss)",
    "stale *.lock files are removed by the user, as Git advises; an interrupted `git rebase` is aborted",
    "writes made through stdio are seen when the file is opened and closed, not in between",
    "crash states that differ only in unreferenced objects, lock files or temporary files are examined once",
]
BOUND = {
    "quick": "20 operations x every file modification",
    "thorough": "34 operations x every file modification",
}


def prepare():
    shim.build()


def F(*names, **kw):
    d = {n: n + "1\n" for n in names}
    d.update(kw)
    return d


# m0 - m1 (master);  m0 - a - b - c (branch x at b, y at c);  m1 - d
COMMITS = [
    ("m0", [], F("m"), 1),
    ("m1", ["m0"], F("m", "n"), 2),
    ("a", ["m0"], F("m", "a"), 3),
    ("b", ["a"], F("m", "a", "b"), 4),
    ("c", ["b"], F("m", "a", "b", "c"), 5),
    ("d", ["m1"], F("m", "n", "d"), 6),
]


def repo(path, head="refs/heads/x", dirty=(), staged=(), config=None, amended=False, hide=(), untracked=()):
    r, o = build_repo(path, COMMITS, "m1", drafts=["a", "b", "c", "d"], branches={"x": "b", "y": "c"},
                      head="refs/heads/master", config=config, hide=hide)
    r.ok("checkout", "-q", *([head[len("refs/heads/"):]] if head.startswith("refs/") else ["--detach", o[head]]), time=9)
    if amended:
        # `a` rewritten by plain Git, leaving b and c behind
        r.ok("checkout", "-q", "--detach", o["a"], time=10)
        r.write("a", "a2\n")
        r.ok("commit", "-q", "-a", "--amend", "-m", "a", time=11)
    for p in dirty:
        r.write(p, "changed %s\n" % p)
    for p in staged:
        r.write(p, "staged %s\n" % p)
        r.ok("add", p)
    for p in untracked:
        r.write(p, "new %s\n" % p)
    r.clock = 100
    return r, o


def op(name, *args, converges=True, tier="quick", env=None, pre=None, between=False, **kw):
    return dict(name=name, args=list(args), converges=converges, tier=tier, env=env, pre=pre, between=between, repo=kw)


OPS = [
    op("move stack, HEAD on its branch", "branchless", "move", "-s", "%a", "-d", "%d"),
    op("move stack, detached HEAD", "branchless", "move", "-s", "%a", "-d", "%d", head="c"),
    op("move stack, HEAD elsewhere", "branchless", "move", "-s", "%a", "-d", "%d", head="refs/heads/master", tier="thorough"),
    op("move stack, uncommitted changes", "branchless", "move", "-s", "%a", "-d", "%d", dirty=["m"], untracked=["u"]),
    op("move one commit", "branchless", "move", "-x", "%b", "-d", "%d", tier="thorough"),
    op("fixup", "branchless", "move", "--fixup", "-x", "%c", "-d", "%a", head="a", tier="thorough"),
    op("move on disk", "branchless", "move", "--on-disk", "-s", "%a", "-d", "%d"),
    op("sync", "branchless", "sync"),
    op("restack", "branchless", "restack", amended=True),
    op("reword root of stack", "branchless", "reword", "-m", "a again", "%a", converges=False),
    op("amend", "branchless", "amend", dirty=["a"], converges=False),
    op("amend staged", "branchless", "amend", staged=["b"], dirty=["a"], converges=False, tier="thorough"),
    op("record", "branchless", "record", "-m", "r", dirty=["a"], untracked=["u"], converges=False),
    op("record detached", "branchless", "record", "-d", "-m", "r", between=True, dirty=["a"], converges=False, tier="thorough"),
    op("record insert", "branchless", "record", "-I", "-m", "r", dirty=["a"], converges=False),
    op("record stash", "branchless", "record", "--stash", "-m", "r", between=True, dirty=["a"], converges=False),
    op("hide with branches", "branchless", "hide", "%b", "%c", head="a"),
    op("hide", "branchless", "hide", "-r", "--no-delete-branches", "%d", converges=True, tier="thorough"),
    op("unhide", "branchless", "unhide", "%d", hide=["d"], tier="thorough"),
    op("next", "branchless", "next", converges=False, head="a", tier="thorough"),
    op("switch", "branchless", "switch", "y"),
    op("switch with changes", "branchless", "switch", "y", dirty=["m"], untracked=["u"], tier="thorough"),
    op("switch with merge", "branchless", "switch", "-m", "y", dirty=["m"], tier="thorough"),
    op("undo move", "branchless", "undo", "-y", converges=False, pre=["branchless", "move", "-s", "%a", "-d", "%d"]),
    op("undo hide", "branchless", "undo", "-y", converges=False, head="a", pre=["branchless", "hide", "%b", "%c"]),
    op("undo amend", "branchless", "undo", "-y", converges=False, dirty=["a"], pre=["branchless", "amend"], tier="thorough"),
    op("gc", "branchless", "gc", hide=["d"]),
    op("init again", "branchless", "init", "--main-branch", "master", tier="thorough"),
    op("git commit", "commit", "-q", "-a", "-m", "r", dirty=["a"], converges=False),
    op("git commit --amend", "commit", "-q", "-a", "--amend", "-m", "b", dirty=["a"], converges=False, tier="thorough"),
    op("git checkout", "checkout", "-q", "y", tier="thorough"),
    op("git branch -D", "branch", "-D", "y", converges=False),
    op("test run", "branchless", "test", "run", "-x", "true", "stack()"),
    op("submit", "branchless", "submit", "--create", "x", pre="remote"),
]


def units(tier):
    res = [dict(op=i, name=o["name"]) for i, o in enumerate(OPS) if tier == "thorough" or o["tier"] == "quick"]
    # the longest first
    return sorted(res, key=lambda u: u["name"] not in ("test run", "move on disk", "init again"))


# ---------------------------------------------------------------------------

def subst(args, oids):
    return [GIT] + [oids[a[1:]] if a.startswith("%") else a for a in args]


def log_rows(gitdir, tmp):
    """What a reader would find in the event log's database."""
    os.makedirs(tmp)
    try:
        found = False
        for n in os.listdir(os.path.join(gitdir, "branchless")):
            if n.startswith("db.sqlite3"):
                shutil.copy(os.path.join(gitdir, "branchless", n), tmp)
                found = True
        if not found:
            return None
        try:
            db = sqlite3.connect(os.path.join(tmp, "db.sqlite3"))
            rows = [db.execute("select * from %s order by rowid" % t).fetchall() for t in ("event_log", "event_transactions")]
            db.close()
            return rows
        except sqlite3.Error as e:
            return "unreadable: %s" % e
    finally:
        shutil.rmtree(tmp)


class Snapshots:
    """Keeps each distinct crash state."""

    def __init__(self, r, ctx):
        self.r, self.ctx = r, ctx
        self.keys = {}
        self.db_sig = None
        self.db_key = None
        self.kept = []
        self.n = 0

    def key(self):
        h = hashlib.sha1()
        db = hashlib.sha1()
        for d, dirs, files in os.walk(self.r.path):
            dirs.sort()
            rel = os.path.relpath(d, self.r.path)
            if rel == ".git":
                dirs[:] = [x for x in dirs if x != "objects"]
            for n in sorted(files):
                p = os.path.join(d, n)
                if rel.startswith(".git") and (n.endswith(".lock") or n.startswith((".tmp", "tmp_"))):
                    continue
                try:
                    with open(p, "rb") as f:
                        data = f.read()
                except OSError:
                    continue
                t = db if n.startswith("db.sqlite3") else h
                t.update(b"%s\0%d\0" % (p.encode(), len(data)))
                t.update(data)
        if db.digest() != self.db_sig:
            self.db_sig = db.digest()
            self.db_key = repr(log_rows(self.r.gitdir, self.ctx.tmp("db")))
        h.update(self.db_key.encode())
        return h.digest()

    def at(self, req):
        self.n += 1
        k = self.key()
        if k in self.keys:
            return
        self.keys[k] = True
        dst = self.ctx.tmp("crash")
        self.r.copy(dst)
        self.kept.append((dst, "%d: before %s %s" % (self.n, req.op, os.path.relpath(req.path, self.r.path))))


def run_traced(r, args, env, snaps):
    c = shim.Controller("fs", r.path)
    try:
        c.start("A", args, r.path, r.clock, env)
        while True:
            for e in c.events(core.CMD_TIMEOUT):
                if isinstance(e, tuple):
                    return c.result("A")
                snaps.at(e)
                c.go(e)
    except TimeoutError:
        raise core.HarnessError("%s made no progress" % args)
    finally:
        c.close()


def unlock(r):
    """What Git asks the user to do after a crash."""
    for d, _, files in os.walk(r.gitdir):
        for n in files:
            if n.endswith(".lock"):
                os.unlink(os.path.join(d, n))
    if os.path.isdir(os.path.join(r.gitdir, "rebase-merge")):
        if r.git("rebase", "--abort").rc != 0:
            shutil.rmtree(os.path.join(r.gitdir, "rebase-merge"), ignore_errors=True)


class State:
    """What has to survive."""

    def __init__(self, r):
        refs = r.refs()
        self.refs = {k: v for k, v in refs.items() if k.startswith("refs/heads/")}
        self.head = r.head()
        self.head_oid = r.head_oid(refs)
        self.visible = r.query("all()")
        self.labels = {word(r, c) for c in self.visible}
        self.worktree = r.worktree()
        self.index = r.index()
        self.clean = r.git("status", "--porcelain", "-uno").out == ""
        self.objects = set(r.git("cat-file", "--batch-all-objects", "--batch-check=%(objectname)").out.split())

    def signature(self, r):
        return {
            "branches": {k: describe(r, v) for k, v in sorted(self.refs.items())},
            "HEAD": describe(r, self.head_oid),
            "visible": sorted({describe(r, c) for c in self.visible}),
            "worktree": sorted((k, v[0], v[1].decode("utf8", "replace")) for k, v in self.worktree.items()),
        }


def word(r, oid):
    return r.commit(oid).label.split(" ")[0]


def describe(r, oid):
    """A commit without its identity: message, contents, and those of its ancestors."""
    c = r.commit(oid)
    return "%s[%s](%s)" % (c.label, c.tree[:6], ",".join(describe(r, p) for p in c.parents))


def contents(r):
    """All blobs in commits the repository holds."""
    res = set()
    p = r.run([GIT, "cat-file", "--batch-all-objects", "--batch-check=%(objecttype) %(objectname)"])
    for line in p.out.splitlines():
        t, oid = line.split(" ", 1)
        if t == "commit":
            try:
                res.update(o for _, o in r.tree(r.commit(oid).tree).values())
            except core.HarnessError:
                pass
    return res


def inspect(r, old, new, what, bad, strict=True, between=False):
    """Conditions every state after a crash has to meet."""
    refs = r.refs()
    heads = {k: v for k, v in refs.items() if k.startswith("refs/heads/")}
    if strict:
        for name in sorted(set(old.refs) | set(new.refs) | set(heads)):
            allowed = {old.refs.get(name), new.refs.get(name)}
            oid = heads.get(name)
            if oid not in allowed:
                if between and oid and oid not in old.objects and word(r, oid) in new.labels | {"r"}:
                    continue  # at the commit just made, before it is moved back
                snapshot = oid and "working copy snapshot" in r.commit(oid).label
                bad("branch at working copy snapshot" if snapshot else "branch", "%s: %s is %s, neither its old nor its new commit (%s)" % (what, name, heads.get(name), allowed))
    for name, oid in heads.items():
        if r.commit(oid) is None:
            bad("branch", "%s: %s points at a missing commit %s" % (what, name, oid))
            return None
    head = r.head_oid(refs)
    if head is None or r.commit(head) is None:
        bad("head", "%s: HEAD does not name a commit: %s" % (what, r.head()))
        return None
    roots = sorted(set(old.visible) | set(old.refs.values()) | set(heads.values()) | {head})
    p = r.run([GIT, "rev-list", "--objects"] + roots)
    if p.rc != 0:
        bad("objects", "%s: a commit is no longer intact:\n%r" % (what, p))
        return None
    try:
        visible = r.query("all()")
    except QueryFailed as e:
        bad("log", "%s: query fails:\n%s" % (what, e))
        return None
    s = r.gb("smartlog")
    if s.rc != 0:
        bad("log", "%s: smartlog fails:\n%r" % (what, s))
        return None
    labels = {word(r, c) for c in visible}
    for c in old.visible:
        w = word(r, c)
        if w not in labels and w in new.labels:
            bad("visible", "%s: commit %s is not visible any more in any version:\n%s" % (what, w, s.out))
    # uncommitted work
    lost = []
    have = None
    wt = r.worktree()
    for path, (mode, data) in old.worktree.items():
        if wt.get(path) == (mode, data) or mode == "120000":
            continue
        if have is None:
            have = contents(r)
            have |= {v[1] for v in r.index().values()}
        if blob_oid(data) not in have:
            lost.append(path)
    for (path, st), (mode, oid) in old.index.items():
        if r.read(oid) is None:
            lost.append("staged " + path)
    if lost:
        bad("changes", "%s: uncommitted contents are gone: %s" % (what, lost))
    return visible


def run_unit(u, ctx):
    o = OPS[u["op"]]
    r, oids = repo(ctx.tmp("r"), **o["repo"])
    args = o["args"]
    if o["pre"] == "remote":
        rem = ctx.tmp("remote")
        r.ok("init", "-q", "--bare", rem)
        r.ok("remote", "add", "origin", rem)
        r.plain("push", "-q", "origin", "master")
        r.plain("branch", "-q", "-u", "origin/master", "master")
        r.ok("config", "remote.pushDefault", "origin")
    elif o["pre"]:
        p = r.run(subst(o["pre"], oids))
        if p.rc != 0:
            raise core.HarnessError("preparation failed: %r" % p)
        r.clock += 10
    old = State(r)
    snaps = Snapshots(r, ctx)
    res = run_traced(r, subst(args, oids), o["env"], snaps)
    if res.rc != 0:
        raise core.HarnessError("%s failed: %r" % (o["name"], res))
    new = State(r)
    final = new.signature(r)
    ctx.transition(snaps.n)
    ctx.outcome("crash points", snaps.n)
    ctx.outcome("distinct crash states", len(snaps.kept))
    kept = [k for k in snaps.kept if not u.get("only") or u["only"] == k[1]]
    with concurrent.futures.ThreadPoolExecutor(4) as pool:
        for (dst, where), (problems, settled) in zip(kept, pool.map(
                lambda k: examine(o, r.clock, oids, old, new, final, k[0]), kept)):
            ctx.state(dst)
            ctx.evaluation()
            ctx.outcome("working copy as before or after" if settled else "killed while Git was checking out")
            for kind, msg in problems:
                ctx.violation("%s: %s" % (o["name"], kind), "%s killed at %s\n%s" % (o["name"], where, msg), dict(u, only=where))
    r.remove()


def examine(o, clock, oids, old, new, final, path):
    """Recover, inspect, undo, try again."""
    problems = []
    s = Repo(path)
    s.clock = clock

    def bad(kind, msg):
        problems.append((kind, msg))

    unlock(s)
    copy = (s.worktree(), s.index())
    settled = copy in ((old.worktree, old.index), (new.worktree, new.index))
    if copy == (old.worktree, old.index) and not o["repo"].get("dirty") and not o["repo"].get("staged"):
        head = s.commit(s.head_oid())
        if head and old.clean and head.tree != s.commit(old.head_oid).tree:
            bad("changes out of nowhere", "HEAD was moved to a commit with other contents, so that the working copy looks changed: %r" % s.git("status", "-sb"))
    if inspect(s, old, new, "after the crash", bad, True, o["between"]) is not None:
        w = s.copy(path + "-undo")
        w.clock += 50
        res = w.gb("undo", "-y")
        if res.rc != 0 and not (res.rc == 1 and "would be overwritten by" in res.all):
            bad("undo", "undo fails:\n%r" % res)
        inspect(w, old, new, "after undo", bad, False)
        w.remove()
        s.clock += 50 if not o["converges"] else 0
        res = s.run(subst(o["args"], oids), env=o["env"])
        inspect(s, old, new, "after trying again", bad, False)
        if o["converges"] and settled:
            got = State(s).signature(s)
            if got != final:
                diff = ["%s: %s instead of %s" % (k, got[k], final[k]) for k in final if got[k] != final[k]]
                bad("retry", "trying again gives another result:\n%s\n%r" % ("\n".join(diff), res))
    s.remove()
    return problems, settled
