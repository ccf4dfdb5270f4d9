"""Driving and observing a scratch repository.

Everything here talks to the real `git` and the real `git-branchless` binary
built from /repo's working tree.  Observation is done through git plumbing and
`git branchless query`, i.e. at the level the user sees.
"""
import hashlib
import os
import shutil
import stat
import subprocess
import zlib

from . import core

GIT = "/usr/bin/git"
BASE_TIME = 1600000000


def base_env(time=0, extra=None):
    date = "%d +0000" % (BASE_TIME + time)
    env = {
        "PATH": core.BIN + ":/usr/local/bin:/usr/bin:/bin",
        "HOME": os.path.join(core.scratch_root(), "home"),
        "GIT_CONFIG_NOSYSTEM": "1",
        "GIT_AUTHOR_DATE": date,
        "GIT_COMMITTER_DATE": date,
        "GIT_EDITOR": ":",
        "GIT_TERMINAL_PROMPT": "0",
        "LC_ALL": "C",
        "TZ": "UTC",
        "RUST_BACKTRACE": "0",
        "RAYON_NUM_THREADS": "2",
        "TERM": "dumb",
    }
    if extra:
        env.update(extra)
    return env


class Out:
    __slots__ = ("rc", "out", "err", "args", "timeout")

    def __init__(self, args, rc, out, err, timeout=False):
        self.args, self.rc, self.out, self.err, self.timeout = args, rc, out, err, timeout

    @property
    def all(self):
        return self.out + self.err

    def panicked(self):
        return "panicked at" in self.err or "The application panicked" in self.all or \
            (self.rc is not None and self.rc < 0)

    def __repr__(self):
        return "$ %s\n-> %s\n%s%s" % (" ".join(self.args), self.rc, self.out[-1500:], self.err[-2500:])


class ObjCache:
    """Content-addressed cache of parsed objects (shared by all repositories a
    worker process visits; object ids determine contents)."""

    def __init__(self):
        self.commits = {}
        self.trees = {}
        self.blobs = {}


CACHE = ObjCache()


class Commit:
    __slots__ = ("oid", "tree", "parents", "author", "committer", "message", "raw")

    def __init__(self, oid, data):
        self.oid = oid
        self.raw = data
        head, _, msg = data.partition(b"\n\n")
        self.parents = []
        self.tree = self.author = self.committer = None
        for line in head.split(b"\n"):
            k, _, v = line.partition(b" ")
            if k == b"parent":
                self.parents.append(v.decode())
            elif k == b"tree":
                self.tree = v.decode()
            elif k == b"author":
                self.author = v.decode("utf8", "replace")
            elif k == b"committer":
                self.committer = v.decode("utf8", "replace")
        self.message = msg.decode("utf8", "replace")

    @property
    def label(self):
        return self.message.split("\n", 1)[0].strip()


class Repo:
    def __init__(self, path):
        self.path = path
        self.gitdir = os.path.join(path, ".git")
        self.clock = 100

    # -- running -----------------------------------------------------------
    def run(self, args, time=None, env=None, input=None, timeout=None, cwd=None):
        if time is None:
            time = self.clock
        try:
            p = subprocess.run(args, cwd=cwd or self.path, env=base_env(time, env),
                               input=input if input is None or isinstance(input, bytes) else input.encode(),
                               stdin=subprocess.DEVNULL if input is None else None,
                               stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                               timeout=timeout or core.CMD_TIMEOUT)
        except subprocess.TimeoutExpired:
            return Out(args, None, "", "TIMEOUT", True)
        return Out(args, p.returncode, p.stdout.decode("utf8", "replace"), p.stderr.decode("utf8", "replace"))

    def git(self, *args, **kw):
        return self.run([GIT] + list(args), **kw)

    def gb(self, *args, **kw):
        return self.run([GIT, "branchless"] + list(args), **kw)

    def ok(self, *args, **kw):
        r = self.git(*args, **kw)
        if r.rc != 0:
            raise core.HarnessError("setup command failed: %r" % r)
        return r.out

    def plain(self, *args, **kw):
        """git without any hooks."""
        return self.ok("-c", "core.hooksPath=/dev/null", *args, **kw)

    def copy(self, dst):
        subprocess.run(["cp", "-a", self.path, dst], check=True)
        r = Repo(dst)
        r.clock = self.clock
        return r

    def remove(self):
        shutil.rmtree(self.path, ignore_errors=True)

    # -- objects -----------------------------------------------------------
    def _batch(self, oids):
        """Read objects through one `git cat-file --batch`."""
        oids = list(oids)
        if not oids:
            return {}
        p = subprocess.run([GIT, "cat-file", "--batch"], cwd=self.path, env=base_env(),
                           input=("\n".join(oids) + "\n").encode(), stdout=subprocess.PIPE,
                           stderr=subprocess.PIPE)
        data, pos, res = p.stdout, 0, {}
        for oid in oids:
            nl = data.index(b"\n", pos)
            hdr = data[pos:nl].split(b" ")
            pos = nl + 1
            if hdr[-1] == b"missing":
                res[oid] = None
                continue
            n = int(hdr[2])
            res[oid] = (hdr[1].decode(), data[pos:pos + n])
            pos += n + 1
        return res

    def _loose(self, oid):
        try:
            with open(os.path.join(self.gitdir, "objects", oid[:2], oid[2:]), "rb") as f:
                raw = zlib.decompress(f.read())
        except OSError:
            return None
        head, _, body = raw.partition(b"\0")
        return head.split(b" ")[0].decode(), body

    def read(self, oid):
        r = self._loose(oid)
        if r is None:
            r = self._batch([oid])[oid]
        return r

    def commit(self, oid):
        c = CACHE.commits.get(oid)
        if c is None:
            r = self.read(oid)
            if r is None:
                return None
            if r[0] == "tag":
                return self.commit(r[1].split(b"\n")[0].split(b" ")[1].decode())
            if r[0] != "commit":
                return None
            c = CACHE.commits[oid] = Commit(oid, r[1])
        return c

    def tree(self, oid):
        """Flat {path: (mode, blob oid)} of a tree object."""
        t = CACHE.trees.get(oid)
        if t is None:
            t = {}
            r = self.read(oid)
            if r is None or r[0] != "tree":
                if oid == "4b825dc642cb6eb9a060e54bf8d69288fbee4904":
                    return {}
                raise core.HarnessError("tree %s missing" % oid)
            data, pos = r[1], 0
            while pos < len(data):
                nul = data.index(b"\0", pos)
                mode, name = data[pos:nul].split(b" ", 1)
                sub = data[nul + 1:nul + 21].hex()
                pos = nul + 21
                mode = mode.decode()
                name = name.decode("utf8", "surrogateescape")
                if mode in ("40000", "040000"):
                    for k, v in self.tree(sub).items():
                        t[name + "/" + k] = v
                else:
                    t[name] = (mode, sub)
            CACHE.trees[oid] = t
        return t

    def blob(self, oid):
        b = CACHE.blobs.get(oid)
        if b is None:
            r = self.read(oid)
            if r is None:
                return None
            b = CACHE.blobs[oid] = r[1]
        return b

    def files(self, commit_oid):
        """{path: (mode, contents)} of a commit."""
        c = self.commit(commit_oid)
        return {p: (m, self.blob(o)) for p, (m, o) in self.tree(c.tree).items()}

    # -- observation -------------------------------------------------------
    def head(self):
        with open(os.path.join(self.gitdir, "HEAD")) as f:
            s = f.read().strip()
        if s.startswith("ref: "):
            return ("ref", s[5:])
        return ("oid", s)

    def refs(self, prefix=None):
        args = [GIT, "for-each-ref", "--format=%(objectname) %(refname)"]
        if prefix:
            args.append(prefix)
        p = self.run(args)
        if p.rc != 0:
            raise core.HarnessError("for-each-ref failed: %r" % p)
        res = {}
        for line in p.out.splitlines():
            oid, name = line.split(" ", 1)
            res[name] = oid
        return res

    def user_refs(self):
        return {k: v for k, v in self.refs().items() if not k.startswith("refs/branchless/")}

    def head_oid(self, refs=None):
        h = self.head()
        if h[0] == "oid":
            return h[1]
        refs = refs if refs is not None else self.refs()
        return refs.get(h[1])

    def query(self, revset, hidden=False):
        args = ["query", "-r", revset] + (["--hidden"] if hidden else [])
        r = self.gb(*args)
        if r.rc != 0:
            raise QueryFailed(r)
        return r.out.split()

    def index(self):
        r = self.run([GIT, "ls-files", "-s", "-z"])
        if r.rc != 0:
            raise core.HarnessError("ls-files failed: %r" % r)
        res = {}
        for ent in r.out.split("\0"):
            if not ent:
                continue
            meta, path = ent.split("\t", 1)
            mode, oid, st = meta.split(" ")
            res[(path, int(st))] = (mode, oid)
        return res

    def worktree(self):
        """{path: (kind, contents)} of everything on disk except .git"""
        res = {}
        for d, dirs, files in os.walk(self.path):
            if d == self.path and ".git" in dirs:
                dirs.remove(".git")
            for n in list(dirs):
                p = os.path.join(d, n)
                if os.path.islink(p):
                    dirs.remove(n)
                    files.append(n)
            for n in files:
                p = os.path.join(d, n)
                rel = os.path.relpath(p, self.path)
                if d == self.path and n == ".git":
                    continue
                st = os.lstat(p)
                if stat.S_ISLNK(st.st_mode):
                    res[rel] = ("120000", os.readlink(p).encode())
                else:
                    with open(p, "rb") as f:
                        res[rel] = ("100755" if st.st_mode & 0o100 else "100644", f.read())
        return res

    def write(self, path, content, mode="100644"):
        p = os.path.join(self.path, path)
        if os.path.islink(p) or os.path.isfile(p):
            os.unlink(p)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        if mode == "120000":
            os.symlink(content, p)
            return
        with open(p, "wb") as f:
            f.write(content if isinstance(content, bytes) else content.encode())
        os.chmod(p, 0o755 if mode == "100755" else 0o644)

    def delete(self, path):
        p = os.path.join(self.path, path)
        if os.path.islink(p) or os.path.exists(p):
            if os.path.isdir(p) and not os.path.islink(p):
                shutil.rmtree(p)
            else:
                os.unlink(p)
        d = os.path.dirname(p)
        while d != self.path and os.path.isdir(d) and not os.listdir(d):
            os.rmdir(d)
            d = os.path.dirname(d)

    def in_progress(self):
        return [n for n in ("rebase-merge", "rebase-apply", "MERGE_HEAD", "CHERRY_PICK_HEAD", "BISECT_LOG",
                            "REVERT_HEAD", "index.lock")
                if os.path.exists(os.path.join(self.gitdir, n))]

    def user_state(self, visible=True):
        """Everything a user would call the state of the repository."""
        refs = self.refs()
        st = {
            "head": self.head(),
            "refs": {k: v for k, v in refs.items() if not k.startswith("refs/branchless/")},
            "index": sorted((k[0], k[1], v) for k, v in self.index().items()),
            "worktree": sorted((k, v[0], hashlib.sha1(v[1]).hexdigest()) for k, v in self.worktree().items()),
            "in_progress": self.in_progress(),
        }
        if visible:
            st["visible"] = sorted(self.query("all()"))
        return st


class QueryFailed(Exception):
    def __init__(self, out):
        super().__init__(repr(out))
        self.out = out


def blob_oid(content):
    if isinstance(content, str):
        content = content.encode()
    return hashlib.sha1(b"blob %d\0" % len(content) + content).hexdigest()


# --------------------------------------------------------------------------
# templates

def init_repo(path, config=None, init_branchless=True, main="master"):
    os.makedirs(path)
    r = Repo(path)
    r.ok("init", "-q", "-b", main, ".")
    shutil.rmtree(os.path.join(r.gitdir, "hooks"), ignore_errors=True)
    for f in ("description",):
        try:
            os.unlink(os.path.join(r.gitdir, f))
        except OSError:
            pass
    cfg = os.path.join(r.gitdir, "config")
    with open(cfg, "a") as f:
        f.write("[user]\n\tname = Testy\n\temail = test@example.com\n[gc]\n\tauto = 0\n"
                "[advice]\n\tdetachedHead = false\n[core]\n\tabbrev = 12\n"
                "[branchless \"restack\"]\n\tpreserveTimestamps = true\n"
                "\twarnAbandoned = true\n"
                "[branchless \"commitDescriptors\"]\n\trelativeTime = false\n")
    for k, v in (config or {}).items():
        r.ok("config", k, v)
    if init_branchless:
        res = r.gb("init", "--main-branch", main)
        if res.rc != 0:
            raise core.HarnessError("init failed: %r" % res)
    return r


class Spec:
    """Description of a repository: commits in topological order.

    commits: list of dicts label, parents, files (full map path -> content or
    (mode, content)), author, time.
    """


def fast_import(r, commits, ident="A U Thor <author@example.com>"):
    """commits: list of (label, parents(labels), files {path: content|(mode, content)}, time[, message[, author time[, author]]]).
    Returns {label: oid}. Nothing but objects is created."""
    out = []
    mark = {}
    for n, c in enumerate(commits):
        label, parents, files, t = c[:4]
        msg = (c[4] if len(c) > 4 else label + "\n").encode()
        mark[label] = n + 1
        out.append(b"commit refs/gbmc/tmp\nmark :%d\n" % (n + 1))
        at = c[5] if len(c) > 5 else t
        out.append(("author %s %d +0000\n" % (c[6] if len(c) > 6 else ident, BASE_TIME + at)).encode())
        out.append(("committer C O Mitter <committer@example.com> %d +0000\n" % (BASE_TIME + t)).encode())
        out.append(b"data %d\n%s\n" % (len(msg), msg))
        if parents:
            out.append(b"from :%d\n" % mark[parents[0]])
            for p in parents[1:]:
                out.append(b"merge :%d\n" % mark[p])
        out.append(b"deleteall\n")
        for path, content in sorted(files.items()):
            mode = "100644"
            if isinstance(content, tuple):
                mode, content = content
            if isinstance(content, str):
                content = content.encode()
            out.append(b"M %s inline %s\n" % (mode.encode(), path.encode()))
            out.append(b"data %d\n%s\n" % (len(content), content))
        out.append(b"\n")
        if not parents:
            # detach the temp ref so that the next root commit starts afresh
            pass
        out.append(b"reset refs/gbmc/tmp\n\n")
    marks = os.path.join(r.gitdir, "gbmc-marks")
    res = r.run([GIT, "-c", "fastimport.unpackLimit=100000", "-c", "core.hooksPath=/dev/null", "fast-import", "--quiet", "--force",
                 "--export-marks=" + marks],
                input=b"".join(out))
    if res.rc != 0:
        raise core.HarnessError("fast-import failed: %r" % res)
    oids = {}
    inv = {v: k for k, v in mark.items()}
    with open(marks) as f:
        for line in f:
            m, oid = line.split()
            if int(m[1:]) in inv:
                oids[inv[int(m[1:])]] = oid
    os.unlink(marks)
    r.run([GIT, "-c", "core.hooksPath=/dev/null", "update-ref", "-d", "refs/gbmc/tmp"])
    return oids


def set_head(r, head):
    """head: ('ref', 'refs/heads/x') or ('oid', oid); raw, no hooks."""
    with open(os.path.join(r.gitdir, "HEAD"), "w") as f:
        f.write("ref: %s\n" % head[1] if head[0] == "ref" else head[1] + "\n")


def observe_commit(r, oid):
    """Make git-branchless observe a commit, exactly as git does after
    `git commit` (HEAD at the commit, post-commit hook)."""
    set_head(r, ("oid", oid))
    res = r.run([os.path.join(core.BIN, "git-branchless"), "hook", "post-commit"])
    if res.rc != 0:
        raise core.HarnessError("post-commit hook failed: %r" % res)


def build_repo(path, commits, main, drafts=(), branches=None, head=None, config=None,
               main_name="master", hide=()):
    """Create a repository with the given commits.

    main: label main points to; drafts: labels to observe (in order);
    branches: {name: label}; head: label (detached) or 'refs/heads/name'.
    """
    r = init_repo(path, config=config, init_branchless=False, main=main_name)
    oids = fast_import(r, commits)
    lines = ["create refs/heads/%s %s" % (main_name, oids[main])]
    r.run([GIT, "-c", "core.hooksPath=/dev/null", "update-ref", "--stdin"], input="\n".join(lines) + "\n")
    res = r.gb("init", "--main-branch", main_name)
    if res.rc != 0:
        raise core.HarnessError("init failed: %r" % res)
    for d in drafts:
        observe_commit(r, oids[d])
    if branches:
        lines = ["create refs/heads/%s %s" % (n, oids[l]) for n, l in branches.items()]
        res = r.run([GIT, "update-ref", "--stdin"], input="\n".join(lines) + "\n")
        if res.rc != 0:
            raise core.HarnessError("update-ref failed: %r" % res)
    if head is None:
        head = "refs/heads/" + main_name
    set_head(r, ("ref", head) if head.startswith("refs/") else ("oid", oids[head]))
    r.plain("reset", "-q", "--hard")
    if hide:
        res = r.gb("hide", "--no-delete-branches", *[oids[h] for h in hide])
        if res.rc != 0:
            raise core.HarnessError("hide failed: %r" % res)
    return r, oids
