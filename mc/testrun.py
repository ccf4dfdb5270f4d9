"""Driving `git test` with a command whose every run is observed and whose
outcome and time of completion are chosen by the exploration."""
import os
import re
import signal
import subprocess
import time

from . import core
from .repo import base_env

SCRIPT = """
c=$BRANCHLESS_TEST_COMMIT
t=$CTL/run.$c.$$
{ echo "$PWD"; find . -name .git -prune -o -type f -exec sha1sum {} +; } > "$t.tmp"
mv "$t.tmp" "$t"
. "$CTL/act.$c"
"""

STATUS = re.compile(r"^(\S+) (.*): ([0-9a-f]{7,40}) (\S+)\s*$")
KIND = {"✓": "pass", "X": "fail", "!": "skip"}


class Ctl:
    """A directory with the command and the outcome per commit."""

    def __init__(self, d):
        self.dir = d
        os.makedirs(d)
        with open(os.path.join(d, "t.sh"), "w") as f:
            f.write(SCRIPT)
        self.env = {"CTL": d}

    def cmd(self, name="a"):
        return "exec sh $CTL/t.sh " + name

    def clear(self):
        for f in os.listdir(self.dir):
            if f.startswith(("act.", "run.", "fifo.", "blocked.")):
                os.unlink(os.path.join(self.dir, f))

    def act(self, oid, body):
        with open(os.path.join(self.dir, "act." + oid), "w") as f:
            f.write(body + "\n")

    def fifo(self, oid, body):
        p = os.path.join(self.dir, "fifo." + oid)
        os.mkfifo(p)
        self.act(oid, "echo $$ > $CTL/blocked.%s; read x < %s; %s" % (oid, p, body))

    def blocked(self):
        return {f[8:] for f in os.listdir(self.dir) if f.startswith("blocked.")}

    def release(self, oid):
        """False if the command is not there to be released."""
        end = time.time() + 30
        while time.time() < end:
            try:
                fd = os.open(os.path.join(self.dir, "fifo." + oid), os.O_WRONLY | os.O_NONBLOCK)
            except OSError:
                time.sleep(0.002)
                continue
            os.write(fd, b"go\n")
            os.close(fd)
            return True
        return False

    def runs(self):
        """[(oid, directory, {path: sha1 of contents})]"""
        out = []
        for f in sorted(os.listdir(self.dir)):
            if f.startswith("run.") and not f.endswith(".tmp"):
                with open(os.path.join(self.dir, f)) as fh:
                    lines = fh.read().splitlines()
                files = {}
                for line in lines[1:]:
                    h, p = line.split(None, 1)
                    files[p[2:]] = h
                out.append((f.split(".")[1], lines[0], files))
        return out


CODES = {"0": "exit 0", "1": "exit 1", "2": "exit 2", "125": "exit 125", "127": "exit 127", "K": "kill -9 $$"}
CLASS = {"0": "pass", "1": "fail", "2": "fail", "125": "skip", "127": "abort", "K": "skip"}


class Report:
    def __init__(self, out):
        self.rc = out.rc
        self.text = out.out
        self.status = {}  # label -> (kind, cached)
        self.twice = []
        self.bounds = {}
        self.counts = None
        self.ran = None
        part = None
        for line in out.out.splitlines():
            m = STATUS.match(line)
            if m and m.group(1) in KIND:
                if m.group(4) in self.status:
                    self.twice.append(m.group(4))
                kind = KIND[m.group(1)]
                if "abort" in m.group(2):
                    kind = "abort"
                self.status[m.group(4)] = (kind, "cached" in m.group(2))
                continue
            m = re.match(r"^Ran command on (\d+) commit", line)
            if m:
                self.ran = int(m.group(1))
            m = re.match(r"^(\d+) passed, (\d+) failed, (\d+) skipped", line)
            if m:
                self.counts = tuple(map(int, m.groups()))
            if line.startswith(("Last passing", "First failing")):
                part = line.split()[0]
                self.bounds[part] = set()
                continue
            if line.startswith("There were no passing"):
                self.bounds["Last"] = set()
            if line.startswith("There were no failing"):
                self.bounds["First"] = set()
            if part and re.match(r"^\S ", line) and len(line.split()) >= 3:
                self.bounds[part].add(line.split()[2])
            else:
                part = None


class Run:
    """A run of the tool with controlled commands."""

    def __init__(self, r, args, ctl, time_=None):
        self.ctl = ctl
        self.p = subprocess.Popen([os.path.join(core.BIN, "git-branchless")] + list(args), cwd=r.path,
                                  env=base_env(time_ or r.clock, ctl.env), stdin=subprocess.DEVNULL,
                                  stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, start_new_session=True)
        self.released = set()

    def _idle(self):
        """Every thread of the tool sleeps, every command it started waits."""
        d = "/proc/%d/task" % self.p.pid
        kids = set()
        try:
            for t in os.listdir(d):
                with open("%s/%s/stat" % (d, t)) as f:
                    if f.read().rsplit(")", 1)[1].split()[0] != "S":
                        return None
                with open("%s/%s/children" % (d, t)) as f:
                    kids |= set(f.read().split())
        except OSError:
            return None
        waiting = self.ctl.blocked() - self.released
        for c in waiting:
            with open(os.path.join(self.ctl.dir, "blocked." + c)) as f:
                pid = f.read().strip()
            if not pid:
                return None
            kids.discard(pid)
            # the shell which the tool started may be the parent of the script
            try:
                with open("/proc/%s/stat" % pid) as f:
                    kids.discard(f.read().rsplit(")", 1)[1].split()[1])
            except OSError:
                return None
        if kids:
            return None
        return frozenset(waiting)

    def settle(self, timeout=90):
        """Wait until nothing moves. Returns the waiting commits, or None if
        the tool ended, or raises Hang."""
        end = time.time() + timeout
        last = None
        same = 0
        quiet_since = None
        while True:
            if self.p.poll() is not None:
                return None
            w = self._idle()
            if w is not None and w == last:
                same += 1
            else:
                same = 0
            last = w
            if w and same >= 3:
                return w
            if w is not None and not w:
                # nothing to wait for: the tool has to go on by itself
                quiet_since = quiet_since or time.time()
                if time.time() - quiet_since > 60:
                    raise Hang("the tool sleeps although no command is running")
            else:
                quiet_since = None
            if time.time() > end:
                raise Hang("no progress within %d s" % timeout)
            time.sleep(0.004)

    def release(self, c):
        self.released.add(c)
        return self.ctl.release(c)

    def finish(self, timeout=90):
        try:
            out, _ = self.p.communicate(timeout=timeout)
        except subprocess.TimeoutExpired:
            self.kill()
            raise Hang("the tool does not end")
        from .repo import Out
        return Out(self.p.args, self.p.returncode, out.decode("utf8", "replace"), "")

    def kill(self):
        """Kill the tool and its commands (a process group of its own)."""
        try:
            os.killpg(self.p.pid, signal.SIGKILL)
        except OSError:
            pass
        try:
            self.p.communicate(timeout=20)
        except subprocess.TimeoutExpired:
            pass


class Hang(Exception):
    pass
