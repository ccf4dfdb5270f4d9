"""Control over the file operations of git-branchless and of the Git processes
it starts, through a preloaded library (shim/shim.c)."""
import os
import selectors
import socket
import subprocess
import tempfile

from . import core
from .repo import Out, base_env

LIB = os.path.join(core.TARGET, "shim.so")


def build():
    src = os.path.join(core.VERIF, "shim", "shim.c")
    if os.path.exists(LIB) and os.path.getmtime(LIB) > os.path.getmtime(src):
        return
    os.makedirs(core.TARGET, exist_ok=True)
    tmp = LIB + ".%d" % os.getpid()
    r = subprocess.run(["gcc", "-O2", "-shared", "-fPIC", "-w", "-o", tmp, src, "-ldl", "-lpthread"],
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        raise core.HarnessError("compiling the preloaded library failed:\n" + r.stdout)
    os.replace(tmp, LIB)


class Request:
    """An operation some process is about to carry out."""
    __slots__ = ("actor", "pid", "op", "path", "conn")

    def __init__(self, line, conn):
        self.actor, self.pid, self.op, self.path = line.decode("utf8", "surrogateescape").split(" ", 3)
        self.conn = conn

    def __repr__(self):
        return "%s:%s %s" % (self.actor, self.op, os.path.basename(self.path))


class Controller:
    def __init__(self, mode, directory):
        self.mode = mode
        self.dir = os.path.realpath(directory)
        self.tmp = tempfile.mkdtemp(prefix="s", dir=core.scratch_root())
        self.sel = selectors.DefaultSelector()
        self.listener = socket.socket(socket.AF_UNIX, socket.SOCK_STREAM)
        self.listener.bind(os.path.join(self.tmp, "s"))
        self.listener.listen(64)
        self.sel.register(self.listener, selectors.EVENT_READ, "listen")
        self.bufs = {}
        self.procs = {}
        self.files = {}

    def start(self, actor, args, cwd, time, env=None, input=None):
        e = base_env(time, env)
        e.update(LD_PRELOAD=LIB, GBSHIM_SOCK=os.path.join(self.tmp, "s"), GBSHIM_DIR=self.dir,
                 GBSHIM_MODE=self.mode, GBSHIM_ACTOR=actor)
        out = open(os.path.join(self.tmp, actor + ".out"), "w+b")
        err = open(os.path.join(self.tmp, actor + ".err"), "w+b")
        stdin = subprocess.DEVNULL
        if input is not None:
            stdin = open(os.path.join(self.tmp, actor + ".in"), "w+b")
            stdin.write(input.encode())
            stdin.seek(0)
        p = subprocess.Popen(args, cwd=cwd, env=e, stdin=stdin, stdout=out, stderr=err,
                             start_new_session=True)
        if input is not None:
            stdin.close()
        fd = os.pidfd_open(p.pid)
        self.procs[actor] = (p, fd)
        self.files[actor] = (args, out, err)
        self.sel.register(fd, selectors.EVENT_READ, ("exit", actor))

    def events(self, timeout=None):
        """Wait for something to happen: yields Request or ('exit', actor)."""
        res = []
        got = self.sel.select(timeout)
        if not got:
            raise TimeoutError("no progress")
        for key, _ in got:
            if key.data == "listen":
                conn, _ = self.listener.accept()
                self.bufs[conn] = b""
                self.sel.register(conn, selectors.EVENT_READ, "conn")
            elif key.data == "conn":
                conn = key.fileobj
                data = conn.recv(65536)
                if not data:
                    self.sel.unregister(conn)
                    conn.close()
                    del self.bufs[conn]
                    continue
                buf = self.bufs[conn] + data
                *lines, rest = buf.split(b"\n")
                self.bufs[conn] = rest
                res.extend(Request(l, conn) for l in lines)
            else:
                _, actor = key.data
                p, fd = self.procs[actor]
                self.sel.unregister(fd)
                os.close(fd)
                p.wait()
                res.append(("exit", actor))
        return res

    def go(self, req):
        try:
            req.conn.send(b".")
        except OSError:
            pass

    def result(self, actor):
        args, out, err = self.files[actor]
        texts = []
        for f in (out, err):
            f.seek(0)
            texts.append(f.read().decode("utf8", "replace"))
        return Out(args, self.procs[actor][0].returncode, *texts)

    def kill(self):
        for p, _ in self.procs.values():
            if p.poll() is None:
                try:
                    os.killpg(p.pid, 9)
                except OSError:
                    pass
                p.wait()

    def close(self):
        self.kill()
        for actor, (p, fd) in self.procs.items():
            try:
                os.close(fd)
            except OSError:
                pass
        for conn in list(self.bufs):
            conn.close()
        self.listener.close()
        self.sel.close()
        for _, out, err in self.files.values():
            out.close()
            err.close()
        for n in os.listdir(self.tmp):
            os.unlink(os.path.join(self.tmp, n))
        os.rmdir(self.tmp)
