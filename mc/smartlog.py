"""Parsing what `git branchless smartlog` prints (text glyphs)."""
import os
import re

ABBREV = "[core]\n\tabbrev = 40\n"
LINE = re.compile(r"^([|: \\/]*)([O@oxX%]) ([0-9a-f]{40})(?: (.*))?$")


class Node:
    def __init__(self, col, glyph, oid, rest):
        self.col, self.glyph, self.oid = col, glyph, oid
        self.current = glyph in "@%"
        self.main = glyph in "OX"
        self.obsolete = glyph in "xX%"
        self.rewritten = None
        self.hidden = False
        self.branches = set()
        rest = rest or ""
        m = re.match(r"\d+[a-z]+ ?", rest)  # relative time
        if m:
            rest = rest[m.end():]
        while True:
            m = re.match(r"\(([^()]*)\) ?", rest)
            if not m:
                break
            x = m.group(1)
            rest = rest[m.end():]
            if x.startswith("rewritten as "):
                self.rewritten = x[len("rewritten as "):]
            elif x in ("deleted as", "deleted", "manually hidden"):
                self.hidden = True
            else:
                self.branches.update(b[2:] if b.startswith("> ") else b for b in x.split(", "))
        self.message = rest


def run(w, *args):
    with open(os.path.join(w.gitdir, "config")) as f:
        config = f.read()
    if not config.endswith(ABBREV):
        with open(os.path.join(w.gitdir, "config"), "a") as f:
            f.write(ABBREV)
    out = w.gb("smartlog", *args)
    return out, parse(out.out)


def parse(text):
    res = []
    for line in text.splitlines():
        m = LINE.match(line)
        if m:
            res.append(Node(len(m.group(1)), m.group(2), m.group(3), m.group(4)))
    return res
