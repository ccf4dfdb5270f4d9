"""Working-copy states: what HEAD, the index and the disk hold at a path.

A state is one letter per layer: - absent, A and B two regular files, X file A
made executable, L and M symlinks, D a directory holding one file, F a file in
place of the directory the path is in."""
import os

from . import core
from .repo import GIT, blob_oid

TEXT = {"A": b"first contents\n1\n2\n", "B": b"other text\nthat differs\n", "C": b"third version here\n",
        "L": b"some-target", "M": b"missing/elsewhere"}


def slot(p, s):
    if s == "-":
        return {}
    if s in "ABC":
        return {p: ("100644", TEXT[s])}
    if s == "X":
        return {p: ("100755", TEXT["A"])}
    if s in "LM":
        return {p: ("120000", TEXT[s])}
    if s == "D":
        return {p + "/in": ("100644", TEXT["A"])}
    if s == "F":
        return {os.path.dirname(p): ("100644", TEXT["B"])}
    raise ValueError(s)


def layer(slots, n):
    """Layer n (0 HEAD, 1 index, 2 disk) of {path: "hiw"}."""
    res = {}
    for p, s in slots.items():
        res.update(slot(p, s[n]))
    return res


def store_blobs(r):
    for t in TEXT.values():
        res = r.run([GIT, "hash-object", "-w", "--stdin"], input=t)
        if res.rc != 0:
            raise core.HarnessError("hash-object failed: %r" % res)


def set_index(r, old, new):
    """Replace the index entries of the paths in old by those in new."""
    lines = ["0 %s\t%s" % ("0" * 40, p) for p in old if p not in new or old[p] != new[p]]
    lines += ["%s %s\t%s" % (m, blob_oid(t), p) for p, (m, t) in new.items() if old.get(p) != (m, t)]
    if lines:
        res = r.run([GIT, "update-index", "--index-info"], input="\n".join(lines) + "\n")
        if res.rc != 0:
            raise core.HarnessError("update-index failed: %r" % res)


def set_disk(r, old, new):
    for p in old:
        if old[p] != new.get(p):
            r.delete(p)
    for p, (m, t) in new.items():
        if old.get(p) != (m, t):
            r.write(p, t.decode() if m == "120000" else t, m)


def index_files(r):
    """{path: (mode, oid)} of the stage-0 index entries; None if unmerged."""
    ix = r.index()
    if any(st for _, st in ix):
        return None
    return {p: v for (p, _), v in ix.items()}


def oids(files):
    return {p: (m, blob_oid(t)) for p, (m, t) in files.items()}
