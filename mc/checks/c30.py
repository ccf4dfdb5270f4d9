"""C30: uncommitted changes are never lost."""
import itertools

from ..graphs import make
from .. import wcopy

PROPERTY = "C30"
LEVEL = "exploration"
TECHNIQUE = ("exhaustive enumeration of (command, contents of a path in four commits, index and disk state of that path) on the real "
             "binary; every staged or unstaged change and untracked file must be found unchanged afterwards")
RULE = "distinct (command, commit contents, index, disk) with an uncommitted change or untracked file present which survived"
BOUND = {
    "quick": "23 commands; the path is in one of 7 constellations in main (2 commits) and a stack of 2; index and disk each in 4 states "
             "(absent, 3 contents); all 16 x 7 x 23 combinations",
    "thorough": "index and disk each in 6 states (also executable and symlink), from the upper and the lower commit of the stack",
}
ASSUMPTIONS = ["a file deleted from disk only has no contents to lose, and Git itself restores it when the commit checked out has another version",
               "no clean/smudge filters or submodules", "commands which commit the changes are the subject of C15 and C25"]
P = "d/p"
# contents in m0, m1, a, b
VARIANTS = ["AAAA", "AABB", "AAAB", "ABAA", "---B", "-B--", "--BB"]
W = ["wrap", "--"]
COMMANDS = {
    "next": ["next"],
    "prev": ["prev"],
    "prev -a": ["prev", "-a"],
    "next --merge": ["next", "--merge"],
    "switch main": ["switch", "{m1}"],
    "switch top": ["switch", "{b}"],
    "switch root": ["switch", "{m0}"],
    "hide a": ["hide", "{a}"],
    "hide -r a": ["hide", "-r", "{a}"],
    "move": ["move", "-s", "{a}", "-d", "{m1}"],
    "move on disk": ["move", "--on-disk", "-s", "{a}", "-d", "{m1}"],
    "move in memory": ["move", "--in-memory", "-s", "{a}", "-d", "{m1}"],
    "move merge": ["move", "--merge", "-s", "{a}", "-d", "{m1}"],
    "move top": ["move", "-x", "{b}", "-d", "{m1}"],
    "fixup": ["move", "--fixup", "-x", "{b}", "-d", "{a}"],
    "swap": ["move", "-x", "{a}", "-d", "{b}"],
    "reword": ["reword", "-m", "other", "{a}"],
    "sync": ["sync"],
    "sync on disk": ["sync", "--on-disk"],
    "test working copy": ["test", "run", "-x", "true", "-s", "working-copy", "{a}+{b}"],
    "test worktree": ["test", "run", "-x", "true", "-s", "worktree", "{a}+{b}"],
    "restack": ["restack"],
    "undo": ["undo", "-y"],
}
# done with a clean working copy before the changes are made
BEFORE = {
    "restack": W + ["commit", "--amend", "--allow-empty", "-m", "newer"],
    "undo": ["reword", "-m", "other", "{a}"],
}


def units(tier):
    heads = ["a", "b"] if tier == "thorough" else ["a"]
    states = "-ABCXL" if tier == "thorough" else "-ABC"
    for head in heads:
        for v in VARIANTS:
            for cmd in COMMANDS:
                yield {"head": head, "variant": v, "cmd": cmd, "states": states}


def run_unit(u, ctx):
    g = {"m0": [], "m1": ["m0"], "a": ["m0"], "b": ["a"]}
    files = {}
    for k, s in zip(g, u["variant"]):
        files[k] = {"f_m0": ("100644", b"main\n"), **wcopy.slot(P, s)}
        if k in "ab":
            files[k]["f_a"] = ("100644", b"a\n")
        if k in ("b", "m1"):
            files[k]["f_" + k] = ("100644", k.encode() + b"\n")
    r, oids = make(ctx, g, branches={"one": u["head"]}, head="refs/heads/one", files=lambda g, k: files[k])
    wcopy.store_blobs(r)
    if u["cmd"] in BEFORE:
        out = r.gb(*[x.format(**oids) for x in BEFORE[u["cmd"]]])
        if out.rc != 0:
            raise AssertionError(repr(out))
    head = files[u["head"]]
    head = {p: v for p, v in head.items() if p == P}
    for i, w in itertools.product(u["states"], repeat=2):
        if "only" in u and u["only"] != i + w:
            continue
        if wcopy.slot(P, i) == wcopy.slot(P, w) == head:
            continue
        one(ctx, u, r, oids, head, i, w)
    r.remove()


def one(ctx, u, r, oids, head, i, w):
    x = r.copy(ctx.tmp())
    x.clock += 10
    index, disk = wcopy.slot(P, i), wcopy.slot(P, w)
    wcopy.set_index(x, head, index)
    wcopy.set_disk(x, head, disk)
    x.write("untracked", "precious\n")
    label = "%s, commits %s, HEAD %s, index %s, disk %s" % (u["cmd"], u["variant"], u["head"], i, w)
    ix, wt, before = x.index(), x.worktree(), x.head_oid()
    out = x.gb(*[a.format(**oids) for a in COMMANDS[u["cmd"]]])
    ctx.transition()
    ctx.evaluation()

    def bad(msg):
        key = label + "|" + msg.split(":")[0]
        if u["cmd"] == "undo" and index == {} and head and msg.startswith("disk"):
            key = "undo, file removed from the index but kept on disk"
        if u["cmd"] == "test working copy" and not head and index == {} and u["variant"] == "---B" and msg.startswith("disk"):
            key = "test working copy, untracked file which a tested commit contains"
        ctx.violation(key, label + "\n" + msg + "\n" + repr(out), dict(u, only=i + w))

    ix2, wt2 = x.index(), x.worktree()
    key = (P, 0)
    if u["cmd"] == "undo" and out.rc == 0 and (ix2.get(key), wt2.get(P)) != (ix.get(key), wt.get(P)):
        # undo puts back the working copy of that time; undoing again must
        # bring back the present one
        out = x.gb("undo", "-y")
        ctx.transition()
        ctx.outcome("undone twice")
        ix2, wt2 = x.index(), x.worktree()
    if out.timeout:
        bad("hangs")
    elif wt2.get("untracked") != wt["untracked"]:
        bad("untracked file lost")
    elif u["cmd"] == "next --merge" and any(st for _, st in ix2) and wt[P][1] in wt2[P][1]:
        ctx.outcome("conflict reported in place")
    elif w != "-" and (disk != index or index == {}) and wt2.get(P) != wt.get(P):
        bad("disk: %s, before %s" % (wt2.get(P), wt.get(P)))
    elif index != head and ix2.get(key) != ix.get(key):
        bad("index: %s, before %s" % ({k: v for k, v in ix2.items() if k[0] == P}, ix.get(key)))
    elif index != head and disk == index and wt2.get(P) != wt.get(P):
        bad("disk: %s, before %s" % (wt2.get(P), wt.get(P)))
    else:
        moved = x.head_oid() != before
        ctx.outcome(("carried along" if moved else "stayed") if out.rc == 0 else "refused")
        ctx.state(label)
        ctx.sample(label)
    x.remove()
