"""C26: rewording changes only commit messages."""
import itertools
import json
import os

from ..graphs import make, forests, unlabelled, drafts, ancestors, descendants
from ..repo import QueryFailed, set_head

PROPERTY = "C26"
LEVEL = "exploration"
TECHNIQUE = ("exhaustive enumeration of commit graphs, selections, HEAD positions, editing sessions and message texts, reworded by the real binary, "
             "against a rule for messages (Git's own clean-up), files, authors, parents, branches, HEAD and working copy")
RULE = "distinct (graph, selection, HEAD, editing session) in which the messages are as the rule demands and nothing else changed"
BOUND = {
    "quick": "all forests with 2 main and 1-3 draft commits and 3 graphs with merges x all selections x all HEADs; all 6^2+6^3 bulk editing sessions; "
             "all texts of up to 3 lines over 10 lines for the editor, up to 2 lines for -m; all --fixup and --discard selections on a 4-commit graph",
    "thorough": "forests with 4 drafts; texts of up to 3 lines for -m and over both comment characters",
}
ASSUMPTIONS = ["root commits are not reworded", "messages are valid UTF-8", "core.commentChar is a single ASCII character"]

MERGES = [
    {"m0": [], "m1": ["m0"], "a": ["m0"], "b": ["m1"], "c": ["a", "b"]},
    {"m0": [], "m1": ["m0"], "a": ["m1"], "b": ["a"], "c": ["a"], "d": ["b", "c"]},
    {"m0": [], "m1": ["m0"], "a": ["m0"], "b": ["a", "m1"], "c": ["b"]},
]
G = {"m0": [], "m1": ["m0"], "a": ["m1"], "b": ["a"], "c": ["b"], "d": ["a"]}
MESSAGES = {"a": "a\n\nbody of a\n", "c": "c: see `++ reword`\n\n# not a comment\n"}
LINES = ["", "x", "# c", " y ", "++ reword", "++ reword @", "++ reword 0123456789ab", "z ++ reword q", "é\t", "; s"]
OPS = ["keep", "new", "empty", "drop", "twice", "wrong"]
EDITOR = r"""
import json, os, re, sys
plan = json.load(open(os.environ["GBMC_PLAN"]))
text = open(sys.argv[1], encoding="utf-8").read()
open(os.environ["GBMC_PLAN"] + ".seen", "w", encoding="utf-8").write(text)
if "text" in plan:
    text = plan["text"]
elif "sections" in plan:
    marks = list(re.finditer(r"^\+\+ reword ([0-9a-f]+)\n", text, re.M))
    out = text[:marks[0].start()] if marks else ""
    for i, m in enumerate(marks):
        body = text[m.end():marks[i + 1].start() if i + 1 < len(marks) else len(text)]
        op, arg = next(v for k, v in plan["sections"].items() if k.startswith(m.group(1)))
        if op == "keep": out += m.group(0) + body
        elif op == "new": out += m.group(0) + arg + "\n\n"
        elif op == "empty": out += m.group(0) + "\n"
        elif op == "twice": out += (m.group(0) + arg + "\n\n") * 2
        elif op == "wrong": out += "++ reword " + "0" * len(m.group(1)) + "\n" + body
    text = out
elif "append" in plan:
    text = plan["append"] + text
open(sys.argv[1], "w", encoding="utf-8").write(text)
sys.exit(plan.get("exit", 0))
"""


def units(tier):
    for n in (1, 2, 3) + ((4,) if tier == "thorough" else ()):
        for g in unlabelled(forests(2, n)):
            yield {"kind": "shape", "g": g}
    for g in MERGES:
        yield {"kind": "shape", "g": g}
    yield {"kind": "options"}
    for sel in ("ab", "bd", "abd", "acd"):
        sessions = list(itertools.product(OPS, repeat=len(sel)))
        for i in range(0, len(sessions), 36):
            yield {"kind": "bulk", "sel": sel, "sessions": sessions[i:i + 36]}
    texts = [list(t) for n in (1, 2, 3) for t in itertools.product(LINES, repeat=n)]
    for char in ("#", ";"):
        e = texts if char == "#" or tier == "thorough" else [t for t in texts if len(t) < 3]
        m = texts if tier == "thorough" else [t for t in texts if len(t) < 3]
        for i in range(0, len(e), 60):
            yield {"kind": "text", "via": "editor", "char": char, "texts": e[i:i + 60]}
        for i in range(0, len(m), 60):
            yield {"kind": "text", "via": "-m", "char": char, "texts": m[i:i + 60]}


def run_unit(u, ctx):
    return {"shape": shape, "bulk": bulk, "text": text, "options": options}[u["kind"]](u, ctx)


class Case:
    def __init__(self, ctx, u, r, g, oids, label, only):
        self.ctx, self.u, self.g, self.oids, self.label, self.only = ctx, u, g, oids, label, only
        self.w = r.copy(ctx.tmp())
        self.w.write("untracked", "precious\n")
        self.old = {k: self.w.commit(o) for k, o in oids.items()}

    def reword(self, *args, plan=None):
        env = {}
        w = self.w
        if plan is not None:
            ed = os.path.join(w.gitdir, "ed.py")
            with open(ed, "w") as f:
                f.write(EDITOR)
            with open(os.path.join(w.gitdir, "plan"), "w") as f:
                json.dump(plan, f)
            env = {"GIT_EDITOR": "python3 -S -E " + ed, "GBMC_PLAN": os.path.join(w.gitdir, "plan")}
        self.before, self.refs0, self.head0, self.wt0, self.index0 = w.user_state(), w.user_refs(), w.head(), w.worktree(), w.index()
        w.clock += 10
        self.out = w.gb("reword", *args, env=env)
        self.ctx.transition()
        self.ctx.evaluation()
        return self.out

    def bad(self, msg):
        self.ctx.violation(self.label + "|" + msg.split(":")[0], self.label + "\n" + msg + "\n" + repr(self.out), dict(self.u, only=self.only))
        self.w.remove()

    def unchanged(self, why):
        after = self.w.user_state()
        if after != self.before or self.w.worktree() != self.wt0:
            return self.bad("the repository changed although %s: %s" % (why, diff(self.before, after)))
        if self.out.timeout or (self.out.panicked() and "editor" not in why):
            return self.bad("crashed")
        if self.out.rc == 0:
            return self.bad("reported success although %s" % why)
        self.ctx.outcome("nothing changed")
        self.done()

    def reworded(self, want):
        """want: label -> message"""
        w, g = self.w, self.g
        if self.out.timeout or self.out.panicked() or self.out.rc != 0:
            return self.bad("reword failed")
        try:
            vis = w.query("all()")
        except QueryFailed as e:
            return self.bad("unreadable: %s" % e)
        tree = {c.tree: k for k, c in self.old.items()}
        lab = {}
        for o in vis:
            k = tree.get(w.commit(o).tree)
            if k is None or k in lab:
                return self.bad("unexpected visible commit: %s" % w.commit(o).label)
            lab[k] = o
        if set(lab) != set(g):
            return self.bad("missing commits: %s" % sorted(set(g) - set(lab)))
        moved = set().union(*[descendants(g, k) for k in want]) if want else set()
        for k, o in lab.items():
            c, old = w.commit(o), self.old[k]
            if k not in moved and o != self.oids[k]:
                return self.bad("unrelated commit rewritten: %s" % k)
            if c.author != old.author:
                return self.bad("author: %s is now by %s, was by %s" % (k, c.author, old.author))
            if c.parents != [lab[p] for p in g[k]]:
                return self.bad("parents: %s is now on %s" % (k, [tree.get(w.commit(p).tree) for p in c.parents]))
            msg = want.get(k, old.message)
            if norm(c.message) != norm(msg):
                return self.bad("message: %s has %r, expected %r" % (k, c.message, msg))
        inv = {o: k for k, o in self.oids.items()}
        refs = {n: lab[inv[o]] for n, o in self.refs0.items()}
        if w.user_refs() != refs:
            return self.bad("references: %s, expected %s" % (w.user_refs(), refs))
        head = self.head0 if self.head0[0] == "ref" else ("oid", lab[inv[self.head0[1]]])
        hd = w.head()
        if hd != head and not (head[0] == "oid" and hd[0] == "ref" and refs.get(hd[1]) == head[1]):
            # a detached HEAD may be attached to a branch at the same commit
            return self.bad("HEAD: %s, expected %s" % (w.head(), head))
        if w.worktree() != self.wt0 or w.index() != self.index0 or w.in_progress():
            return self.bad("working copy changed")
        self.ctx.outcome("reworded")
        self.done()

    def done(self):
        self.ctx.state([self.label])
        self.ctx.sample({"case": self.label})
        self.w.remove()


def norm(m):
    """Leading blanks of the first line are not compared: -m drops them."""
    return m.lstrip(" \t")


def diff(a, b):
    return repr({k: (a[k], b[k]) for k in a if a[k] != b[k]})[:1500] if isinstance(a, dict) else "%s -> %s" % (a, b)


def stripspace(t, char=None):
    """git stripspace [-s], for the texts explored here; compared with Git in text()."""
    out = []
    for l in t.split("\n"):
        if char and l.startswith(char):
            continue
        l = l.rstrip()
        if l or (out and out[-1]):
            out.append(l)
    while out and not out[-1]:
        out.pop()
    return "".join(l + "\n" for l in out)


def shape(u, ctx):
    g = u["g"]
    ds = drafts(g)
    tips = {"b_" + k: k for k in ds}
    heads = ds + ["refs/heads/b_" + ds[-1], "refs/heads/master", "m0"]
    r, oids = make(ctx, g, branches=tips)
    for head in heads:
        rr = r.copy(ctx.tmp())
        set_head(rr, ("ref", head) if head.startswith("refs/") else ("oid", oids[head]))
        rr.plain("reset", "-q", "--hard")
        for n in range(1, len(ds) + 1):
            for sel in itertools.combinations(ds, n):
                if "only" in u and u["only"] != [head, list(sel)]:
                    continue
                c = Case(ctx, u, rr, g, oids, "%s HEAD=%s reword -m new %s" % (json.dumps(g), head, " ".join(sel)), [head, list(sel)])
                c.reword("-m", "new", *[oids[k] for k in sel])
                if any(len(g[k]) > 1 for k in set().union(*[descendants(g, x) for x in sel])) and c.out.rc != 0:
                    ctx.outcome("merge not rewritten")
                    c.unchanged("it failed")
                    continue
                c.reworded({k: "new\n" for k in sel})
        if "only" not in u or u["only"] == [head, ["m1"]]:
            c = Case(ctx, u, rr, g, oids, "%s HEAD=%s reword -m new m1" % (json.dumps(g), head), [head, ["m1"]])
            c.reword("-m", "new", oids["m1"], oids[ds[0]])
            c.unchanged("a public commit was named")
        rr.remove()
    r.remove()


def bulk(u, ctx):
    r, oids = make(ctx, G, branches={"one": "b", "two": "d"}, head="refs/heads/one", messages=MESSAGES)
    sel = u["sel"]
    for s in u["sessions"]:
        if "only" in u and u["only"] != list(s):
            continue
        c = Case(ctx, u, r, G, oids, "bulk edit %s" % " ".join("%s:%s" % x for x in zip(sel, s)), list(s))
        plan = {"sections": {oids[k]: [op, "new %s\n# dropped\n\nbody" % k] for k, op in zip(sel, s)}}
        c.reword(*[oids[k] for k in sel], plan=plan)
        if set(s) <= {"keep", "new"} and "new" in s:
            c.reworded({k: "new %s\n\nbody\n" % k if op == "new" else stripspace(c.old[k].message, "#") for k, op in zip(sel, s)})
        else:
            c.unchanged("the edit was incomplete")
    r.remove()


def text(u, ctx):
    r, oids = make(ctx, G, branches={"one": "b", "two": "d"}, head="refs/heads/one", config={"core.commentChar": u["char"]})
    k = "b"
    for lines in u["texts"]:
        if "only" in u and u["only"] != lines:
            continue
        t = "\n".join(lines).replace("@", oids[k][:12])
        c = Case(ctx, u, r, G, oids, "%s %s commentChar %s" % (u["via"], json.dumps(lines), u["char"]), lines)
        want = stripspace(t, u["char"] if u["via"] == "editor" else None)
        git = r.run(["/usr/bin/git", "stripspace"] + (["-s"] if u["via"] == "editor" else []), input=t)
        if git.out != want:
            raise AssertionError("stripspace model: %r %r" % (git.out, want))
        if u["via"] == "-m":
            if not t.strip():
                # asks for the message in the editor, which is not edited
                c.reword("-m", t, oids[k])
                c.unchanged("no message was given")
                continue
            c.reword("-m", t, oids[k])
            c.reworded({k: want})
            continue
        c.reword(oids[k], plan={"text": t})
        marks = [l for l in want.split("\n") if l.startswith("++ reword")]
        if marks:
            rest = want.split("\n", 1)[1].strip("\n")
            if len(marks) == 1 and want.startswith(marks[0]) and marks[0] == "++ reword " + oids[k][:12] and rest:
                c.reworded({k: rest + "\n"})
            else:
                c.unchanged("the markers are wrong")
        elif not want:
            c.unchanged("the message is empty")
        else:
            c.reworded({k: want})
    r.remove()


def options(u, ctx):
    def case(label):
        return Case(ctx, u, r, G, oids, label, label)

    def skip(label):
        return "only" in u and u["only"] != label

    ds = drafts(G)
    for head in ("refs/heads/one", "c", "m1"):
        r, oids = make(ctx, G, branches={"one": "b", "two": "d"}, head=head, messages=MESSAGES)
        at = {"refs/heads/one": "b"}.get(head, head)
        for n in range(1, 5):
            for sel in itertools.combinations(ds, n):
                for x in list(G):
                    if x in sel:
                        continue
                    l = "HEAD=%s --fixup %s %s" % (head, x, " ".join(sel))
                    if skip(l):
                        continue
                    c = case(l)
                    c.reword("--fixup", oids[x], *[oids[k] for k in sel])
                    if all(x in ancestors(G, k) for k in sel):
                        c.reworded({k: "fixup! %s\n" % c.old[x].message.split("\n")[0] for k in sel})
                    else:
                        c.unchanged("the commit to fix up is not an ancestor of all")
                for template in (None, "from template\n"):
                    l = "HEAD=%s --discard %s %s" % (head, " ".join(sel), template)
                    if skip(l):
                        continue
                    c = case(l)
                    if template:
                        c.w.write(".git/tpl", template)
                        c.w.ok("config", "commit.template", c.w.path + "/.git/tpl")
                    if n == 1:
                        c.reword("-d", oids[sel[0]], plan={"append": "written"})
                        c.reworded({sel[0]: "written" + (template or "\n")})
                    else:
                        c.reword("-d", *[oids[k] for k in sel], plan={"sections": {oids[k]: ["new", "msg " + k] for k in sel}})
                        c.reworded({k: "msg %s\n" % k for k in sel})
        l = "HEAD=%s default" % head
        if not skip(l):
            c = case(l)
            c.reword("-m", "one", "-m", "two")
            if at.startswith("m"):
                c.unchanged("a public commit is checked out")
            else:
                c.reworded({at: "one\n\ntwo\n"})
        for what, plan in (("untouched", {}), ("failing editor", {"text": "new", "exit": 1}), ("emptied", {"text": "\n# x\n"}), ("removed", {"text": ""})):
            for sel in ("b", "ab"):
                l = "HEAD=%s editor %s %s" % (head, what, sel)
                if not skip(l):
                    c = case(l)
                    c.reword(*[oids[k] for k in sel], plan=plan)
                    c.unchanged("the editor failed" if "exit" in plan else "the edit was aborted")
        for sel in ("a", "abcd", "bd"):
            l = "HEAD=%s failing editor after a bulk edit %s" % (head, sel)
            if not skip(l):
                c = case(l)
                plan = {"sections": {oids[k]: ["new", "msg " + k] for k in sel}, "exit": 1}
                c.reword(*[oids[k] for k in sel], plan=plan if len(sel) > 1 else {"append": "x", "exit": 1})
                c.unchanged("the editor failed")
        r.remove()
