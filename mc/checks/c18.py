"""C18: the smartlog shows exactly the commits and relations that exist."""
import itertools
import re

from .. import smartlog
from ..graphs import ancestors, descendants, drafts, fmt, forests, make, mains, unlabelled

PROPERTY = "C18"
LEVEL = "model_checking"
TECHNIQUE = ("exhaustive enumeration of (commit graph, hidden set, HEAD, branches, selection, options) executed on the "
             "real binary; the drawing is parsed back into nodes, links and counts and compared with a model computed "
             "from the graph alone")
BOUND = {
    "quick": "main of <=3 commits and <=3 drafts (all forests up to renaming), 9 graphs with merges or several roots; every "
             "set of hidden drafts; HEAD on main, on an old main commit or on a draft, attached or detached, also on commits not known otherwise; default "
             "selection, every selection of <=2 commits (1 if several are hidden) and all of them, plain, --exact and --reverse",
    "thorough": "as quick with <=4 drafts and every HEAD position for 3 drafts",
}
ASSUMPTIONS = ["the order of siblings and of unrelated lines of work is free",
               "text glyphs (output not to a terminal) and commits that still exist"]

OMIT = re.compile(r"^(\d+) omitted (descendant )?commits?$")
TOK = re.compile(r"^([|:\\/ ]*)(.*)$")


def merges():
    yield {"m0": [], "m1": ["m0"], "a": ["m0"], "b": ["m0"], "c": ["a", "b"]}
    yield {"m0": [], "m1": ["m0"], "a": ["m0"], "b": ["m1"], "c": ["a", "b"]}
    yield {"m0": [], "m1": ["m0"], "a": ["m0"], "b": ["m1"], "c": ["b", "a"]}
    yield {"m0": [], "m1": ["m0"], "a": ["m0"], "b": ["a", "m1"]}
    yield {"m0": [], "m1": ["m0"], "a": ["m0"], "b": ["m1", "a"]}
    yield {"m0": [], "m1": ["m0"], "a": ["m1"], "b": ["m0", "a"]}
    yield {"m0": [], "m1": ["m0"], "a": ["m0"], "b": ["a"], "c": ["a"], "d": ["b", "c"]}
    yield {"m0": [], "m1": ["m0"], "a": ["m0"], "b": ["m0"], "c": ["m0"], "d": ["a", "b", "c"]}
    yield {"m0": [], "m1": ["m0"], "a": ["m0"], "b": ["a"], "c": [], "d": ["c"]}


def graphs(tier):
    for nm, nd in ((1, 1), (1, 2), (2, 1), (2, 2), (2, 3), (3, 2)):
        for g in unlabelled(forests(nm, nd)):
            yield g, "forest"
    for g in merges():
        yield g, "merge"
    if tier == "thorough":
        for nm, nd in ((3, 3), (2, 4)):
            for g in unlabelled(forests(nm, nd)):
                yield g, "forest"


def units(tier):
    for g, kind in graphs(tier):
        ds, ms = drafts(g), mains(g)
        heads = ["refs/heads/master", ds[-1]]
        if len(ds) < 3 or kind == "merge" or tier == "thorough":
            heads += ["refs/heads/one", ms[0], ds[0]]
        seen = []
        for h in heads:
            if h not in seen:
                seen.append(h)
                yield {"g": g, "head": h, "br": {"one": ds[0], "two": ds[-1], "feature/x": ds[-1]}}
        yield {"g": g, "head": ds[0], "br": {}}
        # commits which nothing but HEAD knows of
        yield {"g": g, "head": ds[-1], "br": {}, "unobserved": True}


def subsets(xs):
    for n in range(len(xs) + 1):
        yield from itertools.combinations(xs, n)


def heads_of(g, s):
    return {k for k in s if not any(o != k and k in ancestors(g, o) for o in s)}


def gca_all(g, ks):
    common = set.intersection(*(ancestors(g, k) for k in ks))
    return heads_of(g, common)


def expected(g, sel, main, head, exact):
    s = set(sel)
    if not exact:
        s |= {head, main}
    d = set(s)
    for v in s:
        d |= gca_all(g, [main, v]) if main in s else gca_all(g, s)
    return d


def between(g, lo, hi):
    return {k for k in ancestors(g, hi) if lo in ancestors(g, k)} - {lo, hi}


class Drawing:
    """Nodes in drawing order, their drawn parent, kind of link and counts."""

    def __init__(self, text, names, reverse):
        self.errors = []
        lines = text.splitlines()
        if reverse:
            lines.reverse()
        self.rows = []
        for line in lines:
            m = smartlog.LINE.match(line)
            pre, body = TOK.match(line).groups()
            if reverse:
                pre = pre.translate(str.maketrans("\\/", "/\\"))
            row = {"pre": pre, "col": len(pre), "kind": "link" if not body else "other"}
            if m:
                n = smartlog.Node(len(m.group(1)), m.group(2), m.group(3), m.group(4))
                row.update(kind="node", node=n, col=n.col)
            elif body.startswith("# "):
                o = OMIT.match(body[2:])
                if o:
                    row.update(kind="descendants" if o.group(2) else "omitted", n=int(o.group(1)))
            elif body.startswith("& (merge) "):
                row.update(kind="merge", oid=body[10:50])
            if row["kind"] == "other" and not line.startswith("hint: "):
                self.errors.append("line not understood: %r" % line)
            self.rows.append(row)
        self.nodes = []
        for i, row in enumerate(self.rows):
            if row["kind"] == "node":
                n = row["node"]
                n.label = names.get(n.oid, n.oid)
                n.parent, n.omitted, n.direct = self.trace(i)
                n.below = self.below(i)
                self.nodes.append(n)

    def trace(self, i):
        """Follow the line upwards from the node at row i."""
        col, omitted, direct = self.rows[i]["col"], None, True
        j = i - 1
        while j >= 0:
            row = self.rows[j]
            if row["col"] == col and row["kind"] == "node":
                return row["node"], omitted, direct
            if row["kind"] == "omitted" and row["col"] == col:
                omitted = row["n"]
            elif row["kind"] == "merge" and row["col"] in (col, col + 2):
                pass
            elif row["kind"] == "descendants" and row["col"] == col:
                pass
            else:
                c = row["pre"][col:col + 1]
                if c == ":":
                    direct = False
                elif c == "|":
                    pass
                elif row["pre"][col - 1:col] == "\\" and col >= 2:
                    col -= 2
                else:
                    return None, omitted, direct
            j -= 1
        return None, omitted, direct

    def below(self, i):
        col = self.rows[i]["col"]
        for row in self.rows[i + 1:]:
            if row["kind"] == "descendants" and row["col"] == col:
                return row["n"]
            if row["kind"] == "link" and row["pre"][col:].strip() == ":":
                continue
            return None
        return None

    def merges(self):
        for i, row in enumerate(self.rows):
            if row["kind"] == "merge":
                yield i, row["oid"]


def compare(text, names, g, d, hidden, visible, head, main, br, reverse, manual=None):
    manual = hidden if manual is None else manual
    dr = Drawing(text, names, reverse)
    if dr.errors:
        return "; ".join(dr.errors)
    shown = [n.label for n in dr.nodes]
    if len(set(shown)) != len(shown):
        return "a commit is listed twice: %s" % shown
    if set(shown) != d:
        return "lists %s, expected %s" % (sorted(shown), sorted(d))
    public = ancestors(g, main)
    for n in dr.nodes:
        k = n.label
        strict = ancestors(g, k) - {k}
        if n.message != k:
            return "%s is described as %r" % (k, n.message)
        if n.current != (k == head) and not (n.main and k == head):
            return "%s %s marked as the current commit" % (k, "is" if n.current else "is not")
        want = {(False, False, False): "o", (False, False, True): "@", (False, True, False): "x",
                (False, True, True): "%", (True, False, False): "O", (True, False, True): "@",
                (True, True, False): "X", (True, True, True): "%"}[k in public, k in hidden, k == head]
        if n.glyph != want:
            return "%s is drawn as %r, expected %r" % (k, n.glyph, want)
        if n.hidden != (k in manual):
            return "%s %s described as hidden" % (k, "is" if n.hidden else "is not")
        if n.rewritten and k not in hidden:
            return "%s is described as rewritten" % k
        names_at = {b for b, t in br.items() if t == k}
        if n.branches != names_at:
            return "branches at %s are listed as %s, expected %s" % (k, sorted(n.branches), sorted(names_at))
        if n.parent is not None and n.col == 0 and not n.direct and n.omitted is None and n.parent.label not in g[k]:
            # a dotted line between lines of work says that something came before, but not what
            pass
        elif n.parent is not None:
            p = n.parent.label
            if p not in strict:
                return "%s is drawn below %s, which is not its ancestor" % (k, p)
            mid = between(g, p, k)
            if mid & d and not len(g[k]) > 1:
                return "%s is drawn directly below %s although %s lies between" % (k, p, sorted(mid & d))
            if n.omitted is not None and n.omitted not in (len(mid), len(mid - d)):
                return "%d commits stated as omitted between %s and %s, expected %d" % (n.omitted, p, k, len(mid))
            if k not in public and n.omitted is None and p not in g[k]:
                return "%s is drawn as a child of %s, which is not its parent" % (k, p)
            if k in public and n.direct != (p in g[k]):
                return "%s is drawn %s below %s" % (k, "directly" if n.direct else "not directly", p)
        elif strict & d and not (k in public):
            return "%s is drawn apart from its ancestors %s" % (k, sorted(strict & d))
        below = descendants(g, k) - {k}
        if k in public and k != main:
            want = None
        elif below & d:
            want = None
        else:
            want = len(below & visible) or None
        if n.below != want:
            return "%s omitted descendants stated for %s, expected %s" % (n.below, k, want)
    for i, oid in dr.merges():
        x = names.get(oid)
        if x is None or not any(x != k and (x in ancestors(g, k) or k in ancestors(g, x)) for k in d):
            return "a merge with %s is drawn, which is not shown as a parent or child" % (x or oid)
    return None


def cases(g, tier, hide):
    yield None, ()
    yield None, ("--reverse",)
    yield None, ("--exact",)
    labs = list(g)
    sels = [(x,) for x in labs] + [tuple(labs)]
    if tier == "thorough" or len(hide) < 2:
        sels += itertools.combinations(labs, 2)
    for sel in sels:
        for opt in ((), ("--exact",), ("--reverse",)):
            if opt == ("--reverse",) and len(sel) != 1:
                continue
            yield sel, opt


def run_unit(u, ctx):
    g, br0, head = u["g"], u["br"], u["head"]
    ds, ms = drafts(g), mains(g)
    main = ms[-1]
    for hide in subsets(ds):
        if len(ds) > 3 and len(hide) > 2 or hide and u.get("unobserved"):
            continue
        br = dict(br0)
        r, oids = make(ctx, g, branches=br, head=head, observe=() if u.get("unobserved") else None)
        names = {v: k for k, v in oids.items()}
        if hide:
            # keep the branches, so that hidden commits with branches are covered too
            r.ok("branchless", "hide", "--no-delete-branches", *[oids[k] for k in hide])
        at = br[head[11:]] if head[11:] in br and head.startswith("refs/") else main if head.startswith("refs/") else head
        tips = [k for k in ds if k not in hide and not u.get("unobserved")] + list(br.values()) + [at, main]
        visible = set().union(*(ancestors(g, t) for t in tips))
        refs = dict(br, master=main)
        before = r.user_state()
        last = None
        for sel, opt in cases(g, ctx.tier, hide):
            if sel is None:
                tipset = [k for k in visible if k not in ancestors(g, main)] + list(refs.values()) + [at]
                want_sel = set().union(*(ancestors(g, t) for t in tipset)) - ancestors(g, main)
                want_sel |= set(refs.values()) | {at}
                args = list(opt)
            else:
                if not set(sel) <= visible:
                    continue
                want_sel = set(sel)
                args = list(opt) + [" | ".join(oids[k] for k in sel)]
            if "only" in u and u["only"] != [list(hide), list(sel) if sel is not None else None, list(opt)]:
                continue
            d = expected(g, want_sel, main, at, "--exact" in opt)
            out, _ = smartlog.run(r, *args)
            ctx.transition()
            ctx.evaluation()
            if out.rc != 0 or out.timeout or out.panicked():
                msg = "failed"
            else:
                try:
                    msg = compare(out.out, names, g, d, set(hide), visible, at, main, refs, "--reverse" in opt)
                except Exception as e:  # an unreadable drawing is a wrong one
                    msg = "drawing not readable: %r" % e
            ctx.outcome("%s %s" % ("default" if sel is None else "%d selected" % len(sel), " ".join(opt)))
            if msg:
                label = "graph [%s] HEAD %s branches %s hidden %s: smartlog %s of %s" % (
                    fmt(g), head, sorted(br), list(hide), list(opt), list(sel) if sel is not None else "default")
                ctx.violation(label, label + "\n" + msg + "\n" + text(out.out, names) + out.err,
                              dict(u, only=[list(hide), list(sel) if sel is not None else None, list(opt)]))
            last = out
        ctx.state([fmt(g), head, sorted(br.items()), list(hide)])
        after = r.user_state()
        if before != after:
            label = "graph [%s] HEAD %s branches %s hidden %s: smartlog" % (fmt(g), head, sorted(br), list(hide))
            ctx.violation(label, label + "\nchanged the repository: %s -> %s" % (before, after), u)
        if hide == ():
            ctx.sample({"graph": fmt(g), "head": head, "drawing": text(last.out, names) if last else ""})
        r.remove()


def text(t, names):
    for oid, k in names.items():
        t = t.replace(oid, "<%s>" % k)
    return t
