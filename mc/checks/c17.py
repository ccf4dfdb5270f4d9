"""C17: revset expressions denote the documented commit sets."""
import itertools
import re

from .. import graphs
from ..graphs import ancestors, descendants, children, mains, drafts
from ..repo import build_repo, GIT

PROPERTY = "C17"
LEVEL = "model_checking"
TECHNIQUE = ("exhaustive enumeration of revset expressions up to a depth over a set of small repositories, evaluated by the real `git branchless "
             "query` and by a reference parser and evaluator over the visible commit graph")
BOUND = {
    "quick": "7 repositories (stack, fork, merges, octopus merge, hidden commits, branches, rewritten commit; HEAD in different places); every function and operator "
             "on every commit and every named set, every operator on all pairs of commits, all compositions of two functions; on one repository "
             "all unparenthesised combinations of 3 operands with 2 binary operators and of prefix and postfix operators; text patterns, string "
             "escapes, aliases, dates, malformed expressions",
    "thorough": "the operator combinations on every repository",
}
ASSUMPTIONS = ["a whole argument which Git itself understands (such as x^2) denotes what Git says",
               "roots and heads are defined through parents, as in Mercurial", "x^0 is not explored"]

DAY = 86400
REPOS = {
    "stack": dict(g={"m0": [], "m1": ["m0"], "a": ["m0"], "b": ["a"], "c": ["b"]}, head="b", branches={"one": "c"}, hide=[]),
    "fork": dict(g={"m0": [], "m1": ["m0"], "m2": ["m1"], "a": ["m1"], "b": ["a"], "c": ["a"], "d": ["m0"]}, head="a",
                 branches={"one": "b", "two": "m0", "three": "b"}, hide=[]),
    "hidden": dict(g={"m0": [], "m1": ["m0"], "a": ["m0"], "b": ["a"], "c": ["a"], "d": ["c"], "e": ["b"]}, head="refs/heads/master",
                   branches={"one": "e"}, hide=["a", "c", "d"]),
    "merge": dict(g={"m0": [], "m1": ["m0"], "a": ["m0"], "b": ["m1"], "c": ["b", "a"], "d": ["c"]}, head="d", branches={}, hide=["d"]),
    "mainmerge": dict(g={"m0": [], "m1": ["m0"], "x": ["m0"], "m2": ["m1", "x"], "a": ["m2"], "b": ["x"], "c": ["a", "b"]}, head="m1",
                      branches={"one": "c"}, hide=[]),
    "octopus": dict(g={"m0": [], "a": ["m0"], "b": ["m0"], "c": ["m0"], "d": ["b", "c", "a"], "e": ["d"]}, head="a",
                    branches={"one": "e"}, hide=["c"]),
    "rewritten": dict(g={"m0": [], "m1": ["m0"], "a": ["m0"], "b": ["a"], "c": ["b"], "d": ["a"]}, head="d", branches={}, hide=[], reword="b"),
}
UNARY = ["ancestors(%s)", "descendants(%s)", "parents(%s)", "children(%s)", "siblings(%s)", "roots(%s)", "heads(%s)", "not(%s)", "stack(%s)",
         ":%s", "%s:", "::%s", "%s::", "..%s", "%s..", "%s^", "%s^2", "%s~", "%s~2", "parents.nth(%s, 1)", "ancestors.nth(%s, 0)",
         "parents.nth(%s, 2)", "(%s)^3", "ancestors.nth(%s, 2)"]
CORE1 = UNARY[:9] + ["%s^", "%s~2", "..%s"]
BINARY = ["|", "&", "-", "%", ":", ".."]
ALLBIN = ["|", "+", "or", "&", "and", "-", "%", ":", "::", ".."]
SETS = ["all()", "none()", "main()", "public()", "draft()", "stack()", "merges()", "branches()", ".", "@", "HEAD"]


def units(tier):
    for name in REPOS:
        for u in UNARY:
            yield {"repo": name, "kind": "unary", "op": u}
        for op in BINARY:
            yield {"repo": name, "kind": "binary", "op": op}
        yield {"repo": name, "kind": "sets"}
        yield {"repo": name, "kind": "hidden"}
    for name in REPOS:
        for u in CORE1:
            yield {"repo": name, "kind": "nested", "op": u}
    for name in REPOS if tier == "thorough" else ["merge"]:
        for op in ALLBIN:
            yield {"repo": name, "kind": "chain", "op": op}
        for pre in ("", ":", ".."):
            for post in ("", ":", "..", "^", "~2", "~^2"):
                yield {"repo": name, "kind": "affix", "op": [pre, post]}
    for name in ("text",):
        yield {"repo": name, "kind": "text"}
        yield {"repo": name, "kind": "errors"}
        yield {"repo": name, "kind": "dates"}
    yield {"repo": "hidden", "kind": "alias"}
    yield {"repo": "rewritten", "kind": "current"}


def T(k):
    return "t_" + k


def exprs(u, spec):
    ks = [T(k) for k in spec["g"]] if spec else []
    kind, op = u["kind"], u.get("op")
    if kind == "unary":
        for x in ks + SETS[:8]:
            yield op % x
        yield op % "(%s | %s)" % (ks[-1], ks[-2])
    elif kind == "binary":
        for x, y in itertools.product(ks, ks):
            yield "%s %s %s" % (x, op, y)
        for x, y in (("draft()", "public()"), ("all()", ks[0]), ("draft()", ks[-1]), ("none()", ks[-1]), (ks[-1], "none()"), ("branches()", "main()")):
            yield "%s %s %s" % (x, op, y)
    elif kind == "sets":
        yield from SETS
        for f, a in (("union", 2), ("intersection", 2), ("difference", 2), ("only", 2), ("range", 2)):
            for x, y in itertools.permutations(ks[1:], 2):
                yield "%s(%s, %s)" % (f, x, y)
        for x in ["draft()", "all()", "none()", ks[-1], "branches()"]:
            for n in (0, 1, 2, 3):
                yield "exactly(%s, %d)" % (x, n)
        for b in ("one", "master", "t", "exact:t", "glob:t*", "regex:^t"):
            yield 'branches("%s")' % b
    elif kind == "nested":
        for v in CORE1:
            for x in [ks[-1], ks[1], "(%s | %s)" % (ks[2], ks[3])]:
                inner = v % x
                yield op % ("(%s)" % inner if "%s(" not in op and not re.fullmatch(r"[\w.]+\(.*\)", inner) else inner)
    elif kind == "chain":
        for o2 in ALLBIN:
            for x, y, z in ((ks[-1], ks[1], ks[2]), ("all()", ks[3], ks[2]), ("draft()", ks[4], "(%s | %s)" % (ks[0], ks[2]))):
                yield "%s %s %s %s %s" % (x, op, y, o2, z)
    elif kind == "affix":
        pre, post = op
        x, y = ks[4], ks[3]
        for o, p2, q2 in itertools.product(["|", "&", "-", "%", ":", ".."], ("", ":", ".."), ("", ":", "..", "^", "~2")):
            yield "%s%s%s %s %s%s%s" % (pre, x, post, o, p2, y, q2)
            yield "(%s%s%s)%s%s%s%s" % (pre, x, post, o if o in ":.." else " %s " % o, p2, y, q2)


# -- reference -------------------------------------------------------------
class Bad(Exception):
    """The expression has to be rejected."""


TOKEN = re.compile(r"""\s*(::|\.\.|(?:[a-zA-Z0-9_$@/-]|\.[a-zA-Z0-9_$@/-])+|\.|[|+&%:^~(),-]|"(?:\\.|[^"\\])*"|'(?:\\.|[^'\\])*')""", re.S)


# the known defect: a quote ends the literal even after a backslash, and everything after the first backslash counts as escaped
DEFECT = re.compile(TOKEN.pattern.replace(r'(?:\\.|[^"\\])*', '[^"]*').replace(r"(?:\\.|[^'\\])*", "[^']*"), re.S)
ESCAPE = {"n": "\n", "r": "\r", "t": "\t"}


def decode(t, defect):
    if not defect:
        return re.sub(r"\\(.)", lambda m: ESCAPE.get(m.group(1), m.group(1)), t, flags=re.S)
    a, b, rest = t.partition("\\")
    return a + "".join(ESCAPE.get(c, c) for c in rest)


def tokens(s, defect=False):
    res, i = [], 0
    s = s.rstrip()
    while i < len(s):
        m = (DEFECT if defect else TOKEN).match(s, i)
        if not m:
            raise Bad("no token at %r" % s[i:])
        t = m.group(1)
        if t[0] in "\"'":
            res.append(("name", decode(t[1:-1], defect)))
        elif t in ("or", "and", "-") or re.fullmatch(r"::|\.\.|[|+&%:^~(),]", t):
            res.append(("op", t))
        else:
            res.append(("name", t))
        i = m.end()
    return res


class Parser:
    def __init__(self, s, defect=False):
        self.t, self.i = tokens(s, defect), 0

    def peek(self):
        return self.t[self.i] if self.i < len(self.t) else ("end", "")

    def op(self, *ops):
        k, v = self.peek()
        if k == "op" and v in ops:
            self.i += 1
            return v
        return None

    def operand_ahead(self):
        return self.peek()[0] == "name" or self.peek() == ("op", "(")

    def parse(self):
        e = self.p1()
        if self.peek()[0] != "end":
            raise Bad("trailing input")
        return e

    def p1(self):
        e = self.p2()
        while self.op("|", "+", "or"):
            e = ("union", [e, self.p2()])
        return e

    def p2(self):
        e = self.p3()
        while True:
            o = self.op("&", "and", "-", "%")
            if not o:
                return e
            e = ({"&": "intersection", "and": "intersection", "-": "difference", "%": "only"}[o], [e, self.p3()])

    def p3(self):
        dot = ("name", ".")
        o = self.op(":", "::", "..")
        if o:
            x = self.p4()
            e = ("only", [x, dot]) if o == ".." else ("ancestors", [x])
        else:
            e = self.p4()
        while True:
            o = self.op(":", "::", "..")
            if not o:
                return e
            if self.operand_ahead():
                x = self.p4()
                e = ("only", [x, e]) if o == ".." else ("range", [e, x])
            else:
                e = ("only", [dot, e]) if o == ".." else ("descendants", [e])

    def p4(self):
        e = self.p5()
        while True:
            o = self.op("^", "~")
            if not o:
                return e
            n = ("name", "1")
            if self.peek()[0] == "name":
                n = ("name", self.peek()[1])
                self.i += 1
            e = ("parents.nth" if o == "^" else "ancestors.nth", [e, n])

    def p5(self):
        if self.op("("):
            e = self.p1()
            if not self.op(")"):
                raise Bad("unbalanced")
            return e
        k, v = self.peek()
        if k != "name":
            raise Bad("expected an operand")
        self.i += 1
        if self.op("("):
            args = []
            while not self.op(")"):
                args.append(self.p1())
                if not self.op(","):
                    if not self.op(")"):
                        raise Bad("bad arguments")
                    break
            return (v, args)
        return ("name", v)


class Model:
    def __init__(self, spec, r, oids, hidden=False):
        g = self.g = dict(spec["g"])
        self.names = {T(k): k for k in g}
        self.rew = {}
        self.head = mains(g)[-1] if spec["head"].startswith("refs/") else spec["head"]
        gone = set(spec["hide"])
        if spec.get("reword"):
            x = spec["reword"]
            for k in descendants(g, x):
                self.rew[k] = k + "'"
            for k in [k for k in g if k in self.rew]:
                g[k + "'"] = [self.rew.get(p, p) for p in g[k]]
            gone |= set(self.rew)
            self.head = self.rew.get(self.head, self.head)
        self.branches = dict(spec["branches"], master=mains(spec["g"])[-1])
        self.main = mains(spec["g"])[-1]
        keep = [k for k in g if hidden or k not in gone] + list(self.branches.values()) + [self.head]
        self.vis = set().union(*[ancestors(g, k) for k in keep])
        self.names.update({".": self.head, "@": self.head, "HEAD": self.head})
        self.names.update(self.branches)
        self.aliases = spec.get("aliases", {})

    def ev(self, e, vis=None):
        vis = self.vis if vis is None else vis
        f, args = e
        if f == "name":
            if args not in self.names:
                raise Bad("unknown name %s" % args)
            return {self.names[args]}
        return self.fn(f, args, vis) & vis

    def number(self, e):
        if e[0] != "name" or not re.fullmatch(r"\d+", e[1]):
            raise Bad("not a number")
        if int(e[1]) >= 2 ** 64:
            raise Bad("too large")
        return int(e[1])

    def fn(self, f, args, vis):
        g = self.g
        anc = lambda s: set().union(*[ancestors(g, k) for k in s])
        desc = lambda s: set().union(*[descendants(g, k) for k in s])
        kids = lambda s: set().union(*[children(g, k) for k in s])
        par = lambda s: {p for k in s for p in g[k]}
        public = ancestors(g, self.main)
        draft = self.vis - public
        zero = {"all": lambda: self.vis, "none": set, "main": lambda: {self.main}, "public": lambda: public, "draft": lambda: draft,
                "merges": lambda: {k for k in g if len(g[k]) > 1}}
        one = {"ancestors": anc, "descendants": desc, "parents": par, "children": kids, "siblings": lambda s: kids(par(s)) - s,
               "roots": lambda s: {k for k in s if not set(g[k]) & s}, "heads": lambda s: s - par(s), "not": lambda s: self.vis - s}
        two = {"union": lambda a, b: a | b, "intersection": lambda a, b: a & b, "difference": lambda a, b: a - b,
               "only": lambda a, b: anc(a) - anc(b), "range": lambda a, b: desc(a) & anc(b)}
        if f in zero:
            n, res = 0, zero[f]
        elif f in one:
            n, res = 1, lambda: one[f](self.ev(args[0], vis))
        elif f in two:
            n, res = 2, lambda: two[f](self.ev(args[0], vis), self.ev(args[1], vis))
        elif f in ("parents.nth", "ancestors.nth"):
            def res():
                s, n = self.ev(args[0], vis), self.number(args[1])
                if f == "parents.nth":
                    return {g[k][n - 1] for k in s if 0 < n <= len(g[k])}
                for _ in range(min(n, 1000)):
                    s = {g[k][0] for k in s if g[k]}
                return s
            n = 2
        elif f == "exactly":
            def res():
                s = self.ev(args[0], vis)
                if len(s) != self.number(args[1]):
                    raise Bad("wrong size")
                return s
            n = 2
        elif f == "stack":
            def res():
                s = self.ev(args[0], vis) if args else {self.head}
                roots = {k for k in draft if not set(g[k]) & draft}
                return desc({x for x in roots if x in anc(s)}) & draft
            n = len(args) if len(args) < 2 else 1
        elif f == "branches":
            if not args:
                return set(self.branches.values())
            def res():
                m = self.pattern(args[0])
                return {k for b, k in self.branches.items() if m(b)}
            n = 1
        elif f in ("message", "author.name", "author.email", "committer.name", "paths.changed"):
            def res():
                m = self.pattern(args[0])
                return {k for k in g if any(m(x) for x in self.text[f][k])}
            n = 1
        elif f == "current":
            n, res = 1, lambda: {self.rew.get(k, k) for k in self.ev(args[0], set(g))}
        elif f in self.aliases:
            sub = {"$%d" % (i + 1): a for i, a in enumerate(args)}
            return self.ev(replace(Parser(self.aliases[f]).parse(), sub), vis)
        else:
            raise Bad("unknown function %s" % f)
        if len(args) != n:
            raise Bad("arity")
        return set(res())

    def pattern(self, e):
        if e[0] != "name":
            raise Bad("not a pattern")
        k, _, v = e[1].partition(":")
        if k == "exact":
            return lambda s: s == v
        if k in ("substr", "substring"):
            return lambda s: v in s
        if k == "glob":
            rx = "".join(".*" if c == "*" else "." if c == "?" else re.escape(c) for c in v)
            return lambda s: re.fullmatch(rx, s, re.S) is not None
        if k == "regex":
            try:
                rx = re.compile(v)
            except re.error:
                raise Bad("bad regex")
            return lambda s: rx.search(s) is not None
        return lambda s: e[1] in s


def replace(e, sub):
    f, args = e
    if f == "name":
        return sub.get(args, e)
    return (f, [replace(a, sub) for a in args])


def by_git(m, s):
    """What Git itself makes of the whole argument, if anything."""
    x = re.fullmatch(r"([\w.@]+?)((?:[\^~]\d*)*)", s.strip())
    if not x or x.group(1) not in m.names or x.group(1) == ".":
        return None
    k = m.names[x.group(1)]
    for o, n in re.findall(r"([\^~])(\d*)", x.group(2)):
        n = int(n or 1)
        if o == "^":
            if n > len(m.g[k]):
                return None
            k = m.g[k][n - 1]
        else:
            for _ in range(n):
                if not m.g[k]:
                    return None
                k = m.g[k][0]
    return {k}


# -- running ---------------------------------------------------------------
TEXT = {
    "m0": ("initial\n", "A <a@x>"),
    "m1": ("second (master)\n\nbody a\\b\n", "Bea Tee <b@x>"),
    "a": ("tab\there\n", "Bea Tee <b@x>"),
    "b": ('say "quoted" (x)\n', "A <a@y>"),
    "c": ("it's nt\n\nlong\ntrailing text", "Al <al@x>"),
    "d": ("a\\nb tnr\n", "A <a@x>"),
}


def setup(u, ctx):
    if u["repo"] == "text":
        g = {"m0": [], "m1": ["m0"], "a": ["m0"], "b": ["a"], "c": ["b"], "d": ["a"]}
        spec = dict(g=g, head="d", branches={}, hide=[])
        files = {"m0": {"src/x": "1"}, "m1": {"src/x": "2", "y": "1"}, "a": {"src/x": "1", "z": "1"}, "b": {"src/x": "1"},
                 "c": {"src/x": ("100755", "1")}, "d": {"src/x": "1", "z": "1", "w/src": "1"}}
        changed = {"m0": ["src/x"], "m1": ["src/x", "y"], "a": ["z"], "b": ["z"], "c": ["src/x"], "d": ["w/src"]}
        commits = [(k, g[k], files[k], i * DAY, TEXT[k][0], (10 - i) * DAY, TEXT[k][1]) for i, k in enumerate(g)]
    else:
        spec = dict(REPOS[u["repo"]])
        g = spec["g"]
        commits = [(k, g[k], {"f_" + k: k}, i * 10, k + "\n") for i, k in enumerate(g)]
    config = None
    if u["kind"] == "alias":
        spec["aliases"] = {"d": "draft()", "both": "$1 | $2", "first": "$1", "swap": "difference($2, $1)", "nest": "both($1, d()) & not($1)",
                           "below": "descendants($1) - $1", "stack": "none()"}
        config = {"branchless.revsets.alias." + k: v for k, v in spec["aliases"].items()}
        spec["aliases"].pop("stack")
    ms = [k for k in g if k.startswith("m")]
    r, oids = build_repo(ctx.tmp(), commits, ms[-1], drafts=[k for k in g if k not in ancestors(g, ms[-1])], branches=spec["branches"],
                         head=spec["head"], hide=spec["hide"], config=config)
    r.run([GIT, "-c", "core.hooksPath=/dev/null", "update-ref", "--stdin"],
          input="".join("create refs/tags/%s %s\n" % (T(k), oids[k]) for k in g))
    m = Model(spec, r, oids, hidden=u["kind"] == "hidden")
    if spec.get("reword"):
        out = r.gb("reword", "-m", "reworded", oids[spec["reword"]])
        if out.rc != 0:
            raise Exception(repr(out))
        for o in r.query("draft()"):
            k = r.commit(o).label
            k = spec["reword"] if k == "reworded" else k
            if k in m.rew:
                oids[k + "'"] = o
    if u["repo"] == "text":
        m.text = {"message": {k: [TEXT[k][0][:-1] if TEXT[k][0].endswith("\n") else TEXT[k][0]] for k in g},
                  "author.name": {k: [TEXT[k][1].split(" <")[0]] for k in g},
                  "author.email": {k: [TEXT[k][1].split("<")[1][:-1]] for k in g},
                  "committer.name": {k: ["C O Mitter"] for k in g},
                  "paths.changed": changed}
    return spec, m, r, oids


def extra(u, spec):
    k = u["kind"]
    if k == "hidden":
        for x in ["all()", "draft()", "public()", "stack()", "not(draft())", "heads(draft())"] + [f % T(c) for c in spec["g"] for f in
                                                                                             ("children(%s)", "descendants(%s)", "ancestors(%s)", "siblings(%s)", "%s")]:
            yield x
    elif k == "text":
        for f in ("message", "author.name", "author.email", "committer.name", "paths.changed"):
            for p in ("a", "A", "exact:A", "x", "exact:initial", "regex:^a", "regex:x$", "glob:*x*", "glob:A", "glob:src/*", "glob:*/x", "substr:src", "b@x",
                      "exact:src/x", "substring:z", "text", "mit", "Mit"):
                yield '%s("%s")' % (f, p)
        for p in ("tab\\there", "\\\"quoted\\\"", "it's", "a\\\\nb", "a\\\\nb tnr", "a\\\\b", "(x)", "it\\'s nt", "\\\\", "\\n", "exact:say \\\"quoted\\\" (x)",
                  "a\\\\nb \\tnr", "\\x", "long\\ntrailing text", "nt\\n\\nlong\\ntrail", ""):
            yield 'message("%s")' % p
        for p in ("say \"quoted\"", "it\\'s nt", "tab\\there", "(x)", "initial"):
            yield "message('%s')" % p
        yield "message(initial)"
        yield "message(a-b) | message(it)"
        yield "message('(x)') & author.name(A) | message(\"second (master)\")"
    elif k == "errors":
        for x in ("(", ")", "", "t_a |", "| t_a", "t_a t_b", "foo()", "foo(t_a)", "nosuch", "nosuch | t_a", "all(t_a)", "ancestors()", "ancestors(t_a, t_b)",
                  "union(t_a)", "t_a^x | t_b", "t_a~b | t_a", "parents.nth(t_a, t_b)", "message(all())", "message()", "message('a', 'b')", "message(\"a)",
                  "message('regex:(')", "exactly(t_a, 2)", "exactly(t_a | t_b, x)", "t_a -t_b", "t_a &", "& t_a", "t_a ^^^^ | none(", "()", ",", "all(,)", "all(,",
                  "stack(t_a, t_b)", "branches('a', 'b')", "t_a~99999999999999999999999 | t_b", "t_a^99999999999999999999999 | t_b", "\"", "'\\'"):
            yield x
    elif k == "alias":
        for x in ("d()", "both(t_a, t_e)", "both(t_a | t_b, main())", "first(t_b)", "first(t_b:)", "swap(t_e, all())", "swap(t_b, t_b)", "nest(t_b)", "nest(t_e)",
                  "below(t_a)", "below(t_b | t_c)", "both(d(), nest(t_m0))", "stack(t_e)", "both(t_a)", "d(t_a)", "both(both(t_a, t_b), both(t_e, t_m1))"):
            yield x
    elif k == "current":
        for x in ("t_b", "t_c", "t_a", "t_b | t_c", "children(t_a)", "t_b:", "t_d", "t_c^", "all()", "descendants(t_a)", ":t_c", "t_m0"):
            yield "current(%s)" % x
            yield "current(%s) & draft()" % x
        yield "current(current(t_b))"


def run_unit(u, ctx):
    spec, m, r, oids = setup(u, ctx)
    if "only" in u:
        todo = u["only"]
    elif u["kind"] == "dates":
        todo = []
    else:
        todo = list(dict.fromkeys(itertools.chain(exprs(u, spec) if u["repo"] != "text" else [], extra(u, spec))))
    for s in todo:
        evaluate(ctx, u, m, r, oids, s)
    if u["kind"] == "dates":
        dates(ctx, u, m, r, oids)
    r.remove()


def dates(ctx, u, m, r, oids):
    """Commit i was committed i days after 2020-09-13 12:26:40 and authored 10 - i days after it."""
    ks = list(m.g)
    for f, when in (("committer.date", {k: i for i, k in enumerate(ks)}), ("author.date", {k: 10 - i for i, k in enumerate(ks)})):
        for d in range(0, 12):
            for p in ("before", "after"):
                # midnight before day d
                want = {k for k in ks if (when[k] < d) == (p == "before")}
                evaluate(ctx, u, m, r, oids, "%s('%s:2020-09-%02d')" % (f, p, 13 + d), want)
        evaluate(ctx, u, m, r, oids, "%s('after:3 days ago')" % f, set())
        evaluate(ctx, u, m, r, oids, "%s('before:3 days ago')" % f, set(ks))


def evaluate(ctx, u, m, r, oids, s, want=None):
    if want is None:
        try:
            want = by_git(m, s)
            if want is None:
                want = m.ev(Parser(s).parse())
        except Bad as e:
            want = e
    out = r.gb("query", "-r", *(["--hidden"] if u["kind"] == "hidden" else []), "--", s)
    ctx.transition()
    ctx.evaluation()
    ctx.state([u["repo"], u["kind"], s])
    msg = None
    inv = {v: k for k, v in oids.items()}
    got = out.out.split()
    if isinstance(want, Bad):
        ctx.outcome("rejected")
        if out.rc == 0:
            msg = "accepted, expected an error (%s); result %s" % (want, sorted(inv.get(x, x) for x in got))
    elif out.rc != 0:
        msg = "rejected, expected %s" % sorted(want)
    else:
        names = [inv.get(x, x) for x in got]
        ctx.outcome("empty" if not want else "non-empty")
        if sorted(names) != sorted(want):
            msg = "result %s, expected %s" % (sorted(names), sorted(want))
        elif any(x in ancestors(m.g, y) for i, y in enumerate(names) for x in names[i + 1:]):
            msg = "not in topological order: %s" % names
    if out.panicked() and not (isinstance(want, Bad)):
        msg = "crashed"
    if msg and "\\" in s and not out.panicked():
        try:
            other = m.ev(Parser(s, defect=True).parse())
        except Bad:
            other = None
        if (out.rc != 0) if other is None else (out.rc == 0 and sorted(inv.get(x, x) for x in got) == sorted(other)):
            ctx.outcome("known: escapes")
            return ctx.violation("string escapes", "%s\n%s\n%r" % (s, msg, out), dict(u, only=[s]))
    if msg:
        label = "%s%s: %s" % (u["repo"], " --hidden" if u["kind"] == "hidden" else "", s)
        ctx.violation(label, label + "\n" + msg + "\n" + repr(out), dict(u, only=[s]))
    else:
        ctx.sample("%s: %s -> %s" % (u["repo"], s, "error" if isinstance(want, Bad) else sorted(want)))
