"""C31: repairing forgets exactly what no longer exists."""
import itertools
import os
import re
import sqlite3

from .. import smartlog
from ..graphs import ancestors, descendants, drafts, fmt, make
from ..repo import QueryFailed

PROPERTY = "C31"
LEVEL = "model_checking"
TECHNIQUE = ("exhaustive enumeration of (commit graph, hidden commits, HEAD, vanished commits, vanished branches); each is "
             "built, damaged and repaired with the real binary and compared with a model of what is left")
BOUND = {
    "quick": "4 graphs of 2-3 drafts with a branch on each; every hidden set of <=1 commit or one amended commit; every set of vanished commits "
             "closed under descendants; every set of vanished branches (including those on vanished commits); HEAD on main, "
             "detached or on a branch that is left; dry run, repair, second repair",
    "thorough": "as quick with every hidden set",
}
ASSUMPTIONS = ["commits vanish together with everything on top of them and the branches there"]

GRAPHS = [
    {"m0": [], "m1": ["m0"], "a": ["m0"], "b": ["a"]},
    {"m0": [], "m1": ["m0"], "a": ["m0"], "b": ["m1"]},
    {"m0": [], "m1": ["m0"], "a": ["m0"], "b": ["a"], "c": ["a"]},
    {"m0": [], "m1": ["m0"], "a": ["m1"], "b": ["a"], "c": ["m0"]},
]
NAMES = {"a": "feature/one", "b": "two", "c": "one"}


def subsets(xs):
    for n in range(len(xs) + 1):
        yield from itertools.combinations(xs, n)


def units(tier):
    for i, g in enumerate(GRAPHS):
        ds = drafts(g)
        for hide in subsets(ds):
            if len(hide) > 1 and tier == "quick":
                continue
            for head in ["refs/heads/master"] + ds + ["refs/heads/" + NAMES[k] for k in ds]:
                yield {"graph": i, "hide": list(hide), "head": head}
        for head in ("refs/heads/master", "b", "refs/heads/two"):
            yield {"graph": i, "hide": [], "head": head, "amend": True}


def log(r):
    con = sqlite3.connect(os.path.join(r.gitdir, "branchless", "db.sqlite3"))
    try:
        return con.execute("select * from event_log").fetchall()
    finally:
        con.close()


def found(out):
    """What the command reports as broken."""
    res = {"commit": set(), "branch": set()}
    for n, kind, rest in re.findall(r"^Found and repaired (\d+) broken (commit|branch)(?:e?s)?: (.*)$", out.out, re.M):
        res[kind] = set(rest.split(", "))
        if int(n) != len(res[kind]):
            raise ValueError("%s %s stated, %s listed" % (n, kind, rest))
    return res


def run_unit(u, ctx):
    g = GRAPHS[u["graph"]]
    ds = drafts(g)
    br = {NAMES[k]: k for k in ds}
    base, oids = make(ctx, g, branches=br, head=u["head"], hide=u["hide"])
    at = br[u["head"][11:]] if u["head"][11:] in br else "m1" if u["head"].startswith("refs/") else u["head"]
    old = {}
    if u.get("amend"):
        # the commits before amending are no longer needed by anything
        here = base.head()
        base.clock += 10
        for k in ("b", "c"):
            if k in g and g[k] != ["m0"]:
                base.ok("checkout", "-q", NAMES[k])
                base.write("f_" + k, "amended\n")
                base.ok("commit", "-q", "-a", "--amend", "-m", k)
                old[k], oids[k] = oids[k], base.head_oid()
        base.ok("checkout", "-q", *(["--detach", oids[at]] if here[0] == "oid" else [here[1][11:]]))
    names = {v: k for k, v in oids.items()}
    for lost in subsets(ds):
        if at in lost or any(descendants(g, k) - set(lost) for k in lost):
            continue
        must = [n for n, k in br.items() if k in lost]
        for more in subsets([n for n in br if n not in must and "refs/heads/" + n != u["head"]]):
            case = [list(lost), must + list(more)]
            if "only" in u and u["only"] != case:
                continue
            one(ctx, u, base, g, br, oids, old, names, at, case)
    base.remove()


def one(ctx, u, base, g, br, oids, old, names, at, case):
    lost, gone = case
    w = base.copy(ctx.tmp())
    label = "graph [%s] hidden %s%s HEAD %s, vanished commits %s branches %s" % (
        fmt(g), u["hide"], " amended" if u.get("amend") else "", u["head"], lost, gone)
    out = None

    def bad(msg):
        ctx.violation(label + "|" + msg.split(":")[0], label + "\n" + msg + "\n" + repr(out), dict(u, only=case))

    for n in gone:
        w.plain("update-ref", "-d", "refs/heads/" + n)
    missing = [oids[k] for k in lost] + [o for o in old.values()]
    for o in missing:
        ref = os.path.join(w.gitdir, "refs", "branchless", o)
        if os.path.exists(ref):
            os.remove(ref)
        os.remove(os.path.join(w.gitdir, "objects", o[:2], o[2:]))
    ctx.transition()
    refs = w.user_refs()
    still = {n: k for n, k in br.items() if n not in gone}
    tips = [k for k in drafts(g) if k not in u["hide"] and k not in lost] + list(still.values()) + [at, "m1"]
    visible = sorted({oids[k] for t in tips for k in ancestors(g, t)})
    want = {"commit": set(missing), "branch": set(gone)}
    user = lambda: w.user_state(visible=False)
    before, events = user(), log(w)
    out = w.gb("repair")
    ctx.transition()
    ctx.evaluation()
    try:
        if out.rc != 0:
            return bad("dry run failed")
        if found(out) != want:
            return bad("dry run reports: %s, expected %s" % (found(out), want))
        if user() != before or log(w) != events:
            return bad("dry run changed something")
        out = w.gb("repair", "--no-dry-run")
        ctx.transition()
        if out.rc != 0:
            return bad("repair failed")
        if found(out) != want:
            return bad("repair reports: %s, expected %s" % (found(out), want))
        if user() != before:
            return bad("repair changed the repository")
        if log(w)[:len(events)] != events:
            return bad("repair changed earlier events")
        out = w.gb("repair", "--no-dry-run")
        ctx.transition()
        if out.rc != 0 or found(out)["branch"] or not found(out)["commit"] <= want["commit"]:
            return bad("second repair")
        vis = sorted(w.query("all()"))
        if vis != visible:
            return bad("visible: %s, expected %s" % ([names.get(o, o) for o in vis], [names[o] for o in visible]))
        # the recorded position of every branch is its actual one
        out, nodes = smartlog.run(w, "--event-id=1000000")
        ctx.transition()
        if out.rc != 0:
            return bad("smartlog failed")
        shown = {b: n.oid for n in nodes for b in n.branches}
        if shown != {n[11:]: o for n, o in refs.items() if n.startswith("refs/heads/")}:
            return bad("recorded branches: %s" % {b: names.get(o, o) for b, o in shown.items()})
        out, nodes = smartlog.run(w)
        ctx.transition()
        if out.rc != 0 or {n.oid for n in nodes} - set(visible):
            return bad("shown: %s" % sorted(names.get(n.oid, n.oid) for n in nodes))
    except (QueryFailed, ValueError) as e:
        return bad("unreadable: %s" % e)
    ctx.state([label])
    ctx.outcome("%d commits and %d branches vanished" % (len(missing), len(gone)))
    ctx.sample(label)
    w.remove()
