"""C10: the event log keeps every event, in order, under concurrent writers.

Real processes run under a scheduler: each operation on the log's database
(opening, locking, writing, syncing, deleting the journal) is reported by the
preloaded library (shim/shim.c) before it is carried out, and exactly one
process is allowed to go on at a time.  SQLite's waiting for a lock lets the
others run.  All schedules with a bounded number of preemptions are executed.
"""
import os
import sqlite3

from .. import core, shim
from ..repo import QueryFailed, build_repo, set_head

PROPERTY = "C10"
LEVEL = "model_checking"
TECHNIQUE = "stateless model checking of the real processes: every schedule with at most k preemptions at their database operations (preloaded library), log compared with the events of each process alone"
ASSUMPTIONS = [
    "preemptions only matter at operations on the database; runs of equal operations (e.g. consecutive writes to the journal) are one step in the quick tier",
    "waiting for a lock hands over to another process and takes no time",
    "reference names are valid UTF-8",
]
BOUND = {
    "quick": "10 pairs of processes: all schedules with 1 preemption, 1 pair with 2; 1 triple with 1 preemption; every printable ASCII character allowed in branch names and 8 others read back",
    "thorough": "10 pairs of processes: all schedules with 2 preemptions, 1 preemption without merging equal operations; 3 triples with 2 preemptions",
}

COMMITS = [
    ("m0", [], {"m": "0"}, 1),
    ("a", ["m0"], {"m": "0", "a": "1"}, 2),
    ("b", ["a"], {"m": "0", "a": "1", "b": "1"}, 3),
    ("c", ["m0"], {"m": "0", "c": "1"}, 4),
    ("d", ["m0"], {"m": "0", "d": "1"}, 5),
    ("e", ["d"], {"m": "0", "d": "1", "e": "1"}, 6),
]
# actor: (arguments, input)
ACTORS = {
    "hide b": (["hide", "%b"], None),
    "hide c": (["hide", "%c"], None),
    "hide b c": (["hide", "%b", "%c"], None),
    "unhide d": (["unhide", "%d"], None),
    "commit": (["hook", "post-commit"], None),
    "refs": (["hook", "reference-transaction", "committed"],
             "%Z %c refs/heads/one\n%a %b refs/heads/two\n%m0 %a refs/heads/three\n"),
    "checkout": (["hook", "post-checkout", "%a", "%b", "1"], None),
    "rewrite": (["hook", "post-rewrite", "amend"], "%a %c\n"),
    "read": (["query", "-r", "all()"], None),
}
PAIRS = [
    ("hide b", "hide c", False),
    ("commit", "refs", False),
    ("refs", "hide c", False),
    ("unhide d", "checkout", False),
    ("rewrite", "commit", False),
    ("hide c", "read", False),
    ("commit", "refs", True),   # the database does not exist yet
    ("refs", "checkout", False),
    ("hide b c", "read", False),
    ("refs", "hide b c", False),
]
TRIPLES = [("hide b", "refs", "commit"), ("hide c", "hide b", "checkout"), ("read", "refs", "hide c")]
TWO = {1}
NAMES = [chr(c) for c in range(33, 127) if chr(c) not in "~^:?*[\\"] + ["é", "日", " ", "🙂", "'; --", '"quoted"', "%s", "x" * 200]


def chunks(n):
    """Steps at which the first preemption happens; the last chunk is open."""
    cuts = list(range(0, 120, n))
    return list(zip(cuts, cuts[1:] + [10 ** 6]))


def units(tier):
    for s, names in enumerate(PAIRS + TRIPLES):
        triple = s >= len(PAIRS)
        if triple and tier == "quick" and s > len(PAIRS):
            continue
        names = names[:3] if triple else names[:2]
        fresh = not triple and PAIRS[s][2]
        k = 2 if tier == "thorough" or s in TWO else 1
        for first in range(len(names)):
            for lo, hi in chunks(6 if k > 1 else 40):
                yield dict(actors=list(names), fresh=fresh, first=first, lo=lo, hi=hi, k=k, merge=True)
            if tier == "thorough" and not triple:
                for lo, hi in chunks(40):
                    yield dict(actors=list(names), fresh=fresh, first=first, lo=lo, hi=hi, k=1, merge=False)
    for i in range(0, len(NAMES), 14):
        yield dict(names=NAMES[i:i + 14])


def prepare():
    shim.build()


# ---------------------------------------------------------------------------

def fixture(ctx, fresh):
    r, oids = build_repo(ctx.tmp("r"), COMMITS, "m0", drafts=["a", "b", "c", "d"], head="d", hide=["d"])
    set_head(r, ("oid", oids["e"]))
    oids["Z"] = "0" * 40
    if fresh:
        os.unlink(os.path.join(r.gitdir, "branchless", "db.sqlite3"))
    return r, oids


def fill(text, oids):
    for k in sorted(oids, key=len, reverse=True):
        text = text.replace("%" + k, oids[k])
    return text


def command(name, oids):
    args, inp = ACTORS[name]
    return [os.path.join(core.BIN, "git-branchless")] + [fill(a, oids) for a in args], \
        fill(inp, oids) if inp is not None else None


def rows(r):
    """[(transaction id, event)], {transaction id: message}"""
    path = os.path.join(r.gitdir, "branchless", "db.sqlite3")
    if not os.path.exists(path):
        return [], {}
    db = sqlite3.connect(path)
    try:
        check = db.execute("pragma integrity_check").fetchall()
        if check != [("ok",)]:
            raise sqlite3.DatabaseError("integrity check: %s" % check)
        ev = [(x[0], x[1:]) for x in db.execute(
            "select event_tx_id, type, old_ref, new_ref, ref_name, message from event_log order by rowid")]
        tx = dict(db.execute("select event_tx_id, message from event_transactions"))
        return ev, tx
    finally:
        db.close()


def groups(ev, tx, skip, skip_tx):
    """The transactions recorded after the first `skip` events, in order."""
    res, order = {}, []
    for t, e in ev[skip:]:
        if t not in res:
            res[t] = []
            order.append(t)
        res[t].append(e)
    return [(tx.get(t), tuple(res[t])) for t in order], [tx[t] for t in sorted(tx) if t not in skip_tx and t not in res], \
        [t for t in order if t in skip_tx]


class Stuck(Exception):
    pass


def execute(r, oids, names, first, preempt, merge):
    """Run the actors under a schedule.  preempt: {step: actor to run instead}.
    Returns the results and the number of steps, with who could have run."""
    c = shim.Controller("db", r.path)
    try:
        waiting = {}
        running = set()
        for i, n in enumerate(names):
            args, inp = command(n, oids)
            c.start(str(i), args, r.path, r.clock, input=inp)
            running.add(str(i))
        exited = set()
        last = {}
        step = 0
        steps = []
        cur = str(first)
        free = set(running)     # neither waiting for permission nor finished
        while True:
            while free:
                try:
                    evs = c.events(30)
                except TimeoutError:
                    raise Stuck("no progress: running %s, waiting %s" % (sorted(free), waiting))
                for e in evs:
                    if isinstance(e, tuple):
                        exited.add(e[1])
                        free.discard(e[1])
                    else:
                        waiting[e.actor] = e
                        free.discard(e.actor)
            if not waiting:
                break
            if cur not in waiting:
                cur = sorted(waiting)[0]
            req = waiting[cur]
            kind = (req.op, os.path.basename(req.path))
            if req.op == "sleep":
                others = [a for a in sorted(waiting) if a != cur]
                later = [a for a in others if a > cur]
                last[cur] = kind
                c.go(waiting.pop(cur))
                free.add(cur)
                if others:
                    # let the sleeper come back to its next operation first
                    nxt = (later or others)[0]
                    cur = nxt
                continue
            if not merge or kind != last.get(cur):
                others = tuple(a for a in sorted(waiting) if a != cur)
                steps.append(others)
                want = preempt.get(step)
                step += 1
                if want is not None and want in waiting and want != cur:
                    cur = want
                    continue
            last[cur] = kind
            c.go(waiting.pop(cur))
            free.add(cur)
        return [c.result(str(i)) for i in range(len(names))], steps
    finally:
        c.close()


def alternatives(steps, lo, hi):
    for i in range(lo, min(hi, len(steps))):
        for a in steps[i]:
            yield i, a


def run_unit(u, ctx):
    if "names" in u:
        return run_names(u, ctx)
    names = u["actors"]
    base, oids = fixture(ctx, u["fresh"])
    ev0, tx0 = rows(base)
    alone = []
    for n in names:
        w = base.copy(ctx.tmp("s"))
        args, inp = command(n, oids)
        out = w.run(args, input=inp)
        if out.rc != 0:
            raise core.HarnessError("%s alone: %r" % (n, out))
        ev, tx = rows(w)
        alone.append((groups(ev, tx, len(ev0), tx0), out))
        w.remove()
    w = base.copy(ctx.tmp("s"))
    for n in names:
        args, inp = command(n, oids)
        w.run(args, input=inp)
    after = sorted(w.query("all()"))
    w.remove()
    before = sorted(base.query("all()"))

    def run(preempt):
        if "only" in u and {int(k): v for k, v in u["only"].items()} != preempt and preempt:
            if not all({int(k): v for k, v in u["only"].items()}.get(k) == v for k, v in preempt.items()):
                return []
        w = base.copy(ctx.tmp("w"))
        ctx.transition()
        try:
            res, steps = execute(w, oids, names, u["first"], preempt, u["merge"])
        except Stuck as e:
            bad(ctx, u, preempt, "stuck", str(e))
            w.remove()
            return []
        ctx.evaluation()
        ctx.state([names, u["fresh"], u["first"], u["merge"], sorted(preempt.items())])
        check(ctx, u, w, preempt, res, alone, ev0, tx0, before, after)
        w.remove()
        return steps

    steps = run({})
    ctx.outcome("schedules")
    for i, a in alternatives(steps, u["lo"], u["hi"]):
        s1 = run({i: a})
        ctx.outcome("schedules")
        if u["k"] > 1:
            for j, b in alternatives(s1, i + 1, len(s1)):
                run({i: a, j: b})
                ctx.outcome("schedules")
    base.remove()


def bad(ctx, u, preempt, kind, msg):
    label = "%s%s, %s first" % (" || ".join(u["actors"]), ", no database yet" if u["fresh"] else "", u["actors"][u["first"]])
    ctx.violation("%s: %s" % (label, kind), "%s, preempted at %s\n%s" % (label, preempt, msg), dict(u, only=preempt))


def check(ctx, u, w, preempt, res, alone, ev0, tx0, before, after):
    names = u["actors"]
    for n, out in zip(names, res):
        if out.rc != 0:
            return bad(ctx, u, preempt, "failed", "%s fails:\n%r" % (n, out))
    try:
        ev, tx = rows(w)
    except sqlite3.Error as e:
        return bad(ctx, u, preempt, "unreadable", str(e))
    if ev[:len(ev0)] != ev0:
        return bad(ctx, u, preempt, "earlier events changed", "%s\n%s" % (ev0, ev))
    got, empty, reused = groups(ev, tx, len(ev0), tx0)
    if reused:
        return bad(ctx, u, preempt, "transaction ids", "transaction id used again: %s" % reused)
    want = [g for a, _ in alone for g in a[0]]
    if sorted(map(repr, got)) != sorted(map(repr, want)):
        return bad(ctx, u, preempt, "events", "recorded:\n%s\nexpected:\n%s" % ("\n".join(map(repr, got)), "\n".join(map(repr, want))))
    for n, (a, _) in zip(names, alone):
        pos = [got.index(g) for g in a[0]]
        if pos != sorted(pos):
            return bad(ctx, u, preempt, "order", "%s: recorded in the order %s" % (n, pos))
    if "read" in names:
        i = names.index("read")
        seen = sorted(res[i].out.split())
        if len(names) == 2 and seen not in (before, after):
            return bad(ctx, u, preempt, "reader", "a reader saw neither the state before nor after: %s" % seen)
    try:
        vis = sorted(w.query("all()"))
    except QueryFailed as e:
        return bad(ctx, u, preempt, "unreadable", str(e))
    if vis != after:
        return bad(ctx, u, preempt, "visible", "visible commits: %s, expected %s" % (vis, after))


# ---------------------------------------------------------------------------

def run_names(u, ctx):
    """Names with unusual characters come back unaltered from the log."""
    for n in u["names"]:
        name = "a%sb" % n
        base, oids = build_repo(ctx.tmp("r"), COMMITS, "m0", drafts=["a", "b"], head="b")
        if base.git("check-ref-format", "--branch", name).rc != 0:
            base.remove()
            continue
        ctx.evaluation()
        ctx.state(["name", name])
        ctx.transition(4)
        base.ok("branch", name, oids["a"])
        ev, _ = rows(base)
        base.ok("branch", "-D", name)
        ev2, _ = rows(base)
        ref = "refs/heads/" + name
        if ("RefUpdateEvent" not in str(ev[-1]) and ev[-1][1][0] != "ref-move") or ev[-1][1][3] != ref or ev2[-1][1][3] != ref:
            ctx.violation("name %r" % n, "branch %r recorded as %r and %r" % (name, ev[-1], ev2[-1]), dict(names=[n]))
        out = base.gb("undo", "-y")
        if base.refs().get(ref) != oids["a"]:
            ctx.violation("name %r" % n, "branch %r is not restored by undo: %s\n%r" % (name, base.refs(), out), dict(names=[n]))
        ctx.outcome("names")
        base.remove()
