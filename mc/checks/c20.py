"""C20: parallel test workers run every job exactly once and always finish."""
import itertools
import os
import subprocess
import sys

from .. import core

PROPERTY = "C20"
LEVEL = "model_checking"
TECHNIQUE = ("stateless model checking of the real job queue and worker loop: worker.rs is compiled unchanged against stand-ins for "
             "std::sync and crossbeam whose every operation is a scheduling point (shuttle), and all schedules up to a preemption "
             "bound are enumerated for every scenario of job submissions, withdrawals, failures and shutdowns; deadlocks, lost, "
             "repeated and withdrawn-yet-run jobs and wrong results are violations")
BOUND = {
    "quick": "1 to 3 workers, 1 to 3 jobs, up to two submissions with results received in between, early shutdown, abandoned "
             "results, failing jobs; every schedule with at most 2 preemptions (3 for one worker, 1 for three workers, whose jobs do not fail)",
    "thorough": "as quick with at most 3 preemptions (4 for one worker, 1 for three workers), with failing jobs everywhere",
}
ASSUMPTIONS = ["sequentially consistent memory (std's Mutex and Condvar synchronise)", "no spurious wakeups of condition variables",
               "jobs of one submission are distinct", "jobs and results go through the interface of worker.rs as in lib.rs"]

HARNESS = os.path.join(core.VERIF, "harness-worker")
TARGET = os.path.join(core.TARGET, "worker")
BINARY = os.path.join(TARGET, "debug", "worker-check")
PACKAGES = ["gb"]
BUILT = os.path.join(TARGET, "built")
# messages of shuttle about itself
LIMITS = ("max_steps", "not implemented", "not supported", "unsupported", "not yet implemented")


def build():
    """Returns whether worker.rs could be built against the stand-ins."""
    core.touch_if_changed()
    env = core.cargo_env()
    env.update(RUSTUP_TOOLCHAIN="stable", CARGO_TARGET_DIR=TARGET, VERIF_REPO=core.REPO)
    r = subprocess.run(["cargo", "build", "--offline", "--locked", "-q"], cwd=HARNESS, env=env,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    os.makedirs(TARGET, exist_ok=True)
    if r.returncode != 0:
        sys.stdout.write(r.stdout[-3000:])
        if os.path.exists(BUILT):
            os.unlink(BUILT)
        return False
    with open(BUILT, "w") as f:
        f.write("yes\n")
    return True


def prepare():
    build()


def scenarios(tier):
    """(preemption bound, scenario)"""
    deep = tier == "thorough"
    jobs = ["0", "01", "012"]
    for w in (1, 2, 3):
        bound = {1: 3, 2: 2, 3: 1}[w] + (1 if deep and w < 3 else 0)
        ops = []
        for j in jobs:
            ops += ["s%s,a" % j, "s%s,c" % j, "s%s,r,c" % j, "s%s,d" % j, "s%s,r,d" % j, "s%s" % j]
        # resubmission: jobs kept, withdrawn, added, taken back
        for x, y in [("0", "1"), ("01", "1"), ("01", "12"), ("01", "10"), ("01", ""), ("0", "0"), ("012", "2"), ("01", "2"),
                     ("", "0"), ("0", "01")]:
            for mid in ("", "r,"):
                ops += ["s%s,%ss%s,a" % (x, mid, y), "s%s,%ss%s,c" % (x, mid, y)]
        ops += ["s01,s,s01,a", "s0,r,s,r,s01,a", "s0,a,s1,a,s2,a", "c", "", "c,s0", "s0,c,s1", "s01,r,c,s01"]
        for o in ops:
            used = sorted({c for c in o if c.isdigit()})
            if w == 3 and not deep and o.count("a") == 3:
                continue
            fails = [""] if w == 3 and not deep else [""] + ([used[0], "".join(used)] if used and not ("d" in o or "c" in o) else [])
            for f in dict.fromkeys(fails):
                n = o.count("s")
                b = bound - (1 if w == 2 and len(used) == 3 and n > 1 and not deep else 0)
                yield b, "%d:%s:%s" % (w, f, o)


def units(tier):
    todo = list(scenarios(tier))
    # interleave cheap and expensive ones
    todo.sort(key=lambda x: -int(x[1][0]) * 10 - x[0] * 3 - len(x[1]))
    size = 2
    for i in range(0, len(todo), size):
        yield {"scenarios": todo[i:i + size]}


def run_unit(u, ctx):
    if not os.path.exists(BUILT):
        # worker.rs has another interface: explored through `git test` in C21
        for b, s in u["scenarios"]:
            ctx.outcome("not built against the stand-ins")
            ctx.evaluation()
        return
    for b, s in u["scenarios"]:
        try:
            p = subprocess.run([BINARY, str(b), s], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=2400)
        except subprocess.TimeoutExpired:
            ctx.outcome("not explored: too many schedules")
            continue
        line = p.stdout.strip()
        if line.startswith("ok "):
            _, _, schedules, distinct = line.split(" ")
            ctx.transition(int(schedules))
            ctx.evaluation(int(schedules))
            ctx.states_bulk(int(distinct))
            ctx.outcome("scenario explored")
            ctx.sample({"scenario": s, "preemptions": b, "schedules": int(schedules), "histories": int(distinct)})
        elif line.startswith("fail ") and not any(x in line for x in LIMITS):
            ctx.violation("scenario %s" % s, "scenario %s, at most %d preemptions: %s" % (s, b, line[:3000]),
                          {"scenarios": [[b, s]]})
        else:
            # a limit of the stand-ins, no statement about the code
            ctx.outcome("not explored: %s" % (line.split('"')[1][:60] if '"' in line else "crashed"))
