"""Engine shared by all checks: build, bounded enumeration over worker
processes, evidence, known findings and replay files.

A check module provides

  PROPERTY, LEVEL, TECHNIQUE ... metadata
  units(tier)            -> list of JSON-serialisable work units (the bounded
                            space, in a fixed order)
  run_unit(unit, ctx)    -> explores one unit completely; reports through ctx

Every unit of the list is explored; nothing is sampled.  If the wall-clock
cap is reached the run says so (exhaustive=false) and still only reports on
what it explored.
"""
import atexit
import collections
import hashlib
import json
import multiprocessing
import os
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
TARGET = os.path.join(VERIF, "target")
HARNESS = os.path.join(VERIF, "harness")
BIN = os.path.join(TARGET, "debug")
EVIDENCE = os.path.join(VERIF, "evidence")
KNOWN = os.path.join(VERIF, "known_findings.json")
CMD_TIMEOUT = 120


class HarnessError(Exception):
    """The machinery itself failed; never a verdict about the property."""


class BuildError(HarnessError):
    pass


def cargo_env():
    env = {k: v for k, v in os.environ.items() if not k.startswith("GIT_")}
    env.update(
        HOME="/root",
        RUSTUP_TOOLCHAIN="1.74",
        CARGO_NET_OFFLINE="true",
        CARGO_TARGET_DIR=TARGET,
        CARGO_INCREMENTAL="1",
        RUSTC_WRAPPER="",
        CARGO_TERM_COLOR="never",
    )
    env.pop("RUSTFLAGS", None)
    return env


def cargo_build(*packages):
    """Build harness packages from /repo's current working tree."""
    args = ["cargo", "build", "--offline", "--locked", "-q"]
    for p in packages:
        args += ["-p", p]
    # cargo decides freshness by mtime; a working tree laid down with old
    # mtimes (a copy of the sandbox) must not be mistaken for a fresh build.
    touch_if_changed()
    r = subprocess.run(args, cwd=HARNESS, env=cargo_env(), stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        sys.stdout.write(r.stdout[-6000:])
        raise BuildError("cargo build failed")


def source_files():
    out = []
    for root in sorted(os.listdir(REPO)):
        p = os.path.join(REPO, root)
        if root in (".git", "target") or not os.path.isdir(p):
            continue
        for d, dirs, files in os.walk(p):
            dirs[:] = [x for x in dirs if x not in ("target", ".git")]
            for f in files:
                if f.endswith((".rs", ".lalrpop", ".toml")):
                    out.append(os.path.join(d, f))
    return sorted(out)


def touch_if_changed():
    """Compare a content manifest with the one of the previous build and bump
    the mtime of files whose content differs (keeps cargo honest)."""
    path = os.path.join(TARGET, "verif-sources.json")
    new = {}
    for f in source_files():
        with open(f, "rb") as fh:
            new[f] = hashlib.sha1(fh.read()).hexdigest()
    try:
        with open(path) as fh:
            old = json.load(fh)
    except (OSError, ValueError):
        old = None
    if old is not None:
        for f, h in new.items():
            if old.get(f) != h:
                os.utime(f)
    os.makedirs(TARGET, exist_ok=True)
    tmp = path + ".%d" % os.getpid()
    with open(tmp, "w") as fh:
        json.dump(new, fh)
    os.replace(tmp, path)


# --------------------------------------------------------------------------
# scratch space

_scratch = None


def scratch_root():
    global _scratch
    if _scratch is None:
        base = "/dev/shm" if os.access("/dev/shm", os.W_OK) else tempfile.gettempdir()
        _scratch = tempfile.mkdtemp(prefix="gbmc-", dir=base)
        owner = os.getpid()

        def cleanup(path=_scratch):
            if os.getpid() == owner:
                shutil.rmtree(path, ignore_errors=True)

        atexit.register(cleanup)
        os.makedirs(os.path.join(_scratch, "home"))
    return _scratch


# --------------------------------------------------------------------------
# per-unit context


class Ctx:
    def __init__(self, check, tier, workdir):
        self.check = check
        self.tier = tier
        self.workdir = workdir
        self.n_transitions = 0
        self.n_evals = 0
        self.states = set()
        self.n_bulk = 0
        self.outcomes = collections.Counter()
        self.violations = []
        self.samples = []
        self._n = 0

    def tmp(self, name="w"):
        self._n += 1
        return os.path.join(self.workdir, "%s%d" % (name, self._n))

    def transition(self, n=1):
        self.n_transitions += n

    def evaluation(self, n=1):
        self.n_evals += n

    def state(self, obj):
        """Register a (canonicalised) state; returns True if new in this unit."""
        if not isinstance(obj, bytes):
            obj = json.dumps(obj, sort_keys=True, default=str).encode()
        h = hashlib.sha1(obj).digest()[:10]
        new = h not in self.states
        self.states.add(h)
        return new

    def states_bulk(self, n):
        """States counted by an exploration in another process."""
        self.n_bulk += n

    def outcome(self, name, n=1):
        self.outcomes[name] += n

    def sample(self, obj):
        if len(self.samples) < 2:
            self.samples.append(obj)

    def violation(self, key, msg, replay=None):
        self.violations.append({"key": key, "msg": msg, "replay": replay})


def _worker(args):
    modname, tier, idx, unit, root = args
    import importlib
    from .repo import QueryFailed
    mod = importlib.import_module(modname)
    wd = os.path.join(root, "u%d" % idx)
    os.makedirs(wd, exist_ok=True)
    ctx = Ctx(mod, tier, wd)
    err = None
    try:
        mod.run_unit(unit, ctx)
    except QueryFailed as e:
        # reading the repository through the tool itself failed
        ctx.violation("query-failed", "query failed while exploring the unit: %s" % e, unit)
    except (OSError, MemoryError):  # harness failure, reported as such
        err = traceback.format_exc()
    except Exception:
        # the tool did something the exploration cannot follow: a command that
        # has to work failed, or the repository is in a state that no
        # execution of the explored operations may lead to
        ctx.violation("exploration-stopped", "exploration could not continue:\n%s" % traceback.format_exc()[-3000:], unit)
    finally:
        if not os.environ.get("GBMC_KEEP"):
            shutil.rmtree(wd, ignore_errors=True)
    for v in ctx.violations:
        v["unit"] = unit
    return dict(idx=idx, err=err, tr=ctx.n_transitions, ev=ctx.n_evals, states=ctx.states, bulk=ctx.n_bulk,
                outcomes=ctx.outcomes, violations=ctx.violations, samples=ctx.samples)


def load_known(prop):
    try:
        with open(KNOWN) as f:
            data = json.load(f)
    except FileNotFoundError:
        return []
    return [k for k in data.get("findings", []) if k["property"] == prop and k["status"] == "known"]


def run_check(modname, tier, seed, jobs=None, only_unit=None):
    import importlib
    t0 = time.time()
    mod = importlib.import_module(modname)
    prop = mod.PROPERTY
    cap = float(os.environ.get("GBMC_CAP", getattr(mod, "CAP", {"quick": 600, "thorough": 3000})[tier]))
    jobs = jobs or int(os.environ.get("GBMC_JOBS", "8"))
    cargo_build(*getattr(mod, "PACKAGES", ["gb"]))
    if hasattr(mod, "prepare"):
        mod.prepare()
    t_build = time.time() - t0
    units = [only_unit] if only_unit is not None else list(mod.units(tier))
    root = scratch_root()
    tot = dict(tr=0, ev=0, bulk=0)
    states = set()
    outcomes = collections.Counter()
    violations = []
    samples = []
    errs = []
    done = 0
    capped = False
    known = {k["key"]: k for k in load_known(prop)}
    hit_known = {}
    stop_at = int(os.environ.get("GBMC_MAXVIOL", "20"))
    pool = multiprocessing.Pool(jobs, initializer=lambda: signal.signal(signal.SIGINT, signal.SIG_IGN))
    try:
        it = pool.imap_unordered(
            _worker, ((modname, tier, i, u, root) for i, u in enumerate(units)), chunksize=1)
        while done < len(units):
            left = cap - (time.time() - t0)
            if left <= 0:
                capped = True
                break
            try:
                r = it.next(timeout=left)
            except multiprocessing.TimeoutError:
                capped = True
                break
            done += 1
            if r["err"]:
                errs.append((r["idx"], r["err"]))
                if len(errs) >= 5:
                    break
                continue
            tot["tr"] += r["tr"]
            tot["ev"] += r["ev"]
            tot["bulk"] += r["bulk"]
            states |= r["states"]
            outcomes.update(r["outcomes"])
            if len(samples) < 5:
                samples.extend(r["samples"][: 5 - len(samples)])
            for v in r["violations"]:
                if v["key"] in known:
                    hit_known[v["key"]] = v
                else:
                    violations.append(v)
            if len(violations) >= stop_at:
                break
    finally:
        pool.terminate()
        pool.join()

    wall = time.time() - t0
    n_states = len(states) + tot["bulk"]
    level = mod.LEVEL
    cov = {"exhaustive": bool(not capped and done == len(units) and not errs),
           "bound": mod.BOUND[tier] if isinstance(mod.BOUND, dict) else mod.BOUND,
           "units": done, "units_total": len(units),
           "outcomes": dict(sorted(outcomes.items())),
           "build_s": round(t_build, 1)}
    if level == "model_checking":
        cov.update(states=n_states, transitions=tot["tr"],
                   traces_validated_against_impl=tot["ev"], samples=samples)
    else:
        cov.update(evaluations=tot["ev"], distinct_nontrivial=n_states,
                   rule=mod.RULE, samples=samples, implementation_steps=tot["tr"])
    ev = {"property": prop, "tier": tier, "seed": seed, "level": level, "coverage": cov,
          "assumptions": getattr(mod, "ASSUMPTIONS", []), "wall_s": round(wall, 2),
          "violations": len(violations)}
    if only_unit is None:
        os.makedirs(EVIDENCE, exist_ok=True)
        p = os.path.join(EVIDENCE, prop + ".json")
        with open(p + ".tmp", "w") as f:
            json.dump(ev, f, indent=1, sort_keys=True, default=str)
        os.replace(p + ".tmp", p)
    if errs:
        for i, e in errs[:3]:
            print("HARNESS ERROR in unit %d:\n%s" % (i, e))
        if not violations:
            return 2
    for key, v in sorted(hit_known.items()):
        print("KNOWN-FINDING: property=%s %s" % (prop, known[key]["what"]))
    print("%s %s: units=%d/%d transitions=%d evaluations=%d states=%d wall=%.1fs (build %.1fs)%s" % (
        prop, tier, done, len(units), tot["tr"], tot["ev"], n_states, wall, t_build,
        " CAPPED" if capped else ""))
    print("  outcomes: " + ", ".join("%s=%d" % kv for kv in sorted(outcomes.items())))
    if violations and os.environ.get("GBMC_DUMP"):
        with open(os.environ["GBMC_DUMP"], "w") as f:
            json.dump(violations, f, indent=1, default=str)
    if violations:
        rdir = os.path.join(EVIDENCE, "replays")
        os.makedirs(rdir, exist_ok=True)
        seen = set()
        for n, v in enumerate(violations):
            if v["key"] in seen:
                continue
            seen.add(v["key"])
            path = os.path.join(rdir, "%s-%d.json" % (prop, n))
            with open(path, "w") as f:
                json.dump({"property": prop, "module": modname, "tier": tier, "unit": v["unit"],
                           "key": v["key"], "msg": v["msg"], "replay": v["replay"]}, f, indent=1, default=str)
            print("VIOLATION property=%s replay=%s" % (prop, path))
            print("  key: %s\n  %s" % (v["key"], v["msg"][:3000].replace("\n", "\n  ")))
            if len(seen) >= 5:
                break
        return 1
    if done == 0 or (tot["tr"] == 0 and tot["ev"] == 0):
        print("HARNESS ERROR: nothing was explored")
        return 2
    return 0
