import glob
import json
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mc import core  # noqa: E402


def module_for(prop):
    return "mc.checks." + prop.lower()


def main(argv):
    if not argv:
        print("usage: python3 -m mc <PROPERTY> | replay <file> | build | all")
        return 2
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    if "--tier" in argv:
        i = argv.index("--tier")
        tier = argv[i + 1]
        argv = argv[:i] + argv[i + 2:]
    if argv[0] == "build":
        core.cargo_build("gb")
        for package in ("bisect-check",):
            try:
                core.cargo_build(package)
            except core.BuildError as e:
                print("%s: %s" % (package, e))  # concerns the checks which need it only
        from mc.checks import c20
        if not c20.build():
            print("worker-check could not be built")
        return 0
    if argv[0] == "replay":
        r = json.load(open(argv[1]))
        return core.run_check(r["module"], r["tier"], seed, only_unit=r["replay"] or r["unit"], jobs=1)
    props = argv
    if argv[0] == "all":
        props = sorted(os.path.basename(f)[:-3].upper()
                       for f in glob.glob(os.path.join(core.VERIF, "mc", "checks", "[a-z][0-9][0-9]*.py")))
    rc = 0
    for p in props:
        try:
            r = core.run_check(module_for(p), tier, seed)
        except core.HarnessError as e:
            print("HARNESS ERROR: %s" % e)
            r = 2
        rc = max(rc, r)
    return rc


if __name__ == "__main__":
    sys.stdout.reconfigure(line_buffering=True)
    sys.exit(main(sys.argv[1:]))
