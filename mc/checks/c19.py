"""C19: searching for the first bad commit always finds the true boundary."""
import json
import os
import subprocess

from .. import core

PROPERTY = "C19"
LEVEL = "model_checking"
PACKAGES = ["bisect-check"]
TECHNIQUE = ("explicit-state exploration of the real scm-bisect search: from every reachable assignment of results, every "
             "result (good, bad, untestable; for suggested and for already decided nodes; consistent or contradictory) is "
             "reported, and bounds, suggestions and acceptance are compared with reachability in the graph")
BOUND = {
    "quick": "all ancestor relations of <=4 topologically numbered nodes, every subset of nodes searched in every order; all "
             "ancestor relations of 5 nodes in two orders; 3 strategies; every order of results; sequential runs with every set of bad "
             "nodes and <=1 untestable node",
    "thorough": "as quick, every subset of 5 nodes; 6 nodes in two orders",
}
ASSUMPTIONS = ["nodes which are not among those to search are not reported"]


def units(tier):
    deep = tier == "thorough"
    for n, total, chunk in ((1, 1, 1), (2, 2, 2), (3, 8, 8), (4, 64, 4)):
        for i in range(0, total, chunk):
            yield {"args": [n, "all", "all", i, i + chunk]}
    for i in range(0, 1024, 32):
        yield {"args": [5, "two", "all" if deep else "full", i, i + 32]}
    if deep:
        for i in range(0, 32768, 256):
            yield {"args": [6, "two", "full", i, i + 256]}


def run_unit(u, ctx):
    p = subprocess.run([os.path.join(core.BIN, "bisect-check")] + [str(a) for a in u["args"]],
                       stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=800)
    if p.returncode != 0:
        ctx.violation("search panicked %s" % u["args"], "the search panicked or did not end: %s" % p.stderr[-2000:], u)
        return
    d = json.loads(p.stdout)
    ctx.transition(d["transitions"])
    ctx.evaluation(d["evaluations"])
    ctx.states_bulk(d["states"])
    ctx.outcome("finished search", d["finals"])
    ctx.outcome("contradiction rejected", d["rejected"])
    for v in d["violations"]:
        ctx.violation(v, v, u)
