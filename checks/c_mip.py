"""The exact solver: integer model, separators, covers, branching and statistics on the real SCIP."""
import core
from checks import c_util

ASAN = ("-O1", "-g", "-fsanitize=address,undefined", "-fno-sanitize-recover=undefined")
SEC = "result,not-violated,invalid,subtour-kept,cut-missed,stranger,exception"
# property -> groups of harness/mip.cpp and the kinds of violation the property is about
GROUPS = {
    "C11": [("model", "")],
    "C12": [("bac", "infeasible-not-proved,edges-of-infeasible,status,not-a-tour,not-optimal,best-not-returned,exception,option-")],
    "C13": [("sec", SEC), ("bac", "sec-invalid")],
    "C14": [("bac", "cost-cover-invalid,not-covered,stat-presolve-cover,stat-cost-cover,stranger")],
    "C15": [("cover", ""), ("bac", "cycle-cover-invalid,stat-cycle-cover")],
    "C16": [("options", "tailing-live")],
    "C17": [("branch", ""), ("options", "option-branching")],
    "C18": [("bac", "stat-"), ("sec", "node-count"), ("reset", "stat-")],
}


def of(pid):
    def run(res):
        for name, kinds in GROUPS[pid]:
            args = ("--kinds", kinds) if kinds else ()
            core.cpp(res, "mip", name, 3000 if core.THOROUGH else 400, flags=("-O2", "-g"), args=args)
        if pid == "C18":  # the sums over the nodes that are reported, on long and large tables
            core.cpp(res, "util", "stats", 300, flags=("-O2", "-g"), args=("--kinds", "sums"))
        if core.THOROUGH:  # the quick space again with memory and undefined-behaviour monitors
            for name, kinds in GROUPS[pid]:
                core.cpp(res, "mip", name, 1500, flags=ASAN, args=("--kinds", kinds) if kinds else (), quick=True)
    return run


model, optimum, subtours, cost_cover, cycle_cover, tailing_live, branching, statistics = (of(p) for p in GROUPS)


def tailing(res):
    c_util.tailing(res)
    tailing_live(res)


def solver_options(res):
    """C36: every option of the call, as the solver was set."""
    core.cpp(res, "mip", "options", 3000 if core.THOROUGH else 400, flags=("-O2", "-g"), args=("--kinds", "option-"))
