"""Registry of the checks: property id -> how it is decided."""
import importlib

from checks import meta

RUN = {
    "C01": ("c_suurballe", "run"),
    "C02": ("c_trees", "run"),
    "C03": ("c_pre", "run_preprocessing"),
    "C04": ("c_tours", "run"),
    "C05": ("c_pre", "run_bfs_check"),
    "C06": ("c_heur", "gain"),
    "C07": ("c_heur", "path"),
    "C08": ("c_heur", "collapse"),
    "C09": ("c_heur", "pec"),
    "C10": ("c_wrap", "run"),
    "C27": ("c_lab", "roundtrip"),
    "C28": ("c_lab", "crash"),
    "C29": ("c_lab", "histories"),
    "C30": ("c_run", "run"),
    "C11": ("c_mip", "model"), "C12": ("c_mip", "optimum"), "C13": ("c_mip", "subtours"), "C14": ("c_mip", "cost_cover"),
    "C15": ("c_mip", "cycle_cover"), "C17": ("c_mip", "branching"), "C18": ("c_mip", "statistics"),
    "C16": ("c_mip", "tailing"), "C19": ("c_util", "stats"), "C20": ("c_bind", "run"), "C21": ("c_util", "rename"), "C22": ("c_util", "walk"),
    "C23": ("c_util", "components"), "C24": ("c_util", "knapsack"), "C25": ("c_log", "run"),
    "C37": ("c_util", "solution"),
    "C31": ("c_tab", "run"), "C33": ("c_arch", "run"), "C34": ("c_stats", "run"), "C35": ("c_plot", "run"),
    "C26": ("c_exp", "run"), "C32": ("c_cli", "run"), "C36": ("c_data", "run"),
}


def spec(pid):
    mod, fn = RUN[pid]
    d = dict(meta.P[pid])
    d["run"] = getattr(importlib.import_module("checks." + mod), fn)
    return d
