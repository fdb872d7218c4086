"""Utilities of the C++ library: renaming, walks, components, tailing off, statistics files, levels, knapsack."""
import core

ASAN = ("-O1", "-g", "-fsanitize=address,undefined", "-fno-sanitize-recover=undefined")


def of(group):
    def run(res):
        core.cpp(res, "util", group, 3000 if core.THOROUGH else 300, flags=("-O2", "-g"))
        if core.THOROUGH:
            core.cpp(res, "util", group, 1500, flags=ASAN, quick=True)
    return run


rename, walk, components, tailing, stats, levels, knapsack, solution = (
    of(g) for g in ("rename", "walk", "components", "tailing", "stats", "levels", "knapsack", "solution"))
