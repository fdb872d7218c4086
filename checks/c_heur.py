"""Tour-improvement heuristics: the real C++ against nondeterministic reference transition systems."""
import core

ASAN = ("-O1", "-g", "-fsanitize=address,undefined", "-fno-sanitize-recover=undefined")


def group(name):
    def run(res):
        core.cpp(res, "heur", name, 3000 if core.THOROUGH else 240, flags=("-O2", "-g"))
        if core.THOROUGH:  # the quick space again with memory and undefined-behaviour monitors
            core.cpp(res, "heur", name, 1500, flags=ASAN, quick=True)
    return run


gain, path, collapse, pec = group("gain"), group("path"), group("collapse"), group("pec")
