"""Logging: what the Python loggers and the C++ library write after any sequence of settings."""
import io
import itertools
import logging
import os
import re
import sys
from pathlib import Path

import core
import pyreal
from checks import c_run
from checks.c_lab import tmp

LEVELS = (0, 10, 20, 30, 40, 50)
SETS = (10, 20, 30, 35, 40, 50)


# ------------------------------------------------------------------ Python loggers
def run_logger(case):
    from pctsp.utils import get_pctsp_logger
    for name in ("verif-one", "verif-two"):
        lg = logging.getLogger(name)
        lg.handlers.clear()
        lg.setLevel(logging.NOTSET)
        lg.propagate = False
    err, sys.stderr = sys.stderr, io.StringIO()
    try:
        last, objs = {}, {}
        for step, (name, level) in enumerate(case):
            lg = get_pctsp_logger(name) if level is None else get_pctsp_logger(name, level)
            if lg is not logging.getLogger(name):
                return core.Case("the logger %s is another object than the one of that name" % name, "logger")
            last[name], objs[name] = level or 20, lg
            for n, lg in objs.items():
                for lv in (10, 15, 20, 30, 40, 50):
                    sys.stderr.seek(0)
                    sys.stderr.truncate()
                    lg.log(lv, "message %s %d", n, lv)
                    lines = [x for x in sys.stderr.getvalue().split("\n") if x]
                    want = int(lv >= last[n])
                    if len(lines) != want or any(not re.search(r"message %s %d" % (n, lv), x) or logging.getLevelName(lv) not in x for x in lines):
                        return core.Case("after %s a message of level %d to %s is written %d times instead of %d" % (case[:step + 1], lv, n, len(lines), want), "repeated" if len(lines) > want else "lost")
    finally:
        sys.stderr = err
    return core.Case(outcome=case, states=len(case), transitions=len(case) * 6, traces=1)


def gen_logger(shard):
    ops = [(n, lv) for n in ("verif-one", "verif-two") for lv in (None,) + SETS]
    return core.pick((c for k in range(1, 5 if core.THOROUGH else 4) for c in itertools.product(ops, repeat=k)), shard)


# ------------------------------------------------------------------ the level given to the engine
def output_of(fn):
    """Everything written to standard output and error by fn, C++ included."""
    with tmp() as d:
        path = Path(d) / "out"
        sys.stdout.flush()
        sys.stderr.flush()
        keep = os.dup(1), os.dup(2)
        f = os.open(path, os.O_CREAT | os.O_RDWR)
        os.dup2(f, 1)
        os.dup2(f, 2)
        try:
            fn()
        finally:
            os.dup2(keep[0], 1)
            os.dup2(keep[1], 2)
            for x in keep + (f,):
                os.close(x)
        return path.read_text(errors="replace")


ENGINE = {"trace": 0, "debug": 10, "info": 20, "warning": 30, "error": 40, "fatal": 50}


def messages(text):
    return [(ENGINE[m.group(1)], m.group(2)) for m in re.finditer(r"\[(trace|debug|info|warning|error|fatal)\]\s*(.*)", text)]


def engine_call(what, level, n, mask, shift, quota):
    import pctsp.algorithms as alg
    g, order, cost, prize, L, back = c_run.build(n, mask, shift, 0, 1)
    tour = [L[v] for v in range(n)] + [L[0]]
    if what == "solve":
        from pyscipopt import Model
        with tmp() as d:
            alg.solve_pctsp(Model(createscip=True, defaultPlugins=False), g, [], quota, L[0], logging_level=level, solver_dir=Path(d) / "s")
    elif what == "collapse":
        alg.collapse(g, tour, quota, L[0], logging_level=level)
    elif what == "extension_unitary_gain":
        alg.extension_unitary_gain(g, tour[:3] + [L[0]], logging_level=level)
    elif what == "path_extension":
        alg.path_extension(g, tour[:3] + [L[0]], L[0], path_depth_limit=2, step_size=1, logging_level=level)
    elif what == "path_extension_until_prize_feasible":
        alg.path_extension_until_prize_feasible(g, tour[:3] + [L[0]], L[0], quota, step_size=1, path_depth_limit=2, logging_level=level)
    else:
        alg.path_extension_collapse(g, tour[:3] + [L[0]], L[0], quota, path_depth_limit=2, step_size=1, logging_level=level)


def run_engine(case):
    what, n, mask, shift, quota, before, level = case
    engine_call("collapse", before, n, mask, shift, quota)  # whatever was set before does not matter
    every = messages(output_of(lambda: engine_call(what, 0, n, mask, shift, quota)))
    engine_call("collapse", before, n, mask, shift, quota)
    got = messages(output_of(lambda: engine_call(what, level, n, mask, shift, quota)))
    floor = level if level in LEVELS else 20
    want = [m for m in every if m[0] >= floor]
    if what == "solve":  # how often the separators report differs from run to run
        got, want = ([m for m in x if m[0] >= 20] + sorted({m[0] for m in x if m[0] < 20}) for x in (got, want))
    if got != want:
        return core.Case("%s with level %d after level %d writes %d messages, %d have that level" % (what, level, before, len(got), len(want)), "engine-level")
    return core.Case(outcome=(what, level, len(got), len(every)), nontrivial=bool(every), states=1, transitions=len(every))


def gen_engine(shard):
    def it():
        for what in ("solve", "collapse", "extension_unitary_gain", "path_extension", "path_extension_until_prize_feasible", "path_extension_collapse"):
            for n, mask in ((4, 63), (5, 1023)):
                for quota in (5, 14, 100):
                    for shift in range(3 if core.THOROUGH else 1):
                        for before, level in itertools.product(LEVELS, LEVELS + (5, 35, 60)):
                            if core.THOROUGH or before in (0, 30, 50):
                                yield (what, n, mask, shift, quota, before, level)
    return core.pick(it(), shard)


# ------------------------------------------------------------------ where the log of the solver goes
def run_path(case):
    from pctsp.utils import get_scip_log_filepath
    exists, name, ext = case
    with tmp() as d:
        folder = Path(d) / "a" if exists != "orphan" else Path(d) / "x" / "a"
        if exists == "old":
            folder.mkdir()
            (folder / "keep").write_text("k")
        try:
            got = get_scip_log_filepath(folder, name) if ext is None else get_scip_log_filepath(folder, name, ext)
        except FileNotFoundError:
            return core.Case(outcome=case) if exists == "orphan" else core.Case("refused a folder that can be made", "path")
        if exists == "orphan" or got != folder / (name + "." + (ext or "txt")) or not folder.is_dir() or sorted(p.name for p in folder.iterdir()) != (["keep"] if exists == "old" else []):
            return core.Case("the log goes to %s" % got, "path")
    return core.Case(outcome=case)


def gen_path(shard):
    return core.pick(itertools.product(("new", "old", "orphan"), ("log", "a.b", "x y", "é"), (None, "txt", "log", "tar.gz")), shard)


def run(res):
    from checks import c_util
    c_util.levels(res)
    pyreal.recorded()
    import pctsp.algorithms  # noqa: F401
    import pctsp.utils  # noqa: F401
    core.py(res, "loggers", core.chunks(16), gen_logger, run_logger, 600)
    core.py(res, "engine-levels", core.chunks(32), gen_engine, run_engine, 600)
    core.py(res, "log-path", core.chunks(4), gen_path, run_path, 60)
