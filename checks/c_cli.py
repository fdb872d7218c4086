"""The command line: single runs, setting up, batching through the generated slurm script."""
import itertools
import json
import math
import os
import re
import stat
import subprocess
import uuid
from collections import Counter
from pathlib import Path

import core
import pyreal
from checks import c_data, c_exp, c_run
from checks.c_lab import tmp

_r = {}


def invoke(args, env=None):
    from pctsp.apps import app
    from typer.testing import CliRunner
    if "r" not in _r:
        _r["r"] = CliRunner()
    return _r["r"].invoke(app, [str(a) for a in args], env=env)


def failed(r):
    return None if r.exit_code == 0 else "exit code %s: %r %s" % (r.exit_code, r.exception, r.output[-300:])


# ------------------------------------------------------------------ one run
TSPLIB = dict(alpha=(("--alpha", 50), ("--alpha", 5), ("--alpha", 75)), branching_max_depth=((), ("--branching-max-depth", 3), ("--branching-max-depth", -1)),
              collapse_paths=((), ("--collapse-paths",), ("--no-collapse-paths",)), cost_cover_disjoint_paths=((), ("--cost-cover-disjoint-paths",), ("--no-cost-cover-disjoint-paths",)),
              cost_cover_shortest_path=((), ("--cost-cover-shortest-path",)), cost_function=((), ("--cost-function", "EUC_2D"), ("--cost-function", "MST")),
              generation=((), ("--generation", "gen2"), ("--generation", "gen3")), graph_name=((), ("--graph-name", "st70"), ("--graph-name", "eil51")),
              heuristic=((), ("--heuristic", "bfs_extension_collapse"), ("--heuristic", "suurballes_path_extension_collapse"), ("--heuristic", "suurballes_heuristic")),
              kappa=((), ("--kappa", 2), ("--kappa", 30)), path_depth_limit=((), ("--path-depth-limit", 4)), remove_leaves=((), ("--remove-leaves",)),
              sec_lp_gap_improvement_threshold=((), ("--sec-lp-gap-improvement-threshold", 0.25)), sec_max_tailing_off_iterations=((), ("--sec-max-tailing-off-iterations", -1)),
              step_size=((), ("--step-size", 3)), time_limit=((), ("--time-limit", 55.5)))
LONDON = dict(graph_name=((), ("--graph-name", "laqkxA"), ("--graph-name", "laqbbA")), quota=((), ("--quota", 60), ("--quota", 100000)),
              cost_cover_disjoint_paths=((), ("--no-cost-cover-disjoint-paths",)), cost_cover_shortest_path=((), ("--cost-cover-shortest-path",)),
              remove_leaves=((), ("--remove-leaves",)), time_limit=((), ("--time-limit", 71.0)))
DEFAULT = dict(alpha=50, branching_max_depth=1, collapse_paths=False, cost_cover_disjoint_paths=True, cost_cover_shortest_path=False, cost_function="UNIFORM_RANDOM", generation="gen1",
               heuristic=None, kappa=None, path_depth_limit=2, remove_leaves=False, sec_lp_gap_improvement_threshold=0.001, sec_max_tailing_off_iterations=5, step_size=1,
               time_limit=14400.0, quota=200)
ALGS = ("solve_pctsp",) + c_run.HEUR


def value(name, arg, cmd):
    if not arg:
        return DEFAULT[name] if name in DEFAULT else ("eil76" if cmd == "tsplib" else "laqtinyA")
    if len(arg) == 1:
        return not arg[0].startswith("--no-")
    return arg[1]


def run_one(case):
    cmd, alg, choice, how = case
    opts = TSPLIB if cmd == "tsplib" else LONDON
    choice = dict(choice)
    args = [cmd, alg]
    want = {}
    for name, alternatives in opts.items():
        arg = alternatives[choice.get(name, 0)]
        args += list(arg)
        want[name] = value(name, arg, cmd)
    d = c_exp.world()
    ds = "tspwplib" if cmd == "tsplib" else "londonaq"
    pyreal.CALLS.clear()
    with tmp() as t:
        roots = dict(LAB_DIR=str(t / "labs"), OPLIB_ROOT=str(d / "oplib"), LONDONAQ_ROOT=str(d / "londonaq"))
        (t / "labs").mkdir()
        if how:
            args += ["--lab-dir", t / "labs", "--oplib-root" if cmd == "tsplib" else "--londonaq-root", d / ("oplib" if cmd == "tsplib" else "londonaq")]
            roots = None
        r = invoke(args, roots)
        if failed(r):
            return core.Case("%s: %s" % (args, failed(r)), "exit")
        from pctsp.lab import Lab
        lab = Lab(t / "labs" / ds)
        from pctsp.vial import ExperimentName, Result
        exp = lab.read_experiment_from_file(ExperimentName.onerun)
        results = lab.read_results_from_file(exp)
        backup = [Result(**x) for x in json.loads((t / "labs" / ds / "onerun" / "results.json").read_text())]
        others = sorted(os.listdir(t / "labs"))
    if len(exp.vials) != 1 or others != [ds]:
        return core.Case("%d vials in %s" % (len(exp.vials), others), "experiment")
    v = exp.vials[0]
    c, m, p = v.data_config, v.model_params, v.preprocessing
    gen = want.get("generation")
    inst = (ds, want["graph_name"], gen)
    pts, prize, depot = c_exp._w[inst]
    quota = c_exp.quota_of(sum(prize.values()), want["alpha"]) if cmd == "tsplib" else want["quota"]
    cf = want.get("cost_function", "EXPLICIT")
    have = (c.dataset.value, c.graph_name.value, c.generation.value if c.generation else None, c.kappa, c.alpha, c.cost_function.value, c.quota, c.root)
    expect = (ds, want["graph_name"], gen, want.get("kappa"), want.get("alpha"), cf, quota, depot)
    if have != expect:
        return core.Case("%s describes %s, expected %s" % (args, have, expect), "data")
    err = c_exp.model_error(m)
    if err or m.algorithm.value != alg:
        return core.Case(err or "algorithm %s" % m.algorithm, "model")
    fields = dict(want)
    if alg == "solve_pctsp":
        names = [f for f in c_exp.EXACT_FIELDS + ("heuristic",) if f in fields]
        for f in names:
            got = getattr(m, f)
            if (got.value if f == "heuristic" and got else got) != fields[f]:
                return core.Case("%s: %s is %r, expected %r" % (args, f, got, fields[f]), "option")
    if cmd == "tsplib" and ("collapse" in alg or alg == "solve_pctsp" and "collapse" in str(want["heuristic"])):
        if (m.collapse_paths, m.path_depth_limit, m.step_size) != (want["collapse_paths"], want["path_depth_limit"], want["step_size"]):
            return core.Case("%s: path options %r" % (args, (m.collapse_paths, m.path_depth_limit, m.step_size)), "option")
    if p.remove_leaves != want["remove_leaves"]:
        return core.Case("remove_leaves is %s" % p.remove_leaves, "option")
    if [x.model_dump() for x in backup] != [x.model_dump() for x in results] or any(x.vial_uuid != v.uuid for x in results):
        return core.Case("results.json %r, saved results %r" % (backup, results), "results")
    calls = [c_data.args_of(x) for x in pyreal.CALLS if x[0] == "solve_pctsp_bind"]
    if alg == "solve_pctsp":
        if len(calls) != 1:
            return core.Case("%d solver calls" % len(calls), "calls")
        a = calls[0]
        for f in c_exp.EXACT_FIELDS:
            if a[f] != getattr(m, f):
                return core.Case("%s: %s reaches the solver as %r" % (args, f, a[f]), "option")
        if a["quota"] != quota or a["root"] != depot:
            return core.Case("solver is given quota %r root %r" % (a["quota"], a["root"]), "data")
        cost = {frozenset(k): w for k, w in a["cost"].items()}
        best = c_data.brute(cost, a["prize"], depot, quota)
        if len(results) != 1 or (results[0].objective if results[0].edge_list else None) != best:
            return core.Case("result %r, optimum %s" % (results, best), "optimum")
    elif len(results) != 1:
        return core.Case("%d results" % len(results), "results")
    return core.Case(outcome=case)


def gen_one(shard):
    def it():
        i = 0
        for cmd, opts in (("tsplib", TSPLIB), ("londonaq", LONDON)):
            for alg in ALGS:
                pairs = itertools.combinations(opts, 2)
                seen = set()
                for a, b in pairs:
                    for x, y in itertools.product(range(len(opts[a])), range(len(opts[b]))):
                        ch = tuple(sorted((k, w) for k, w in ((a, x), (b, y)) if w))
                        if ch in seen:
                            continue
                        seen.add(ch)
                        if alg != "solve_pctsp" and len(ch) == 2 and not core.THOROUGH and i % 3:
                            i += 1
                            continue
                        yield (cmd, alg, ch, i % 2)
                        i += 1
    return core.pick(it(), shard)


# ------------------------------------------------------------------ setup, slurm, batch
SRUN = """#!/bin/bash
while [ $# -gt 0 ] && [ "$1" != pctsp ]; do shift; done
printf '%s\\0' "$@" >> "$SRUN_OUT"
printf '\\n' >> "$SRUN_OUT"
"""


def run_flow(case):
    """setup -> slurm -> every array task of the script run through bash, each `pctsp batch` executed by the real command line."""
    ds, exp_name, keep, batch_size, only_missing, done, tl, logging_level = case
    d = c_exp.world()
    from pctsp.lab import Lab
    from pctsp.vial import Experiment, ExperimentName
    en = ExperimentName(exp_name)
    with tmp() as t:
        labs = t / "labs"
        labs.mkdir()
        roots = ["--lab-dir", labs, "--oplib-root", d / "oplib", "--londonaq-root", d / "londonaq"]
        r = invoke(["setup", ds, exp_name] + roots)
        if failed(r):
            return core.Case("setup: %s" % failed(r), "exit")
        lab = Lab(labs / ds, londonaq_root=d / "londonaq", oplib_root=d / "oplib")
        exp = lab.read_experiment_from_file(en)
        # keep a small experiment of quick vials (setup itself is compared with the named experiment in C26)
        quick = [v for v in exp.vials if v.model_params.is_heuristic]
        base = [quick[i % len(quick)] for i in range(keep)]
        vials = [v.model_copy(update=dict(uuid=uuid.UUID(int=i + 1))) for i, v in enumerate(base)]
        exp = Experiment(name=en, vials=vials, timestamp=exp.timestamp)
        lab.write_experiment_to_file(exp)
        first = set()
        for i in done:
            lab.run_batch(exp, i, 1)
            first.add(vials[i].uuid)
        stamps = {u: (labs / ds / exp_name / str(u)) for u in first}
        before = {u: sorted((f.name, f.read_bytes()) for f in p.iterdir() if f.is_file()) for u, p in stamps.items()}
        todo = [v.uuid for v in vials]
        if only_missing:
            r = invoke(["missing", ds, exp_name, "--lab-dir", labs])
            if failed(r):
                return core.Case("missing: %s" % failed(r), "exit")
            todo = [u for u in todo if u not in first]
        r = invoke(["nbatches", ds, exp_name, batch_size] + roots)
        if failed(r) or int(r.output.split()[-1]) != math.ceil(keep / batch_size):
            return core.Case("nbatches printed %r" % r.output, "nbatches")
        args = ["slurm", ds, exp_name, batch_size] + roots + ["--mem-per-cpu", 777, "--partition", "part7", "--time-limit", tl, "--logging-level", logging_level]
        if only_missing:
            args.append("--only-missing-results")
        r = invoke(args)
        if failed(r):
            return core.Case("slurm: %s" % failed(r), "exit")
        script = labs / ds / exp_name / ("%s.slurm" % exp_name)
        text = script.read_text()
        r = invoke(args)
        if r.exit_code == 0 or script.read_text() != text:
            return core.Case("an existing slurm script was overwritten without --overwrite", "overwrite")
        r = invoke(args + ["--overwrite"])
        if failed(r) or script.read_text() != text:
            return core.Case("overwriting the slurm script: %s" % failed(r), "overwrite")
        head = dict(re.findall(r"^#SBATCH --([a-z-]+)=(.*)$", text, re.M))
        hours = [int(x) for x in head["time"].split(":")]
        secs = hours[0] * 3600 + hours[1] * 60 + hours[2]
        if secs > 48 * 3600 or secs < min(batch_size * tl, 48 * 3600):
            return core.Case("a job of %d vials with a limit of %s seconds each gets %s" % (batch_size, tl, head["time"]), "time")
        if secs > batch_size * tl + 2 * 3600:
            return core.Case("a job of %d vials with a limit of %s seconds each asks for %s" % (batch_size, tl, head["time"]), "time")
        if head["mem-per-cpu"] != "777" or head["partition"] != "part7":
            return core.Case("header %s" % head, "header")
        lo, hi = map(int, re.fullmatch(r"(\d+)-(\d+)", head["array"]).groups())
        bindir = t / "bin"
        bindir.mkdir()
        (bindir / "srun").write_text(SRUN)
        (bindir / "srun").chmod(0o755)
        out = t / "cmds"
        for task in range(lo, hi + 1):
            p = subprocess.run(["bash", "-e", str(script)], env={"PATH": "%s:/usr/bin:/bin" % bindir, "SLURM_ARRAY_TASK_ID": str(task), "SRUN_OUT": str(out)}, cwd=t, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=60)
            if p.returncode:
                return core.Case("task %d of the script fails: %s" % (task, p.stdout[-200:]), "script")
        cmds = [x.split("\0")[:-1] for x in out.read_text().split("\n")[:-1]]
        if len(cmds) != hi - lo + 1:
            return core.Case("%d tasks run %d commands" % (hi - lo + 1, len(cmds)), "script")
        ran = []
        order = list(range(len(cmds)))
        if only_missing or batch_size == 2:
            order.reverse()
        for k in order:
            known = {v.uuid for v in vials if v not in lab.missing_vials(exp, vials)}
            inodes = {v.uuid: state(labs / ds / exp_name / str(v.uuid)) for v in vials}
            r = invoke(cmds[k][1:])
            if cmds[k][0] != "pctsp" or failed(r):
                return core.Case("%s: %s" % (cmds[k], failed(r)), "batch")
            ran += [v.uuid for v in vials if state(labs / ds / exp_name / str(v.uuid)) != inodes[v.uuid]]
        if Counter(ran) != Counter(todo):
            return core.Case("the jobs ran vials %s, expected %s" % (sorted(u.int for u in ran), sorted(u.int for u in todo)), "cover")
        if lab.missing_vials(exp, vials):
            return core.Case("vials are still missing after all batches", "cover")
        if only_missing and any(sorted((f.name, f.read_bytes()) for f in stamps[u].iterdir() if f.is_file()) != before[u] for u in first):
            return core.Case("a finished vial was run again", "cover")
        # one vial run again, by its uuid; and a uuid that no vial has
        for v in (vials[-1], vials[0]):
            old = {x.uuid: state(labs / ds / exp_name / str(x.uuid)) for x in vials}
            r = invoke(["vial", ds, exp_name, v.uuid] + roots)
            ran = [x.uuid for x in vials if state(labs / ds / exp_name / str(x.uuid)) != old[x.uuid]]
            if ran != [v.uuid] or (r.exit_code and not isinstance(r.exception, IndexError)):
                return core.Case("vial %s: ran %s %s" % (v.uuid, ran, failed(r)), "vial")
            if not r.exit_code and str(v.uuid) not in r.output:
                return core.Case("vial %s prints %r" % (v.uuid, r.output[-300:]), "vial")
        old = {x.uuid: state(labs / ds / exp_name / str(x.uuid)) for x in vials}
        r = invoke(["vial", ds, exp_name, uuid.UUID(int=keep + 1)] + roots)
        if not r.exit_code or any(state(labs / ds / exp_name / str(x.uuid)) != old[x.uuid] for x in vials):
            return core.Case("a uuid that no vial has is accepted", "vial")
    return core.Case(outcome=case)


def state(p):
    if not p.exists():
        return None
    return sorted((f.name, f.stat().st_mtime_ns, f.stat().st_size) for f in p.iterdir() if f.name.endswith(".json"))


def gen_flow(shard):
    def it():
        i = 0
        for ds, e in (("tspwplib", "dryrun"), ("londonaq", "dryrun"), ("londonaq", "compare_heuristics"), ("londonaq", "londonaq_alpha")):
            for keep in (1, 2, 3, 4, 5):
                for b in (1, 2, 3, 5, 7):
                    for missing, done in ((False, ()), (True, (0,)), (True, (keep - 1,)), (True, tuple(range(0, keep, 2)))):
                        if missing and len(set(done)) == keep:
                            continue
                        if e in ("compare_heuristics", "londonaq_alpha") and not core.THOROUGH and i % 4:
                            i += 1
                            continue
                        tl = (14400.0, 60.0, 3600.0, 100000.0, 1800.5)[i % 5]
                        yield (ds, e, keep, b, missing, tuple(sorted(set(done))), tl, (20, 10, 40)[i % 3])
                        i += 1
    return core.pick(it(), shard)


# ------------------------------------------------------------------ lab
def run_lab(case):
    ds, e = case
    d = c_exp.world()
    from pctsp.lab import Lab
    from pctsp.vial import ExperimentName, Result
    with tmp() as t:
        labs = t / "labs"
        labs.mkdir()
        roots = ["--lab-dir", labs, "--oplib-root", d / "oplib", "--londonaq-root", d / "londonaq"]
        r = invoke(["lab", ds, e] + roots)
        supported = e in c_exp.SUPPORTED[ds]
        if not supported:
            return core.Case(outcome=case) if r.exit_code else core.Case("unsupported experiment %s on %s is accepted" % (e, ds), "supported")
        if failed(r):
            return core.Case("lab: %s" % failed(r), "exit")
        lab = Lab(labs / ds)
        exp = lab.read_experiment_from_file(ExperimentName(e))
        results = lab.read_results_from_file(exp)
        backup = [Result(**x) for x in json.loads((labs / ds / e / "results.json").read_text())]
        if [x.vial_uuid for x in results] != [v.uuid for v in exp.vials] or [x.model_dump() for x in backup] != [x.model_dump() for x in results]:
            return core.Case("%d vials, %d saved results, %d in the backup" % (len(exp.vials), len(results), len(backup)), "results")
        r = invoke(["nmissing", ds, e, "--lab-dir", labs])
        if failed(r) or not r.output.startswith("0 out of %d" % len(exp.vials)):
            return core.Case("nmissing says %r" % r.output, "nmissing")
    # the vials are those of the named experiment
    lk = c_exp.lookups()[ds]
    from pctsp.vial import DatasetName
    again = lk[ExperimentName(e)](DatasetName(ds), d / ("oplib" if ds == "tspwplib" else "londonaq"))
    strip = lambda vs: Counter((c_exp.key(v.data_config), c_exp.key(v.model_params), c_exp.key(v.preprocessing)) for v in vs)  # noqa: E731
    if strip(again) != strip(exp.vials):
        return core.Case("the lab ran other vials than the experiment %s has" % e, "vials")
    return core.Case(outcome=case)


def gen_lab(shard):
    def it():
        yield ("tspwplib", "dryrun")
        yield ("londonaq", "dryrun")
        yield ("londonaq", "baseline")
        yield ("londonaq", "cost_cover")
        yield ("londonaq", "compare_heuristics")
        yield ("londonaq", "cc_londonaq_alpha")
        yield ("londonaq", "londonaq_alpha")
        yield ("londonaq", "tailing_off")
        yield ("tspwplib", "londonaq_alpha")
        yield ("tspwplib", "cc_londonaq_alpha")
        yield ("londonaq", "simple_branch_cut")
        yield ("londonaq", "disjoint_tours_vs_heuristics")
        yield ("londonaq", "onerun")
    return core.pick(it(), shard)


def run(res):
    c_run.setup()
    import pctsp.apps.main_app  # noqa: F401
    c_exp.world()
    try:
        core.py(res, "single-run", core.chunks(128), gen_one, run_one, 1500 if core.THOROUGH else 400, quiet=True)
        core.py(res, "batching", core.chunks(64), gen_flow, run_flow, 1500 if core.THOROUGH else 400, quiet=True)
        core.py(res, "whole-lab", core.chunks(13), gen_lab, run_lab, 300, quiet=True)
    finally:
        c_exp.drop_world()
