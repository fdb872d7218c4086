"""Experiments: the products of parameters, every named experiment, and the command line around them."""
import itertools
import json
import math
import os
import re
import shlex
import subprocess
import uuid
from collections import Counter
from datetime import datetime
from pathlib import Path

import core
import pyreal
from checks import c_data, c_run, synth
from checks.c_lab import tmp

FLAGS = ("is_exact", "is_heuristic", "is_relaxation")
EXACT_FIELDS = ("branching_max_depth", "branching_strategy", "cost_cover_disjoint_paths", "cost_cover_shortest_path", "sec_disjoint_tour", "sec_lp_gap_improvement_threshold",
                "sec_maxflow_mincut", "sec_max_tailing_off_iterations", "sec_sepafreq", "time_limit")
_w = {}


def world():
    """Synthetic instances for every graph the experiments name (written once, before the workers are forked)."""
    if "d" in _w:
        return _w["d"]
    import tempfile
    import vbuild
    from pctsp.compare import params
    from tspwplib import GraphName, LondonaqGraphName
    base = os.path.join(vbuild.BUILD, "run")
    os.makedirs(base, exist_ok=True)
    d = Path(tempfile.mkdtemp(prefix="world", dir=base))
    names = [g.value for g in params.TSPLIB_GRAPH_NAME_LIST] + ["pr152", "gr229", "eil76"]
    for i, n in enumerate(sorted(set(names) | set(c_data.PTS))):
        for j, gen in enumerate(("gen1", "gen2", "gen3")):
            k = 4 + (i + j) % 3
            pts = [((a * 17 + i * 3) % 41, (a * a * 11 + i * 7 + j) % 37) for a in range(k)]
            depot = 1 + (i + j) % k
            prizes = [0 if a + 1 == depot else (a * (3 + i) + j * 5) % 31 + 2 for a in range(k)]
            synth.oplib(d / "oplib", gen, n, pts, prizes, depot)
            _w["tspwplib", n, gen] = (pts, dict(enumerate(prizes, 1)), depot)
    for i, n in enumerate(x.value for x in LondonaqGraphName):
        lab = [10 * i + v for v in range(4 + i % 2)]
        cost = {(u, v): 3 + (u * 7 + v * 13) % 23 for u, v in itertools.combinations(lab, 2)}
        prize = {v: 40 * (i + 1) + 7 * j for j, v in enumerate(lab)}
        if i % 2:  # 800 and 1600 in total: per cents that are no binary fractions
            prize[lab[-1]] += 400 * (i + 1) - sum(prize.values())
        depot = lab[i % len(lab)]
        synth.londonaq(d / "londonaq", n, cost, prize, depot)
        _w["londonaq", n, None] = (cost, prize, depot)
    _w["d"] = d
    return d


def drop_world():
    import shutil
    if "d" in _w:
        shutil.rmtree(_w.pop("d"), ignore_errors=True)


def quota_of(total, alpha):
    return alpha * total // 100


def key(m):
    return json.dumps(json.loads(m.model_dump_json()), sort_keys=True)


def data_error(c, cost=None):
    """Is the quota, root and dataset of a data configuration right for the instance it names?"""
    ds = c.dataset.value
    k = (ds, c.graph_name.value, c.generation.value if c.generation else None)
    if k not in _w:
        return "no such instance: %s" % (k,)
    _, prize, depot = _w[k]
    if c.root != depot:
        return "root %s of %s, the depot is %s" % (c.root, k, depot)
    if c.alpha is not None and c.quota != quota_of(sum(prize.values()), c.alpha):
        return "quota %s of %s for alpha %s, total prize %s" % (c.quota, k, c.alpha, sum(prize.values()))
    return None


# ------------------------------------------------------------------ products
def run_product(case):
    from pctsp.compare import product_of_params as P
    from pctsp.vial import AlgorithmName, DataConfig, ModelParams
    from tspwplib import Generation, GraphName, LondonaqGraphName
    from tspwplib.types import EdgeWeightType
    d = world()
    kind = case[0]
    if kind == "tspwplib":
        al, ka, ge, gr, cf = case[1:]
        got = P.product_of_tspwplib_data_config(d / "oplib", list(al), list(ka), [Generation(x) for x in ge], [GraphName(x) for x in gr], [EdgeWeightType(x) for x in cf])
        have = Counter((c.alpha, c.kappa, c.generation.value, c.graph_name.value, c.cost_function.value) for c in got)
        want = Counter((a, k or None, g, n, f) for a, k, g, n, f in itertools.product(al, ka, ge, gr, cf))
    elif kind in ("londonaq", "alpha"):
        qs, ns = case[1:]
        f = P.product_of_londonaq_data_config if kind == "londonaq" else P.product_of_londonaq_data_config_from_alpha
        got = f(d / "londonaq", list(qs), [LondonaqGraphName(x) for x in ns])
        have = Counter((c.quota if kind == "londonaq" else c.alpha, c.graph_name.value, c.cost_function.value, c.kappa, c.generation) for c in got)
        want = Counter((q, n, "EXPLICIT", None, None) for q, n in itertools.product(qs, ns))
    elif kind == "model":
        algs, kw = case[1], dict(case[2])
        got = P.product_of_model_params([AlgorithmName(a) for a in algs], **kw)
        have = Counter(m.algorithm.value for m in got)
        want = Counter(algs)
        for m in got:
            err = model_error(m)
            if err:
                return core.Case(err, "model")
            if m.is_exact and m.time_limit != kw.get("time_limit", 14400.0):
                return core.Case("time limit %r" % m.time_limit, "model")
            given = {k: v for k, v in json.loads(m.model_dump_json()).items() if v is not None}
            spec = dict(_plain([m.algorithm.value], kw.get("time_limit", 14400.0))[0])
            spec.update({k: kw[k] for k in ("collapse_paths", "path_depth_limit", "step_size") if k in kw and k in spec})
            if given != spec:
                return core.Case("%s has %r, should be %r" % (m.algorithm.value, given, spec), "model")
            opts = (m.collapse_paths, m.path_depth_limit, m.step_size)
            if opts != (None, None, None):
                want_opts = (kw.get("collapse_paths", False), kw.get("path_depth_limit", 2), kw.get("step_size", 1))
                if opts != want_opts:
                    return core.Case("%s has path options %r, given %r" % (m.algorithm, opts, want_opts), "model")
            if ("path" in m.algorithm.value or "collapse" in m.algorithm.value) and opts == (None, None, None):
                return core.Case("%s has no path options" % m.algorithm, "model")
        if [m.algorithm.value for m in got] != list(algs) and Counter(have) == want:
            pass  # the order is not promised
    elif kind == "pre":
        a, b, c = case[1:]
        got = P.product_of_preprocessing(list(a), list(b), list(c))
        have = Counter((p.remove_disconnected_components, p.remove_leaves, p.remove_one_connected_components, p.disjoint_path_cutoff, p.shortest_path_cutoff) for p in got)
        want = Counter((x, y, z, False, False) for x, y, z in itertools.product(a, b, c))
    else:  # vials
        nd, nm, npre = case[1:]
        ds = [DataConfig(dataset="londonaq", cost_function="EXPLICIT", graph_name="laqtinyA", quota=i + 1, root=3 - i) for i in range(nd)]
        ms = [ModelParams(algorithm=a, is_exact=a == "solve_pctsp", is_heuristic=a != "solve_pctsp", is_relaxation=False, step_size=i)
              for i, a in enumerate(("solve_pctsp", "suurballes_heuristic", "bfs_extension_collapse")[:nm])]
        ps = P.product_of_preprocessing([False], [False, True], [True, False])[:npre]
        before = [key(x) for x in ds + ms + ps]
        got = P.product_of_vials(ds, ms, ps)
        have = Counter((key(v.data_config), key(v.model_params), key(v.preprocessing)) for v in got)
        want = Counter((key(a), key(b), key(c)) for a, b, c in itertools.product(ds, ms, ps))
        if len({v.uuid for v in got}) != len(got):
            return core.Case("two vials share an identifier", "uuid")
        again = P.product_of_vials(ds, ms, ps)
        if {v.uuid for v in got} & {v.uuid for v in again}:
            return core.Case("vials of two experiments share an identifier", "uuid")
        if before != [key(x) for x in ds + ms + ps]:
            return core.Case("the parameter lists were changed", "frame")
    if have != want:
        return core.Case("missing %s, unexpected %s" % (list((want - have).items())[:4], list((have - want).items())[:4]), kind)
    if kind in ("tspwplib", "londonaq", "alpha"):
        for c in got:
            err = data_error(c)
            if err or c.dataset.value != ("tspwplib" if kind == "tspwplib" else "londonaq"):
                return core.Case(err or "dataset %s" % c.dataset, "data")
    return core.Case(outcome=case, nontrivial=bool(got))


def model_error(m):
    exact = m.algorithm.value == "solve_pctsp"
    relax = m.algorithm.value == "disjoint_tours_relaxation"
    if (m.is_exact, m.is_heuristic, m.is_relaxation) != (exact, not exact and not relax, relax):
        return "%s is marked exact=%s heuristic=%s relaxation=%s" % (m.algorithm.value, m.is_exact, m.is_heuristic, m.is_relaxation)
    if exact and any(getattr(m, f) is None for f in EXACT_FIELDS):
        return "%s lacks %s" % (m.algorithm.value, [f for f in EXACT_FIELDS if getattr(m, f) is None])
    if exact and not (m.sec_disjoint_tour or m.sec_maxflow_mincut):
        return "no subtour elimination is switched on"
    return None


def sub(xs, most=2):
    return [c for k in range(most + 1) for c in itertools.combinations(xs, k)]


def gen_product(shard):
    def it():
        for al in sub((5, 33, 50, 100, 0), 2):
            for ka in ((), (None,), (0, 3), (None, 10)):
                for ge in ((), ("gen2",), ("gen1", "gen3")):
                    for gr in ((), ("st70",), ("eil51", "pr1002")):
                        for cf in (("EUC_2D",), ("EUC_2D", "MST"), ("UNIFORM_RANDOM",), ()):
                            if sum(not x for x in (al, ka, ge, gr, cf)) < 2:
                                yield ("tspwplib", al, ka, ge, gr, cf)
        for ns in sub(("laqtinyA", "laqbbA", "laqidA", "laqkxA", "laqwsA"), 3):
            for qs in sub((0, 1, 200, 5000), 3):
                yield ("londonaq", qs, ns)
            for al in sub((0, 5, 50, 75, 100), 3):
                yield ("alpha", al, ns)
        for a in range(101):
            yield ("alpha", (a,), ("laqtinyA", "laqbbA", "laqidA", "laqkxA", "laqwsA"))
            yield ("tspwplib", (a,), (None, 10), ("gen1", "gen2", "gen3"), ("st70", "eil51"), ("EUC_2D",))
        from pctsp.vial import AlgorithmName
        algs = [a.value for a in AlgorithmName]
        for s in sub(algs, 3):
            yield ("model", s, ())
        for kw in itertools.product((("collapse_paths", True), ("collapse_paths", False)), (("path_depth_limit", 5), ("path_depth_limit", 2)), (("step_size", 7), ("step_size", 1)), (("time_limit", 33.0), ("time_limit", 14400.0))):
            yield ("model", tuple(algs), kw)
            yield ("model", tuple(reversed(algs)) + ("solve_pctsp",), kw)
        for abc in itertools.product(((), (True,), (False,), (True, False)), repeat=3):
            yield ("pre",) + abc
        for nmp in itertools.product(range(4), range(4), range(5)):
            yield ("vials",) + nmp
    return core.pick(it(), shard)


# ------------------------------------------------------------------ named experiments
def lookups():
    from pctsp.apps import main_app as M
    return {"tspwplib": M.tsplib_experiment_lookup, "londonaq": M.londonaq_experiment_lookup}


# The settings of the study, written down independently of the code: model parameters that are not listed are not set.
def _pm(alg, **kw):
    return dict(kw, algorithm=alg, is_exact=alg == "solve_pctsp", is_heuristic=alg not in ("solve_pctsp", "disjoint_tours_relaxation"), is_relaxation=alg == "disjoint_tours_relaxation")


def _plain(algs, limit):
    """What product_of_model_params sets: the exact algorithm with every subtour elimination and nothing else, the heuristics with short paths."""
    exact = dict(branching_max_depth=-1, branching_strategy=0, cost_cover_disjoint_paths=False, cost_cover_shortest_path=False, sec_disjoint_tour=True, sec_maxflow_mincut=True,
                 sec_lp_gap_improvement_threshold=0.001, sec_max_tailing_off_iterations=-1, sec_sepafreq=1, time_limit=limit)
    short = dict(collapse_paths=False, path_depth_limit=2, step_size=1)
    return [_pm(a, **(exact if a == "solve_pctsp" else short if "collapse" in a else {})) for a in algs]


def _tuned(**kw):
    return _pm("solve_pctsp", **{**dict(branching_max_depth=1, branching_strategy=2, collapse_paths=True, cost_cover_disjoint_paths=False, cost_cover_shortest_path=False,
               heuristic="suurballes_path_extension_collapse", sec_disjoint_tour=True, sec_lp_gap_improvement_threshold=0.001, sec_maxflow_mincut=True,
               sec_max_tailing_off_iterations=5, sec_sepafreq=1, step_size=10, time_limit=14400.0), **kw})


_CC = [_tuned(), _tuned(cost_cover_disjoint_paths=True), _tuned(cost_cover_shortest_path=True)]
_SHORT, _LONG = dict(collapse_paths=False, path_depth_limit=2, step_size=1), dict(collapse_paths=True, step_size=10)
_HEUR = [_pm("bfs_extension_collapse", **_SHORT), _pm("bfs_path_extension_collapse", **_LONG), _pm("suurballes_extension_collapse", **_SHORT),
         _pm("suurballes_path_extension_collapse", **_LONG), _pm("suurballes_heuristic")]
_BASIC = ("bfs_extension_collapse", "suurballes_heuristic", "solve_pctsp")
STUDY = {
    "baseline": [_tuned(collapse_paths=False, heuristic="bfs_extension_collapse", step_size=1)],
    "cost_cover": _CC, "cc_londonaq_alpha": _CC, "compare_heuristics": _HEUR, "londonaq_alpha": _HEUR,
    "tailing_off": [_tuned(cost_cover_disjoint_paths=True, branching_strategy=b, sec_max_tailing_off_iterations=t) for b in (2, 4) for t in (-1, 5, 10)],
    "simple_branch_cut": _plain(_BASIC, 14400.0), "dryrun": _plain(_BASIC, 10.0),
    "disjoint_tours_vs_heuristics": _plain(("disjoint_tours_relaxation", "bfs_extension_collapse", "suurballes_heuristic"), 14400.0),
}
_NINE = ["eil51", "st70", "rat195", "tsp225", "a280", "pr439", "rat575", "gr666", "pr1002"]
_ALL = dict(alpha=[5, 10, 25, 50, 75], kappa=[5, 10, 15, 20, 25], generation=["gen1", "gen2", "gen3"], graph_name=_NINE, cost_function=["EUC_2D", "MST"])
_LAQ = ["laqbbA", "laqidA", "laqkxA", "laqwsA"]
DATA = {("tspwplib", n): _ALL for n in ("baseline", "compare_heuristics", "cost_cover")}
DATA.update({("londonaq", n): dict(quota=[1000, 2000, 3000, 4000, 5000], graph_name=_LAQ) for n in ("baseline", "compare_heuristics", "cost_cover", "tailing_off")})
DATA.update({("londonaq", n): dict(alpha=_ALL["alpha"], graph_name=_LAQ) for n in ("cc_londonaq_alpha", "londonaq_alpha")})
DATA.update({
    ("tspwplib", "tailing_off"): dict(_ALL, alpha=[25, 75], kappa=[10, 20]),
    ("tspwplib", "simple_branch_cut"): dict(alpha=[25, 50, 75], kappa=[None, 10, 20, 30], generation=_ALL["generation"], graph_name=["st70", "rat195", "pr152", "gr229"], cost_function=_ALL["cost_function"]),
    ("tspwplib", "disjoint_tours_vs_heuristics"): dict(alpha=[25, 50, 75], kappa=[5, 10, 15, 20], generation=_ALL["generation"], graph_name=["st70", "rat195", "a280"], cost_function=["EUC_2D"]),
    ("tspwplib", "dryrun"): dict(alpha=[50], kappa=[10], generation=["gen1"], graph_name=["st70"], cost_function=["EUC_2D"]),
    ("londonaq", "dryrun"): dict(quota=[200], graph_name=["laqtinyA"])})


def study_error(ds, name, D, M, P):
    """Are the settings those of the study?"""
    def norm(d):
        return json.dumps({k: v for k, v in d.items() if v is not None}, sort_keys=True)
    want, have = {norm(m) for m in STUDY[name]}, {norm(json.loads(k)) for k in M}
    if want != have:
        return "unexpected model settings %s, missing %s" % (sorted(have - want)[:2], sorted(want - have)[:2])
    pre = [(p.remove_disconnected_components, p.remove_leaves, p.remove_one_connected_components) for p in P.values()]
    if pre != [(False, False, True)]:
        return "preprocessing %s" % pre
    dims = DATA[ds, name]
    plain = lambda x: getattr(x, "value", x)  # noqa: E731
    have = Counter(tuple(plain(getattr(c, x)) for x in dims) for c in D.values())
    want = Counter(itertools.product(*dims.values()))
    if have != want:
        return "instances of %s: unexpected %s, missing %s" % (tuple(dims), list(have - want)[:3], list(want - have)[:3])
    return None


def run_experiment_case(case):
    from pctsp.apps.main_app import select_root_and_lookup
    from pctsp.compare import params
    from pctsp.vial import DatasetName, ExperimentName
    how, ds, name = case
    d = world()
    en = ExperimentName(name)
    dataset = DatasetName(ds)
    if how == "direct":
        # the function of the experiment itself, not through the lookup of the command line
        import pctsp.compare as C
        import importlib
        f = getattr(C, name, None) or next(getattr(m, name) for m in (importlib.import_module("pctsp.compare." + x) for x in ("exact_experiment", "heuristic_experiment", "relaxation_experiment", "dryrun_experiment")) if hasattr(m, name))
        try:
            vials = f(dataset, d / ("oplib" if ds == "tspwplib" else "londonaq"))
        except ValueError:
            vials = None
        if (vials is None) == (name in SUPPORTED[ds]):
            return core.Case("%s over %s gives %s" % (name, ds, "an error" if vials is None else "%d vials" % len(vials)), "dataset")
        if vials is None:
            return core.Case(outcome=case, nontrivial=False)
    if how == "direct":
        D, M, P = ({key(x): x for x in (getattr(v, a) for v in vials)} for a in ("data_config", "model_params", "preprocessing"))
        err = study_error(ds, name, D, M, P)
        return core.Case(err, "settings") if err else core.Case(outcome=case)
    try:
        root, lk = select_root_and_lookup(dataset, en, d / "oplib", d / "londonaq")
        vials = lk[en](dataset, root)
    except ValueError:
        if name not in SUPPORTED[ds]:
            return core.Case(outcome=case, nontrivial=False)
        raise
    if name not in SUPPORTED[ds]:
        return core.Case("experiment %s is not defined over %s but gave %d vials" % (name, ds, len(vials)), "dataset")
    if root != d / ("oplib" if ds == "tspwplib" else "londonaq"):
        return core.Case("root directory %s for %s" % (root, ds), "root")
    if not vials:
        return core.Case("no vials", "empty")
    if len({v.uuid for v in vials}) != len(vials):
        return core.Case("two vials share an identifier", "uuid")
    D = {key(v.data_config): v.data_config for v in vials}
    M = {key(v.model_params): v.model_params for v in vials}
    P = {key(v.preprocessing): v.preprocessing for v in vials}
    have = Counter((key(v.data_config), key(v.model_params), key(v.preprocessing)) for v in vials)
    if len(have) != len(vials) or len(have) != len(D) * len(M) * len(P):
        return core.Case("%d vials, %d distinct, %d data x %d models x %d preprocessing" % (len(vials), len(have), len(D), len(M), len(P)), "product")
    for c in D.values():
        err = data_error(c)
        if err or c.dataset != dataset:
            return core.Case(err or "dataset %s" % c.dataset, "data")
    dims = ("alpha", "kappa", "generation", "graph_name", "cost_function") if ds == "tspwplib" else (("alpha" if "alpha" in name else "quota"), "graph_name")
    vals = [sorted({getattr(c, x) for c in D.values()}, key=str) for x in dims]
    if len(D) != len({tuple(getattr(c, x) for x in dims) for c in D.values()}) or len(D) != math.prod(map(len, vals)):
        return core.Case("data configurations are not the product of %s" % dict(zip(dims, vals)), "product")
    full = {"alpha": params.TSPLIB_ALPHA_LIST, "kappa": params.TSPLIB_KAPPA_LIST, "cost_function": params.TSPLIB_COST_FUNCTIONS, "quota": params.LONDONAQ_QUOTA_LIST,
            "graph_name": params.TSPLIB_GRAPH_NAME_LIST if ds == "tspwplib" else params.LONDONAQ_GRAPH_NAME_LIST}
    if name in ("baseline", "compare_heuristics", "cost_cover", "cc_londonaq_alpha", "londonaq_alpha"):
        for x, v in zip(dims, vals):
            if x in full and sorted(full[x], key=str) != v:
                return core.Case("%s covers %s=%s, the shared parameters are %s" % (name, x, v, full[x]), "coverage")
    if "generation" in dims and name != "dryrun" and len(vals[dims.index("generation")]) != 3:
        return core.Case("not every generation is covered", "coverage")
    for m in M.values():
        err = model_error(m)
        if err:
            return core.Case(err, "model")
    ms = [json.loads(k) for k in M]
    differ = {f for f in ms[0] if len({json.dumps(m[f]) for m in ms}) > 1}
    algs = sorted(m["algorithm"] for m in ms)
    if name in ("cost_cover", "cc_londonaq_alpha"):
        if differ != {"cost_cover_disjoint_paths", "cost_cover_shortest_path"} or sorted((m["cost_cover_disjoint_paths"], m["cost_cover_shortest_path"]) for m in ms) != [(False, False), (False, True), (True, False)]:
            return core.Case("the cost cover experiment compares %s" % [{f: m[f] for f in differ} for m in ms], "compare")
    elif name == "tailing_off":
        if not differ <= {"branching_strategy", "sec_max_tailing_off_iterations"} or len(ms) != len({m["branching_strategy"] for m in ms}) * len({m["sec_max_tailing_off_iterations"] for m in ms}):
            return core.Case("the tailing off experiment also differs in %s" % sorted(differ), "compare")
        if -1 not in {m["sec_max_tailing_off_iterations"] for m in ms} or len({m["sec_max_tailing_off_iterations"] for m in ms}) < 2:
            return core.Case("the tailing off experiment does not compare with and without the limit", "compare")
    elif name in ("compare_heuristics", "londonaq_alpha"):
        if algs != sorted(c_run.HEUR):
            return core.Case("the heuristics compared are %s" % algs, "compare")
    elif name == "baseline":
        if len(ms) != 1 or ms[0]["cost_cover_disjoint_paths"] or ms[0]["cost_cover_shortest_path"] or algs != ["solve_pctsp"]:
            return core.Case("the baseline is %s" % ms, "compare")
    elif name in ("dryrun", "simple_branch_cut"):
        if "solve_pctsp" not in algs or len(algs) != len(set(algs)):
            return core.Case("algorithms %s" % algs, "compare")
    if any(p.shortest_path_cutoff or p.disjoint_path_cutoff for p in P.values()):
        return core.Case("a preprocessing step that does not exist is switched on", "pre")
    err = study_error(ds, name, D, M, P)
    if err:
        return core.Case(err, "settings")
    # every setting can be run: one vial per distinct setting, on the first data configurations
    runnable = [v for i, v in enumerate(vials) if not v.model_params.is_relaxation]
    pick = {}
    for v in runnable:
        pick.setdefault((key(v.model_params), key(v.preprocessing)), []).append(v)
    chosen = [v for vs in pick.values() for v in (vs[:1] + vs[len(vs) // 2:len(vs) // 2 + 1] + vs[-1:])]
    with tmp() as t:
        from pctsp.lab import Lab
        from pctsp.vial import Experiment
        lab = Lab(t / "lab", londonaq_root=d / "londonaq", oplib_root=d / "oplib")
        exp = Experiment(name=en, vials=chosen, timestamp=datetime(2024, 1, 1))
        pyreal.CALLS.clear()
        res = lab.run_experiment(exp)
    done = {r.vial_uuid for r in res}
    for v in chosen:
        if v.uuid not in done:
            return core.Case("vial with %s over %s gives no result" % (v.model_params, v.data_config), "runnable")
    return core.Case(outcome=case, traces=len(chosen))


SUPPORTED = {"tspwplib": {"baseline", "compare_heuristics", "cost_cover", "disjoint_tours_vs_heuristics", "dryrun", "simple_branch_cut", "tailing_off"},
             "londonaq": {"baseline", "compare_heuristics", "cost_cover", "cc_londonaq_alpha", "dryrun", "londonaq_alpha", "tailing_off"}}


def gen_exp(shard):
    def it():
        from pctsp.vial import ExperimentName
        for ds in ("tspwplib", "londonaq"):
            for e in ExperimentName:
                yield ("lookup", ds, e.value)
                if e.value != "onerun" and (ds, e.value) != ("tspwplib", "londonaq_alpha"):  # which ignores the dataset's name
                    yield ("direct", ds, e.value)
    return core.pick(it(), shard)


def run(res):
    c_run.setup()
    import pctsp.apps.main_app  # noqa: F401
    world()
    try:
        core.py(res, "products", core.chunks(32), gen_product, run_product, 300, quiet=True)
        core.py(res, "experiments", core.chunks(20), gen_exp, run_experiment_case, 300, quiet=True)
    finally:
        drop_world()
