"""What a vial is run on: the graph its data configuration describes, and every option reaching the solver."""
import itertools
import math
import uuid
from datetime import datetime
from pathlib import Path

import core
import pyreal
from checks import c_mip, c_run, graphs, synth
from checks.c_lab import tmp
from checks.c_wrap import COSTS

BIND = ("model", "edges", "heur_edges", "cost", "prize", "quota", "root", "branching_max_depth", "branching_strategy", "cost_cover_disjoint_paths", "cost_cover_shortest_path",
        "cycle_cover", "disjoint_paths_cost", "logging_level", "name", "sec_disjoint_tour", "sec_lp_gap_improvement_threshold", "sec_maxflow_mincut",
        "sec_max_tailing_off_iterations", "sec_sepafreq", "simple_rules_only", "solver_dir", "time_limit")
PTS = {"eil51": [(0, 0), (10, 1), (17, 9), (2, 23), (31, 4)], "st70": [(3, 1), (40, 7), (9, 60), (55, 58), (20, 33), (71, 15)], "berlin52": [(5, 5), (9, 30), (41, 2), (60, 37)]}
SCORES = {"gen1": 1, "gen2": 7, "gen3": 13}
LON = {"laqtinyA": ({(0, 1): 3, (1, 2): 4, (0, 2): 5, (0, 3): 1, (2, 3): 9, (3, 4): 2, (0, 4): 21}, {0: 0, 1: 100, 2: 150, 3: 7, 4: 3}),
       "laqkxA": ({(10, 2): 8, (2, 7): 1, (10, 7): 30, (7, 5): 12, (5, 10): 2, (5, 2): 40}, {10: 5, 2: 9, 7: 0, 5: 14}),
       "laqbbA": ({(u, v): COSTS[i] * 5 + i for i, (u, v) in enumerate(graphs.pairs(5))}, {v: 2 * v + 1 for v in range(5)})}
KAPPA = (None, 1, 2, 3, 50)
# larger instances: costs far apart, so that every spanning forest is unique
PTS_L = {"rat99": [(graphs.scramble(i, 71) % 100003, graphs.scramble(i, 72) % 99991) for i in range(14)],
         "kroA100": [(graphs.scramble(i, 73) % 100003, graphs.scramble(i, 74) % 99991) for i in range(21)]}
PTS_D = {"pr76": [(graphs.scramble(i, 77) % 100003, graphs.scramble(i, 78) % 99991) for i in range(64)]}  # to be sparsified to many edges
LON_L = {"laqidA": ({(5 * u + 3, 5 * v + 3): c for (u, v), c in graphs.family(17, 2, 3, 5).items()}, {5 * v + 3: graphs.scramble(v, 75) % 900 for v in range(17)}),
         "laqwsA": ({(40 - u, 40 - v): c for (u, v), c in graphs.family(26, 3, 3, 4).items()}, {40 - v: graphs.scramble(v, 76) % 50 for v in range(26)})}


def setup():
    c_run.setup()
    import pctsp.lab.lab as L
    L.get_pctsp_logger  # noqa: B018


def scores(gen, n):
    return [0] + [(i * SCORES[gen]) % 29 + 1 for i in range(1, n)]


def dataset(d, only=None):
    every = not only or only[0] in PTS_L or only[0] in LON_L
    for name, pts in {**PTS, **(PTS_L if every else {})}.items():
        for gen in SCORES:
            if only in (None, (name, gen)):
                synth.oplib(d / "oplib", gen, name, pts, scores(gen, len(pts)))
    if only and only[0] in PTS_D:
        synth.oplib(d / "oplib", only[1], only[0], PTS_D[only[0]], scores(only[1], len(PTS_D[only[0]])))
    for name, (cost, prize) in {**LON, **(LON_L if every else {})}.items():
        if only in (None, (name, None)):
            synth.londonaq(d / "londonaq", name, cost, prize, depot=min(prize))
    for x in ("oplib", "londonaq"):
        (d / x).mkdir(exist_ok=True)


def instances():
    return [("tspwplib", n, g) for n in PTS for g in SCORES] + [("londonaq", n, None) for n in LON]


def original(inst):
    """Costs (unordered pairs, loops included) and prizes of an instance, worked out from its definition."""
    ds, name, gen = inst
    if ds == "londonaq":
        c, p = LON.get(name) or LON_L[name]
        return {frozenset(k): v for k, v in c.items()}, dict(p)
    pts = PTS.get(name) or PTS_L.get(name) or PTS_D[name]
    cost = {frozenset((i + 1, j + 1)): math.ceil(math.hypot(pts[i][0] - pts[j][0], pts[i][1] - pts[j][1])) for i in range(len(pts)) for j in range(i, len(pts))}
    return cost, {i + 1: s for i, s in enumerate(scores(gen, len(pts)))}


def components(vs, keys):
    comp = {v: v for v in vs}

    def find(x):
        while comp[x] != x:
            x = comp[x]
        return x
    return comp, find


def tree_trees(vs, cost):
    """(bottleneck test) edges that are in every / in no minimum spanning forest, and a forest's path costs."""
    comp, find = components(vs, cost)
    tree = []
    for k in sorted((k for k in cost if len(k) == 2), key=lambda k: cost[k]):
        u, v = tuple(k)
        if find(u) != find(v):
            comp[find(u)] = find(v)
            tree.append(k)
    dist = {}
    for s in vs:
        dist[s, s] = 0
        todo = [s]
        while todo:
            x = todo.pop()
            for k in tree:
                if x in k:
                    (y,) = k - {x}
                    if (s, y) not in dist:
                        dist[s, y] = dist[s, x] + cost[k]
                        todo.append(y)
    return set(tree), dist


def brute(cost, prize, root, quota):
    vs = sorted(prize)
    idx = {v: i for i, v in enumerate(vs)}
    c = {tuple(sorted((idx[a], idx[b]))): w for k, w in cost.items() if len(k) == 2 for a, b in [tuple(k)]}
    out = [(graphs.cyc_cost(c, t), sum(prize[vs[v]] for v in t)) for t in graphs.simple_cycles_through(graphs.adj(len(vs), list(c)), idx[root])]
    out = [a for a, p in out if p >= quota]
    return min(out) if out else None


def args_of(call):
    fn, a, k = call
    d = dict(zip(BIND, a))
    d.update(k)
    return d


def data(inst, quota, root, kappa, cf):
    ds, name, gen = inst
    return dict(dataset=ds, graph_name=name, generation=gen, quota=quota, root=root, kappa=kappa, cost_function=cf)


def run_lab(d, vials, quiet=True):
    from pctsp.lab import Lab
    from pctsp.vial import Experiment
    lab = Lab(d / "lab", londonaq_root=d / "londonaq", oplib_root=d / "oplib")
    return lab.run_experiment(Experiment(name="dryrun", vials=vials, timestamp=datetime(2024, 1, 1)))


def check_graph(a, inst, kappa, cf, root, quota, full=True):
    """Does the call into the solver describe the configured graph?"""
    cost0, prize0 = original(inst)
    cost = {frozenset(k): v for k, v in a["cost"].items()}
    edges = [frozenset(e) for e in a["edges"]]
    if len(set(edges)) != len(edges) or set(edges) != set(cost):
        return "edges %s, costs for %s" % (sorted(map(sorted, edges)), sorted(map(sorted, cost)))
    if a["root"] != root or a["quota"] != quota:
        return "root %r quota %r" % (a["root"], a["quota"])
    if full and dict(a["prize"]) != prize0:
        return "prizes %r, expected %r" % (a["prize"], prize0)
    if not set(cost) <= set(cost0):
        return "edges not in the data: %s" % sorted(map(sorted, set(cost) - set(cost0)))
    n = len(prize0)
    if full:
        want = len(cost0) if kappa is None else min(len(cost0), max(kappa * n, sum(len(k) == 1 for k in cost0)))
        if len(cost) != want:
            return "%d edges left for kappa=%s of %d (%d vertices)" % (len(cost), kappa, len(cost0), n)
        if any(k not in cost for k in cost0 if len(k) == 1):
            return "a self loop was removed"
    if any(cost[k] != 0 for k in cost if len(k) == 1):
        return "self loops cost %s" % {tuple(k): cost[k] for k in cost if len(k) == 1}
    plain = {k: cost0[k] for k in cost}
    real = [k for k in cost if len(k) == 2]
    if cf in ("EUC_2D", "EXPLICIT"):
        if cost != plain:
            return "costs %s, expected %s" % (cost, plain)
    elif cf == "UNIFORM_RANDOM":
        if any(not 1 <= cost[k] <= 100 for k in real):
            return "random cost outside 1..100: %s" % cost
        if len(real) > 3 and cost == plain:
            return "costs were not randomised"
    elif full:  # MST, SEMI_MST: the instances have unique forests
        tree, dist = tree_trees(prize0, plain)
        mst = {k: plain[k] if len(k) == 1 or k in tree else plain[k] + dist[tuple(k)] for k in cost}
        if cf == "MST" and cost != mst:
            return "MST costs %s, expected %s" % (cost, mst)
        if cf == "SEMI_MST":
            if any(cost[k] not in (plain[k], mst[k]) for k in cost):
                return "semi-MST costs %s, plain %s, MST %s" % (cost, plain, mst)
            non = [k for k in cost if k not in tree]
            kept = [k for k in non if cost[k] == plain[k] and len(k) == 2]
            # half of the non-tree edges (rounded in favour of unchanged) keep their cost
            if len(kept) > len(non) // 2 + 1:
                return "semi-MST changed too few of %d non-tree edges: %d unchanged" % (len(non), len(kept))
    return None


def semi_ok(inst, kappa):
    """The dataset library cannot draw from a single non-tree edge."""
    return inst[0] == "tspwplib" or kappa not in (1,)


def exact_model(i):
    return c_run.EXACT0 if i % 2 else dict(c_run.EXACT0, sec_maxflow_mincut=False, cost_cover_shortest_path=True)


def quotas(inst):
    total = sum(original(inst)[1].values())
    return (1, total // 2, total, total + 1)


def run_case(case):
    inst, kappa, cf, root, quota, i = case
    pyreal.CALLS.clear()
    vial = c_run.mkvial(root, quota, exact_model(i), data=data(inst, quota, root, kappa, cf))
    with tmp() as d:
        dataset(d, only=inst[1:] if i % 2 else None)
        r = run_lab(d, [vial])
        calls = [args_of(c) for c in pyreal.CALLS if c[0] == "solve_pctsp_bind"]
        pyreal.CALLS.clear()
        again = run_lab(d, [vial])
        calls2 = [args_of(c) for c in pyreal.CALLS if c[0] == "solve_pctsp_bind"]
    cost0 = original(inst)[0]
    if len(calls) != 1 or len(calls2) != 1:
        return core.Case("%d calls of the solver for one vial" % len(calls), "calls")
    a = calls[0]
    err = check_graph(a, inst, kappa, cf, root, quota)
    if err:
        return core.Case(err, cf + "/kappa" * bool(kappa))
    if any(a[k] != calls2[0][k] for k in ("edges", "cost", "prize", "root", "quota")):
        return core.Case("the same vial is run on a different graph the second time", "repeat")
    cost = {frozenset(k): v for k, v in a["cost"].items()}
    if not any(root in k for k in cost):
        if r:
            return core.Case("a root without edges gave %r" % r, "isolated")
        return core.Case(nontrivial=False)
    want = brute(cost, a["prize"], root, quota)
    if len(r) != 1:
        return core.Case("no result", "result")
    got = r[0].objective if r[0].edge_list else None
    if got != want or (got is not None and (r[0].prize < quota or any(frozenset(e) not in cost for e in r[0].edge_list))):
        return core.Case("result %r, the optimum of the configured graph is %s" % (r[0], want), "optimum")
    if again[0].objective != r[0].objective:
        return core.Case("second run differs", "repeat")
    return core.Case(outcome=(inst, kappa, cf, root, quota), nontrivial=want is not None)


def gen(shard):
    def it():
        i = 0
        for inst in instances():
            vs = sorted(original(inst)[1])
            for kappa in KAPPA:
                for cf in (("EUC_2D" if inst[0] == "tspwplib" else "EXPLICIT"), "UNIFORM_RANDOM", "MST", "SEMI_MST"):
                    if cf == "SEMI_MST" and not semi_ok(inst, kappa):
                        continue
                    for root in (vs if core.THOROUGH else (vs[0], vs[2])):
                        for quota in quotas(inst):
                            yield (inst, kappa, cf, root, quota, i)
                            i += 1
    return core.pick(it(), shard)


def run_large(case):
    """Larger instances: the graph that reaches the solver and the tour that comes back, not its cost."""
    inst, kappa, cf, root, quota = case
    pyreal.CALLS.clear()
    dense = inst[1] in PTS_D
    m = dict(c_run.EXACT0, time_limit=0.5 if dense else 20.0, heuristic=None if kappa in (2, 3) else "bfs_extension_collapse")
    with tmp() as d:
        dataset(d, only=inst[1:])
        r = run_lab(d, [c_run.mkvial(root, quota, m, data=data(inst, quota, root, kappa, cf))])
    calls = [args_of(c) for c in pyreal.CALLS if c[0] == "solve_pctsp_bind"]
    if len(calls) != 1:
        return core.Case("%d calls of the solver for one vial" % len(calls), "calls")
    a = calls[0]
    err = check_graph(a, inst, kappa, cf, root, quota)
    if err:
        return core.Case(err, cf + "/kappa" * bool(kappa))
    if not any(root in k for k in map(frozenset, a["cost"]) if len(k) == 2):
        return core.Case(nontrivial=False)
    if len(r) != 1:
        return core.Case("no result", "result")
    if dense:  # the solver is not given the time to finish
        return core.Case(outcome=case)
    cost = {frozenset(k): v for k, v in a["cost"].items()}
    es = [frozenset(e) for e in r[0].edge_list]
    vs = set().union(*es)
    if es and (root not in vs or any(e not in cost for e in es) or len(es) != len(vs) or r[0].objective != sum(cost[e] for e in es) or r[0].prize != sum(a["prize"][v] for v in vs) or r[0].prize < quota):
        return core.Case("the result %r is not a tour of the configured graph" % r[0], "result")
    return core.Case(outcome=case, nontrivial=bool(es))


def gen_large(shard):
    def it():
        for inst in [("tspwplib", n, g) for n in PTS_L for g in SCORES] + [("londonaq", n, None) for n in LON_L]:
            prize = original(inst)[1]
            vs, total = sorted(prize), sum(prize.values())
            for j, kappa in enumerate((None, 2, 3, 5)):
                for i, cf in enumerate((("EUC_2D" if inst[0] == "tspwplib" else "EXPLICIT"), "UNIFORM_RANDOM", "MST", "SEMI_MST")):
                    for k in range(3 if core.THOROUGH else 1):
                        yield (inst, kappa, cf, vs[(5 * i + 3 * j + 7 * k) % len(vs)], (1, total // 4, total // 2)[(i + j + k) % 3])
        for k, kappa in enumerate((8, 10, 15, 16, 20, 21, 24, 25, 28, 30, 31, 32, 33, 40, 64, 100)):
            yield (("tspwplib", "pr76", "gen%d" % (k % 3 + 1)), kappa, ("EUC_2D", "MST", "UNIFORM_RANDOM")[k // 3 % 3], 1 + 13 * k % 64, 1)
    return core.pick(it(), shard)


# ------------------------------------------------------------------ several vials in one experiment
def run_pair(case):
    """Vials over different data in one experiment: each is run on its own graph."""
    cfg = case[:-1]
    missing = case[-1]
    vials = []
    for j, (inst, kappa, cf) in enumerate(cfg):
        root = min(original(inst)[1])
        v = c_run.mkvial(root, quotas(inst)[1], c_run.EXACT0, data=data(inst, quotas(inst)[1], root, kappa, cf))
        vials.append(v.model_copy(update=dict(uuid=uuid.UUID(int=j + 1))))
    pyreal.CALLS.clear()
    with tmp() as d:
        dataset(d)
        if missing:
            from pctsp.lab import Lab
            from pctsp.vial import Experiment
            kw = dict(londonaq_root=d / "londonaq", oplib_root=d / "oplib")
            ds = {i[0] for i, _, _ in cfg}
            kw["oplib_root" if missing.startswith("op") else "londonaq_root"] = None if missing.endswith("none") else d / "absent"
            lab = Lab(d / "lab", **kw)
            try:
                r = lab.run_experiment(Experiment(name="dryrun", vials=vials, timestamp=datetime(2024, 1, 1)))
            except FileNotFoundError:
                return core.Case(outcome=case)
            needs = "tspwplib" if missing.startswith("op") else "londonaq"
            if needs in ds:
                return core.Case("the dataset of %s is missing but running gave %r" % (needs, r), "missing-data")
            return core.Case(outcome=case, nontrivial=False)
        r = run_lab(d, vials)
        calls = [args_of(c) for c in pyreal.CALLS if c[0] == "solve_pctsp_bind"]
    if len(calls) != len(vials) or [x.vial_uuid for x in r] != [v.uuid for v in vials]:
        return core.Case("%d vials, %d solver calls, results of %s" % (len(vials), len(calls), [x.vial_uuid for x in r]), "calls")
    for (inst, kappa, cf), v, a, x in zip(cfg, vials, calls, r):
        err = check_graph(a, inst, kappa, cf, v.data_config.root, v.data_config.quota)
        if err:
            return core.Case("%s: %s" % (inst, err), "mixed")
        if str(v.uuid) not in str(a["solver_dir"]) or a["name"] != str(v.uuid):
            return core.Case("solver directory %s, name %s for vial %s" % (a["solver_dir"], a["name"], v.uuid), "dir")
        want = brute({frozenset(k): w for k, w in a["cost"].items()}, a["prize"], a["root"], a["quota"])
        if want is not None and (x.objective != want or not x.edge_list):
            return core.Case("result %r, optimum %s" % (x, want), "optimum")
    return core.Case(outcome=case)


def gen_pair(shard):
    def it():
        base = []
        for inst in instances():
            plain = "EUC_2D" if inst[0] == "tspwplib" else "EXPLICIT"
            base.append((inst, None, plain))
        base += [(("tspwplib", "st70", "gen2"), 2, "MST"), (("londonaq", "laqbbA", None), None, "MST"), (("londonaq", "laqtinyA", None), None, "UNIFORM_RANDOM"),
                 (("tspwplib", "eil51", "gen1"), 2, "UNIFORM_RANDOM"), (("tspwplib", "eil51", "gen1"), 2, "EUC_2D")]
        for a, b in itertools.product(base, repeat=2):
            yield (a, b, "")
        for a in base:
            for b in (base[0], base[9]):
                for m in ("op-none", "op-absent", "lon-none", "lon-absent"):
                    yield (a, b, m)
        for a, b, c in zip(base, base[5:] + base[:5], base[9:] + base[:9]):
            yield (a, b, c, "")
    return core.pick(it(), shard)


# ------------------------------------------------------------------ options of the model
def option_values():
    return dict(branching_strategy=(0, 1, 2, 4), branching_max_depth=(-1, 1, 7), cost_cover_disjoint_paths=(False, True), cost_cover_shortest_path=(False, True),
                sec_disjoint_tour=(True, False), sec_lp_gap_improvement_threshold=(0.001, 0.25), sec_maxflow_mincut=(True, False), sec_max_tailing_off_iterations=(-1, 3, 5),
                sec_sepafreq=(1, 2), time_limit=(14400.0, 77.5, 30.0))


def run_options(case):
    opts, h, seed = case
    dom = option_values()
    m = dict(c_run.EXACT0, heuristic=h, **dict(opts))
    inst = instances()[seed % len(instances())]
    root = min(original(inst)[1])
    quota = quotas(inst)[1]
    pyreal.CALLS.clear()
    with tmp() as d:
        dataset(d, only=inst[1:])
        r = run_lab(d, [c_run.mkvial(root, quota, m, data=data(inst, quota, root, None, "EXPLICIT"))])
        calls = [args_of(c) for c in pyreal.CALLS if c[0] == "solve_pctsp_bind"]
    if len(calls) != 1 or len(r) != 1:
        return core.Case("no run", "calls")
    a = calls[0]
    for k in dom:
        if a[k] != m[k]:
            return core.Case("%s=%r is passed to the solver as %r" % (k, m[k], a[k]), "option")
    if a["simple_rules_only"] or a["cycle_cover"]:
        return core.Case("options that a vial does not have are switched on", "option")
    cost = {frozenset(k): v for k, v in a["cost"].items()}
    heur = [tuple(e) for e in a["heur_edges"]]
    if h is None and heur:
        return core.Case("a heuristic solution without a heuristic", "heuristic")
    if heur:
        vs = {v for e in heur for v in e}
        if len(heur) != len(vs) or any(sum(v in e for e in heur) != 2 for v in vs) or root not in vs or any(frozenset(e) not in cost for e in heur) or sum(a["prize"][v] for v in vs) < quota:
            return core.Case("starting solution %s is not a feasible tour" % heur, "heuristic")
    dp = {int(k): v for k, v in dict(a["disjoint_paths_cost"]).items() if k != root}
    if m["cost_cover_disjoint_paths"]:
        vs = sorted(a["prize"])
        idx = {v: i for i, v in enumerate(vs)}
        c = {tuple(sorted((idx[x], idx[y]))): w for k, w in cost.items() if len(k) == 2 for x, y in [tuple(k)]}
        best = {}
        for t in graphs.simple_cycles_through(graphs.adj(len(vs), list(c)), idx[root]):
            for v in t:
                best[vs[v]] = min(best.get(vs[v], 10 ** 9), graphs.cyc_cost(c, t))
        if any(dp.get(v, 0) > best[v] for v in best if v != root) or any(v not in best for v in dp):
            return core.Case("disjoint path costs %s, cheapest cycles %s" % (dp, best), "bound")
    want = brute(cost, a["prize"], root, quota)
    if want is not None and (not r[0].edge_list or r[0].objective != want):
        return core.Case("result %r, optimum %s" % (r[0], want), "optimum")
    return core.Case(outcome=case, nontrivial=want is not None)


def gen_options(shard):
    def it():
        dom = option_values()
        names = sorted(dom)
        i = 0
        for a, b in itertools.combinations(names, 2):  # every pair of values of every pair of options
            for x, y in itertools.product(dom[a], dom[b]):
                for h in (None, "suurballes_heuristic"):
                    yield (((a, x), (b, y)), h, i)
                    i += 1
        for bits in itertools.product((0, 1), repeat=4):
            o = dict(zip(("cost_cover_disjoint_paths", "cost_cover_shortest_path", "sec_disjoint_tour", "sec_maxflow_mincut"), map(bool, bits)))
            if not (o["sec_disjoint_tour"] or o["sec_maxflow_mincut"]):
                continue
            for h in (None,) + c_run.HEUR:
                for s in range(3):
                    yield (tuple(sorted(o.items())), h, i)
                    i += 1
    return core.pick(it(), shard)


def run(res):
    setup()
    core.py(res, "configured-graph", core.chunks(64), gen, run_case, 1500 if core.THOROUGH else 400, quiet=True)
    core.py(res, "larger-instances", core.chunks(128), gen_large, run_large, 600, quiet=True)
    core.py(res, "mixed-experiment", core.chunks(32), gen_pair, run_pair, 400, quiet=True)
    core.py(res, "solver-options", core.chunks(64), gen_options, run_options, 400, quiet=True)
    c_run.long_tours(res)
    c_mip.solver_options(res)
