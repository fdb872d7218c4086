"""Running a vial: preprocessing, algorithm and result on every small graph; the graph a data configuration describes."""
import datetime
import itertools
import logging
import os
import time
import uuid
from pathlib import Path

import core
import pyreal
from checks import c_wrap, graphs, synth
from checks.c_lab import tmp

UID = uuid.UUID(int=0x1234567890ABCDEF1234567890ABCDEF)
HEUR = ("bfs_extension_collapse", "bfs_path_extension_collapse", "suurballes_extension_collapse", "suurballes_heuristic", "suurballes_path_extension_collapse")
ZONES = ("UTC", "VER-9", "VER+8:30")  # where the machine stands: nothing of a result depends on it
LOG = logging.getLogger("verif")
LOG.setLevel(logging.ERROR)


def setup():
    pyreal.recorded()
    logging.disable(logging.CRITICAL)
    c_wrap.ref()
    import pctsp.lab  # noqa: F401


def mkvial(root, quota, model, pre=(False,) * 5, data=None):
    from pctsp.vial import DataConfig, ModelParams, Preprocessing, Vial
    d = dict(dataset="londonaq", cost_function="EXPLICIT", graph_name="laqtinyA", quota=quota, root=root)
    d.update(data or {})
    names = ("remove_disconnected_components", "remove_leaves", "remove_one_connected_components", "shortest_path_cutoff", "disjoint_path_cutoff")
    return Vial(uuid=UID, data_config=DataConfig(**d), model_params=ModelParams(**model), preprocessing=Preprocessing(**dict(zip(names, pre))))


EXACT0 = dict(algorithm="solve_pctsp", is_exact=True, is_heuristic=False, is_relaxation=False, branching_max_depth=-1, branching_strategy=0, cost_cover_disjoint_paths=False,
              cost_cover_shortest_path=False, sec_disjoint_tour=True, sec_lp_gap_improvement_threshold=0.001, sec_maxflow_mincut=True,
              sec_max_tailing_off_iterations=-1, sec_sepafreq=1, time_limit=14400.0)


def exact_configs():
    out = []
    for h, ccd, ccs, (dt, mf), (bs, bd), (tail, gap, freq) in itertools.product(
            (None,) + HEUR, (False, True), (False, True), ((True, True), (True, False), (False, True)), ((0, -1), (1, -1), (2, 1), (4, 3)), ((-1, 0.001, 1), (2, 0.5, 1), (0, 0.0, 3))):
        m = dict(EXACT0, heuristic=h, cost_cover_disjoint_paths=ccd, cost_cover_shortest_path=ccs, sec_disjoint_tour=dt, sec_maxflow_mincut=mf, branching_strategy=bs,
                 branching_max_depth=bd, sec_max_tailing_off_iterations=tail, sec_lp_gap_improvement_threshold=gap, sec_sepafreq=freq)
        if h and "path" in h:
            m.update(collapse_paths=bool(len(out) % 2), path_depth_limit=(None, 2, 3)[len(out) % 3], step_size=(None, 1, 2)[len(out) % 3])
        out.append(m)
    return out


def heuristic_configs():
    out = []
    for h in HEUR:
        if h == "suurballes_heuristic" or "path" not in h:
            out.append(dict(algorithm=h, is_exact=False, is_heuristic=True, is_relaxation=False))
        else:
            for sp, d, s in itertools.product((None, False, True), (None, 2, 3), (None, 1, 2)):
                out.append(dict(algorithm=h, is_exact=False, is_heuristic=True, is_relaxation=False, collapse_paths=sp, path_depth_limit=d, step_size=s))
    return out


def best(cost, prize, n, quota):
    a = graphs.adj(n, list(cost))
    c = [(graphs.cyc_cost(cost, t), sum(prize[v] for v in t)) for t in graphs.simple_cycles_through(a, 0)]
    c = [x for x, p in c if p >= quota]
    return min(c) if c else None


def larger():
    """Members of the family of larger graphs whose cycles can still be listed."""
    for n in (7, 8, 9, 10, 12, 14, 16) if core.THOROUGH else (7, 8, 10, 12):
        for topo in range(graphs.TOPOLOGIES):
            if topo in (0, 1) and n > 8 or topo in (2, 4) and n > 10 or topo == 5 and n > 12:
                continue
            for salt in range(6 if core.THOROUGH else 2):
                yield n, topo, salt


def build(n, mask, shift, shape, label):
    case = ("x", n, mask, 0, 0, 0, 0, 0, label, shape & ~2, shift)
    g, order, prize, L, back = c_wrap.case_graph(case)
    cost = dict(order)
    cost = {tuple(sorted(k)): v for k, v in cost.items()}
    return g, order, cost, prize, L, back


def reference_heuristic(name, n, order, prize, quota, g, L, back, m):
    """Edge sets the heuristic may return (composition of the parts, run directly)."""
    import pctsp.algorithms as alg
    from pctsp.preprocessing import undirected_vertex_disjoint_paths_map, vertex_disjoint_cost_map
    from pctsp.suurballe import suurballe_shortest_vertex_disjoint_paths
    from tspwplib import asymmetric_from_undirected, biggest_vertex_id_from_graph, split_head
    big = biggest_vertex_id_from_graph(g)
    tree = suurballe_shortest_vertex_disjoint_paths(asymmetric_from_undirected(g), split_head(big, L[0]), weight="cost")
    lp = {L[v]: p for v, p in prize.items()}
    cm, pm = vertex_disjoint_cost_map(tree, big), undirected_vertex_disjoint_paths_map(tree, big)
    if name == "suurballes_heuristic":
        return [[back[v] for v in alg.suurballes_heuristic(lp, quota, cm, pm)]]
    t0 = alg.find_cycle_from_bfs(g, L[0]) if name.startswith("bfs") else alg.suurballes_tour_initialization(lp, quota, cm, pm)
    t0 = [back[v] for v in t0]
    if not t0:
        return [[]]
    P = dict(prize=prize)
    if "path" in name:
        return c_wrap.direct("path_extension_collapse", n, order, P, t0, 0, quota, m.get("step_size") or 10, m.get("path_depth_limit") or n, bool(m.get("collapse_paths")))
    out = []
    for t in c_wrap.direct("extension_until_prize_feasible", n, order, P, t0, 0, quota, 1, 2, False):
        out += c_wrap.direct("extension_unitary_gain_collapse", n, order, P, t, 0, quota, 1, 2, False)
    return out


def in_order(t0, start, end, t1):
    """Whether the run started and ended during the call, in that order and on one clock (UTC, or that of the machine)."""
    if start.tzinfo or end.tzinfo:
        return bool(start.tzinfo and end.tzinfo) and t0 <= start <= end <= t1
    utc, local = (t0.replace(tzinfo=None), t1.replace(tzinfo=None)), (t0.astimezone().replace(tzinfo=None), t1.astimezone().replace(tzinfo=None))
    return any(a <= start <= end <= b for a, b in (utc, local))


def run_case(case):
    from pctsp.lab.run_algorithm import run_algorithm
    kind, n, mask, shift, shape, label, quota, ci = case
    g, order, cost, prize, L, back = build(n, mask, shift, shape, label)
    m = (exact_configs() if kind == "exact" else heuristic_configs())[ci]
    vial = mkvial(L[0], quota, m)
    before = repr((list(g.nodes(data=True)), list(g.edges(data=True)), vial))
    pyreal.CALLS.clear()
    os.environ["TZ"] = ZONES[(mask + ci + quota) % len(ZONES)]
    time.tzset()
    t0 = datetime.datetime.now(datetime.timezone.utc)
    try:
        with tmp() as d:
            r = run_algorithm(g, vial, logger=LOG, vial_dir=Path(d) / "vial")
    except ValueError as e:
        if "disjoint" in str(e) and not graphs.simple_cycles_through(graphs.adj(n, list(cost)), 0):
            return core.Case(nontrivial=False)  # Suurballe's heuristic is refused when no vertex has two disjoint paths
        raise
    t1 = datetime.datetime.now(datetime.timezone.utc)
    if repr((list(g.nodes(data=True)), list(g.edges(data=True)), vial)) != before:
        return core.Case("the graph or the vial was changed", "frame")
    if r.vial_uuid != UID or not in_order(t0, r.start_time, r.end_time, t1):
        return core.Case("uuid or times of the result are wrong: %r" % r, "truth")
    es = [(back[u], back[v]) for u, v in r.edge_list]
    want = best(cost, prize, n, quota)
    got_cost = sum(graphs.ecost(cost, u, v) for u, v in es) if all((u, v) in cost or (v, u) in cost for u, v in es) else None
    vs = {v for e in es for v in e}
    if got_cost is None:
        return core.Case("result edges %s are not edges of the graph" % es, "truth")
    if r.objective != got_cost or r.prize != sum(prize[v] for v in vs):
        return core.Case("result says cost %s prize %s; the edges %s cost %s with prize %s" % (r.objective, r.prize, es, got_cost, sum(prize[v] for v in vs)), "truth")
    if es:
        # edges are listed in tour order (each shares a vertex with the next), in either orientation
        deg = {v: sum(v in e for e in es) for v in vs}
        if any(not set(es[i]) & set(es[(i + 1) % len(es)]) for i in range(len(es))) or set(deg.values()) != {2} or len(es) < 3 or len(vs) != len(es) or 0 not in vs:
            return core.Case("result %s is not a simple closed tour through the root" % es, "tour")
    if kind == "exact":
        # the solution the solver starts from is the tour of the vial's heuristic when that tour is feasible
        calls = [a for fn, a, k in pyreal.CALLS if fn == "solve_pctsp_bind"]
        if len(calls) != 1:
            return core.Case("the solver was called %d times" % len(calls), "composition")
        given = {frozenset(back[v] for v in e) for e in calls[0][2]}
        ref = reference_heuristic(m["heuristic"], n, order, prize, quota, g, L, back, m) if m["heuristic"] and not (want is None and "suurballe" in m["heuristic"]) else [[]]
        opts = [{frozenset(e) for e in zip(t, t[1:])} if t and sum(prize[v] for v in set(t)) >= quota else set() for t in ref]
        if given not in opts:
            return core.Case("the solver starts from %s; heuristic %s gives %s" % (calls[0][2], m["heuristic"], ref), "composition")
        if want is None and es:
            return core.Case("no feasible tour exists but the result is %s" % es, "infeasible")
        if want is not None and (not es or r.prize < quota or r.objective != want):
            return core.Case("exact result %s costs %s with prize %s (quota %s); the optimum costs %s" % (es, r.objective, r.prize, quota, want), "optimum")
        return core.Case(outcome=(mask, quota, ci), nontrivial=want is not None)
    ref = reference_heuristic(m["algorithm"], n, order, prize, quota, g, L, back, m)
    if not any({frozenset(e) for e in es} == {frozenset(e) for e in zip(t, t[1:])} for t in ref):
        return core.Case("%s returned %s, its parts composed give %s" % (m["algorithm"], es, ref), "composition")
    if want is not None and es and r.prize >= quota and r.objective < want:
        return core.Case("cheaper than the optimum?", "optimum")
    return core.Case(outcome=(mask, quota, ci), nontrivial=bool(es))


def gen(shard):
    def it():
        ne, nh = len(exact_configs()), len(heuristic_configs())
        i = 0
        for n in (3, 4, 5):
            ps = graphs.pairs(n)
            full = (1 << len(ps)) - 1
            masks = range(1, full + 1) if n < 5 or core.THOROUGH else [full ^ sum(1 << j for j in drop) for k in range(4) for drop in itertools.combinations(range(len(ps)), k)]
            for mask in masks:
                if not any(mask >> j & 1 and 0 in p for j, p in enumerate(ps)):
                    continue
                vs = {v for j, p in enumerate(ps) if mask >> j & 1 for v in p}
                for shift in range(3 if core.THOROUGH else 2):
                    total = sum(c_wrap.PRIZES[(v + shift) % len(c_wrap.PRIZES)] for v in range(n))
                    for quota in (1, total // 2, (2 * total) // 3, total, total + 1):
                        shape = (i * 7) % 8
                        if len(vs) < n and shape & 4 == 0 and not core.THOROUGH and i % 3:
                            pass
                        for r in range(3 if core.THOROUGH else 1):
                            yield ("exact", n, mask, shift, shape, i % 4, quota, (i * 31 + r * 97) % ne)
                            yield ("heur", n, mask, shift, shape, (i // 2) % 4, quota, (i * 13 + r * 17) % nh)
                            i += 1
        for n, mask, salt in larger():
            shift, total = salt, sum(c_wrap.instance(n, mask, 0, salt)[1].values())
            for j, quota in enumerate((1, total // 3, (2 * total) // 3, total)):
                yield ("exact", n, mask, shift, (i * 5) % 8, i % 4, quota, (i * 31) % ne)
                for r in range(2):
                    yield ("heur", n, mask, shift, (i * 3) % 8, (i + r) % 4, quota, (i * 13 + r * 17) % nh)
                i += 1
        # every configuration on dense graphs
        for ci in range(ne):
            for n, mask, quota in ((5, 1023, 20), (5, 1023 ^ 0b1000010, 17), (5, 1023 ^ 0b10010, 11)):
                yield ("exact", n, mask, ci % 5, 4 * (ci % 2), ci % 4, quota, ci)
        for ci in range(nh):
            for mask in (1023, 1023 ^ 2, 1023 ^ 64, 1023 ^ 0b10010, 1023 ^ 0b1000010):
                for quota in (8, 17, 22, 26):
                    for shift in range(4):
                        yield ("heur", 5, mask, shift, 0, ci % 4, quota, ci)
    return core.pick(it(), shard)


# ------------------------------------------------------------------ path extension with every step and depth, on graphs with long tours
STEPS, DEPTHS = (None, 1, 2, 3, 7, 9, 10, 11, 12, 15, 20, 64, 300), (None, 2, 3, 5, 9, 10, 11, 17, 300)


def run_long(case):
    """The tour of a path extension heuristic of a vial is the one its step, depth and way of collapsing give."""
    from pctsp.lab.run_algorithm import run_algorithm
    n, topo, salt, label, quota, name, collapse, depth, step = case
    g, order, cost, prize, L, back = build(n, topo, salt, 0, label)
    m = dict(algorithm=name, is_exact=False, is_heuristic=True, is_relaxation=False, collapse_paths=collapse, path_depth_limit=depth, step_size=step)
    try:
        with tmp() as d:
            r = run_algorithm(g, mkvial(L[0], quota, m), logger=LOG, vial_dir=Path(d) / "vial")
    except ValueError as e:
        if "disjoint" in str(e):
            return core.Case(nontrivial=False)
        raise
    es = {frozenset((back[u], back[v])) for u, v in r.edge_list}
    ref = reference_heuristic(name, n, order, prize, quota, g, L, back, m)
    if not any(es == {frozenset(e) for e in zip(t, t[1:])} for t in ref):
        return core.Case("%s returned %s, its parts composed give %s" % (name, sorted(map(sorted, es)), ref), "composition")
    return core.Case(outcome=sorted(map(sorted, es)), nontrivial=bool(es))


def gen_long(shard):
    def it():
        i = 0
        for ring in (13, 18, 24, 40) if core.THOROUGH else (18, 30):
            for salt in (0, 5, 18, 39, 52, 77, 130, 201, 243) if core.THOROUGH else (0, 18, 39):
                n, _, prize = c_wrap.detours(ring, salt)
                for step, depth, part in itertools.product(STEPS, DEPTHS, (1, 3, 6)):
                    i += 1
                    if core.THOROUGH or i % 2 == 0:
                        yield (n, 100 + ring, salt, i // 2 % 4, sum(prize.values()) * part // 10, ("bfs", "suurballes")[i // 4 % 2] + "_path_extension_collapse", (None, False, True)[i % 3], depth, step)
        for n in (14, 20, 30, 44) if core.THOROUGH else (14, 30):
            for topo in range(graphs.TOPOLOGIES):
                for salt in range(3 if core.THOROUGH else 1):
                    total = sum(c_wrap.instance(n, topo, 0, salt)[1].values())
                    for step, depth in itertools.product(STEPS, DEPTHS):
                        for name in ("bfs_path_extension_collapse", "suurballes_path_extension_collapse"):
                            i += 1
                            if core.THOROUGH or (i + topo) % 3 == 0:
                                yield (n, topo, salt, i % 4, (total * (2, 5, 9)[i % 3]) // 10, name, (None, False, True)[i // 2 % 3], depth, step)
    return core.pick(it(), shard)


def long_tours(res):
    core.py(res, "long-tours", core.chunks(64), gen_long, run_long, 1200 if core.THOROUGH else 300, quiet=True)


# ------------------------------------------------------------------ a disconnected or empty-handed instance
def run_edge(case):
    """Instances without any cycle through the root: no result may claim a tour."""
    import networkx as nx
    from pctsp.lab.run_algorithm import run_algorithm
    name, n, edges, loops, quota = case
    g = nx.Graph()
    for v in range(n):
        g.add_node(v, prize=1 + v)
    for u, v in edges:
        g.add_edge(u, v, cost=3)
    if loops:
        for v in range(n):
            g.add_edge(v, v, cost=0)
    m = EXACT0 if name == "solve_pctsp" else dict(algorithm=name, is_exact=False, is_heuristic=True, is_relaxation=False)
    try:
        with tmp() as d:
            r = run_algorithm(g, mkvial(0, quota, m), logger=LOG, vial_dir=Path(d) / "vial")
    except ValueError:
        if "suurballe" in name:
            return core.Case(nontrivial=False)
        raise
    if r.edge_list or r.objective != 0 or r.prize != 0:
        return core.Case("no tour exists, the result is %r" % r, "phantom")
    return core.Case(outcome=case)


def gen_edge(shard):
    def it():
        for n in (2, 3, 4, 5):
            for e in itertools.chain(*(itertools.combinations(graphs.pairs(n), k) for k in range(1, 6))):
                if not any(0 in p for p in e) or graphs.simple_cycles_through(graphs.adj(n, e), 0):
                    continue
                for name in HEUR + ("solve_pctsp",):
                    for loops in ((0, 1) if n < 5 else (len(e) % 2,)):
                        yield (name, n, e, loops, 1)
    return core.pick(it(), shard)


# ------------------------------------------------------------------ preprocessing
def run_pre(case):
    from pctsp import preprocessing as P
    from pctsp.lab.run_algorithm import run_preprocessing
    n, mask, flags, shape = case
    g, order, cost, prize, L, back = build(n, mask, 0, shape, 1)
    vial = mkvial(L[0], 1, dict(algorithm="suurballes_heuristic", is_exact=False, is_heuristic=True, is_relaxation=False), flags)
    before = repr((list(g.nodes(data=True)), list(g.edges(data=True))))
    try:
        got = run_preprocessing(g, vial, logger=LOG)
    except NotImplementedError:
        if flags[3] or flags[4]:
            return core.Case(outcome=case)
        raise
    if flags[3] or flags[4]:
        return core.Case("a preprocessing step that does not exist was silently skipped", "silent")
    if repr((list(g.nodes(data=True)), list(g.edges(data=True)))) != before:
        return core.Case("preprocessing changed the input graph", "frame")
    want = g
    if flags[0]:
        want = P.remove_components_disconnected_from_vertex(want, L[0])
    if flags[1]:
        want = P.remove_leaves(want)
    if flags[2]:
        want = P.remove_one_connected_components(want, L[0])
    # the removed vertices do not depend on the order of the steps that are switched on, tours never do
    if dict(got.nodes(data=True)) != dict(want.nodes(data=True)) or {frozenset(e) for e in got.edges()} != {frozenset(e) for e in want.edges()}:
        return core.Case("flags %s keep %s, expected %s" % (flags, sorted(got), sorted(want)), "steps")
    if any(got[u][v] != g[u][v] for u, v in got.edges()):
        return core.Case("edge attributes changed", "attributes")
    return core.Case(outcome=(mask, flags), nontrivial=len(got) < n)


def gen_pre(shard):
    def it():
        for n in (3, 4, 5):
            for i, mask in enumerate(range(1 << len(graphs.pairs(n)))):
                for flags in itertools.product((False, True), repeat=5):
                    if any(flags[3:]) and i % 16:
                        continue
                    yield (n, mask, flags, (i % 2) * 4)
    return core.pick(it(), shard)


# ------------------------------------------------------------------ refused work
def run_refused(case):
    from pctsp.lab.run_algorithm import run_algorithm, run_heuristic
    from pctsp.vial import AlgorithmName
    g, *_ , L, back = build(4, 63, 0, 0, 0)
    if case[0] == "algorithm":
        m = dict(algorithm=case[1], is_exact=False, is_heuristic=case[2], is_relaxation=not case[2])
        try:
            with tmp() as d:
                r = run_algorithm(g, mkvial(L[0], 1, m), logger=LOG, vial_dir=Path(d) / "v")
        except NotImplementedError:
            return core.Case(outcome=case)
        return core.Case("an algorithm that does not exist gave %r" % r, "silent")
    name, cm, pm = case[1:]
    try:
        r = run_heuristic(g, 1, L[0], AlgorithmName(name), dict(cm), dict(pm), logger=LOG)
    except ValueError:
        return core.Case(outcome=case)
    return core.Case("%s without disjoint paths gave %r" % (name, r), "silent")


def gen_refused(shard):
    def it():
        for name in ("extension", "solve_pctsp", "disjoint_tours_relaxation"):
            for h in (True, False):
                yield ("algorithm", name, h)
        for name in HEUR:
            yield ("algorithm", name, False)
            if "suurballe" in name:
                yield ("maps", name, (), ())
                yield ("maps", name, ((1, 5),), ())
                yield ("maps", name, (), ((1, ([0, 1], [0, 2, 1])),))
    return core.pick(it(), shard)


def run(res):
    setup()
    core.py(res, "run-algorithm", core.chunks(128), gen, run_case, 4000 if core.THOROUGH else 500, quiet=True)
    long_tours(res)
    core.py(res, "no-tour", core.chunks(32), gen_edge, run_edge, 300, quiet=True)
    core.py(res, "preprocessing", core.chunks(32), gen_pre, run_pre, 300, quiet=True)
    core.py(res, "refused", core.chunks(8), gen_refused, run_refused, 100, quiet=True)
