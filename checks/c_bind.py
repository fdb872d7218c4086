"""The branch-and-cut solver called from Python: labels, orientations, starting tours and options; what is left in the model."""
import itertools
import logging
import os
import sys
from pathlib import Path

import core
import pyreal
from checks import c_wrap, graphs
from checks.c_lab import tmp
from checks.c_run import build, larger

NAMES = ("heur", "ccd", "ccs", "cycle", "secs", "branching", "tail", "freq", "simple")
DOMAINS = (range(5), (0, 1), (0, 1), (0, 1), ((True, True), (True, False), (False, True)), ((0, -1), (1, -1), (2, 1), (4, 3)), ((-1, 0.001), (2, 0.5), (0, 0.0)), (1, 3), (0, 1))


def setup():
    pyreal.recorded()
    logging.disable(logging.CRITICAL)
    import pctsp.algorithms  # noqa: F401


def options():
    return list(itertools.product(*DOMAINS))


def tours(n, cost, prize, quota):
    a = graphs.adj(n, list(cost))
    out = []
    for t in graphs.simple_cycles_through(a, 0):
        out.append((graphs.cyc_cost(cost, t), sum(prize[v] for v in t), t))
    return out


def start(which, all_tours, quota, n, cost):
    """Edges offered as a starting solution: nothing, the worst feasible tour, the best, one that misses the quota, a path."""
    feas = sorted(x for x in all_tours if x[1] >= quota)
    short = sorted(x for x in all_tours if x[1] < quota)
    pick = {1: feas[-1:], 2: feas[:1], 3: short[:1]}.get(which, [])
    if pick:
        t = list(pick[0][2])
        es = list(zip(t, t[1:] + t[:1]))
        return [e for e in es if e[0] != e[1]], which != 3
    if which == 4:
        return [min(cost)], False
    return [], False


def run_case(case):
    from pyscipopt import Model
    from pctsp.algorithms import solve_pctsp
    kind, n, mask, shift, shape, label, quota, oi = case
    g, order, cost, prize, L, back = build(n, mask, shift, shape, label)
    heur, ccd, ccs, cycle, (dt, mf), (bs, bd), (tail, gap), freq, simple = options()[oi]
    every = tours(n, cost, prize, quota)
    want = min((x[0] for x in every if x[1] >= quota), default=None)
    es, used = start(heur, every, quota, n, cost)
    if shape & 1:
        es = [(v, u) for u, v in reversed(es)]
    given = [(L[u], L[v]) for u, v in es]
    # cost of the cheapest pair of disjoint paths, for the vertices that have one
    best = {}
    for c, _, t in every:
        for v in t:
            if v:
                best[v] = min(c, best.get(v, c))
    dp = {L[v]: c for v, c in best.items()} if ccd else None
    frame = repr((list(g.nodes(data=True)), list(g.edges(data=True)), given, dp))
    pyreal.CALLS.clear()
    with tmp() as d:
        out = Path(d) / "solver"
        model = Model(problemName="m", createscip=True, defaultPlugins=False)
        if kind == "basic":
            import pctsp.libpypctsp as lib
            cd = {(L[u], L[v]): c for (u, v), c in order}
            got = lib.basic_solve_pctsp_bind(model, list(cd), [tuple(L[v] for v in e) for e in es] if used else [], cd, {L[v]: p for v, p in prize.items()}, quota, L[0], "basic")
        else:
            got = solve_pctsp(model, g, given, quota, L[0], branching_max_depth=bd, branching_strategy=bs, cost_cover_disjoint_paths=bool(ccd), cost_cover_shortest_path=bool(ccs),
                              cycle_cover=bool(cycle), disjoint_paths_cost=dp, logging_level=logging.CRITICAL, name="case", solver_dir=out, sec_disjoint_tour=dt,
                              sec_lp_gap_improvement_threshold=gap, sec_maxflow_mincut=mf, sec_max_tailing_off_iterations=tail, sec_sepafreq=freq, simple_rules_only=bool(simple))
            if sorted(p.name for p in out.iterdir()) != ["pctsp_summary_stats.yaml", "scip_logs.txt"]:
                return core.Case("the solver left %s in its folder" % sorted(p.name for p in out.iterdir()), "files")
            calls = [a for fn, a, k in pyreal.CALLS if fn == "solve_pctsp_bind"]
            if len(calls) != 1 or [tuple(e) for e in calls[0][2]] != (given if used else []):
                return core.Case("offered %s, the solver starts from %s" % (given, calls and calls[0][2]), "start")
        if repr((list(g.nodes(data=True)), list(g.edges(data=True)), given, dp)) != frame:
            return core.Case("an argument was changed", "frame")
        status = model.getStatus()
        if status != ("optimal" if want is not None else "infeasible"):
            return core.Case("the model ends as %s, the optimum is %s" % (status, want), "status")
        if want is None:
            return core.Case("no tour exists, the solver returns %s" % got, "phantom") if got else core.Case(outcome=(mask, quota), nontrivial=False)
        if any(v not in back for e in got for v in e):
            return core.Case("the edges %s are not in the labels of the graph" % got, "labels")
        e0 = [tuple(sorted(back[v] for v in e)) for e in got]
        if len(set(e0)) != len(e0) or any(e not in cost for e in e0):
            return core.Case("the edges %s are not edges of the graph" % got, "edges")
        c = sum(cost[e] for e in e0)
        if {frozenset(e) for e in e0} not in [{frozenset(x) for x in zip(t, list(t[1:]) + [t[0]])} for _, p, t in every if p >= quota]:
            return core.Case("the edges %s are not a tour that meets the quota" % got, "tour")
        if c != want or abs(model.getPrimalbound() - want) > 1e-6 or abs(model.getDualbound() - want) > 1e-6:
            return core.Case("cost %s, objective %s, dual bound %s; the optimum is %s" % (c, model.getPrimalbound(), model.getDualbound(), want), "optimum")
        return core.Case(outcome=(mask, quota, tuple(sorted(e0))), traces=1)


def gen(shard):
    def it():
        no, i = len(options()), 0
        for n in (3, 4, 5):
            ps = graphs.pairs(n)
            full = (1 << len(ps)) - 1
            masks = range(1, full + 1)
            for mask in masks:
                if not any(mask >> j & 1 and 0 in p for j, p in enumerate(ps)):
                    continue
                for shift in range(3 if core.THOROUGH else 2):
                    total = sum(c_wrap.PRIZES[(v + shift) % len(c_wrap.PRIZES)] for v in range(n))
                    for quota in (0, total // 2, (2 * total) // 3, total, total + 1):
                        for r in range(6 if core.THOROUGH else 3 if n < 5 else 1):
                            yield ("solve", n, mask, shift, (i * 5) % 8, i % 4, quota, (i * 389 + r * 97) % no)
                            i += 1
                            vs = {v for j, p in enumerate(ps) if mask >> j & 1 for v in p}
                            if len(vs) == n and r == 0 and i % 2:
                                yield ("basic", n, mask, shift, 0, 0, quota, (i * 389) % no)
        for n, mask, shift in larger():
            total = sum(c_wrap.instance(n, mask, 0, shift)[1].values())
            for quota in (0, total // 3, (2 * total) // 3, total, total + 1):
                yield ("solve", n, mask, shift, (i * 5) % 8, i % 4, quota, (i * 389) % no)
                i += 1
            yield ("basic", n, mask, shift, 0, 0, total // 2, (i * 389) % no)
        for oi in range(no):  # every combination of options on a few graphs
            mask, quota = ((1023, 20), (1023 ^ 0b1000010, 17), (1023 ^ 0b10010, 11), (1023, 26))[oi % 4]
            yield ("solve", 5, mask, oi % 5, 4 * (oi % 2), oi % 4, quota, oi)
    return core.pick(it(), shard)


def describe(case):
    kind, n, mask, shift, shape, label, quota, oi = case
    if n >= 7:
        return "%s n=%d member %d of the family with salt %d, shape %d, labels %s, quota %d, %s" % (kind, n, mask, shift, shape, c_wrap.labels(label, n), quota, dict(zip(NAMES, options()[oi])))
    return "%s n=%d edges=%s costs shifted by %d, shape %d, labels %s, quota %d, %s" % (
        kind, n, [p for j, p in enumerate(graphs.pairs(n)) if mask >> j & 1], shift, shape, c_wrap.LABELS[label], quota, dict(zip(NAMES, options()[oi])))


def run(res):
    if os.environ.get("PYTHONMALLOC") != "debug":  # so that memory of released Python objects is overwritten
        sys.stdout.flush()
        os.execve(sys.executable, sys.orig_argv, dict(os.environ, PYTHONMALLOC="debug"))
    setup()
    core.py(res, "bind", core.chunks(64), gen, run_case, 2400 if core.THOROUGH else 300, describe, quiet=True)
