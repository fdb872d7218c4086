"""Tours built from disjoint path pairs; every outcome of the random choices is explored."""
import itertools
import random

import core
import pyreal
import networkx as nx
from checks import graphs as G


class Scheduler:
    """Depth-first exploration of every sequence of random draws (stateless search with replay)."""

    def __init__(self, limit=20000):
        self.prefix, self.limit, self.runs, self.draws = [], limit, 0, 0

    def __enter__(self):
        self.saved = random.Random.__dict__["_randbelow"]
        random.Random._randbelow = lambda _self, n: self.draw(n)
        return self

    def __exit__(self, *a):
        random.Random._randbelow = self.saved

    def draw(self, n):
        self.draws += 1
        i = len(self.trace)
        k = self.prefix[i] if i < len(self.prefix) else 0
        if len(self.trace) > 200:
            raise RuntimeError("more than 200 random draws in one call")
        self.trace.append((k, max(n, 1)))
        return k

    def outcomes(self, fn):
        while True:
            self.trace = []
            self.runs += 1
            try:
                r = ("ok", fn())
            except ValueError as e:
                r = ("ValueError", str(e))
            yield r
            t = self.trace
            while t and t[-1][0] + 1 >= t[-1][1]:
                t.pop()
            if not t or self.runs >= self.limit:
                return
            self.prefix = [k for k, _ in t[:-1]] + [t[-1][0] + 1]


# ---------------------------------------------------------------- random tours
def run_random_complete(case):
    from pctsp.algorithms import random_tour_complete_graph
    n, label, root, prizes, quota, seed = case
    g, m = G.build_nx(n, {p: 1 for p in G.pairs(n)}, prizes, label)
    r = m[root]
    outs = set()
    with Scheduler() as s:
        for kind, t in s.outcomes(lambda: tuple(random_tour_complete_graph(g, r, quota, seed=seed))):
            if kind != "ok":
                return core.Case("raised ValueError: %s" % t, "raised")
            outs.add(t)
            if t[0] != r or t[-1] != r or len(set(t[:-1])) != len(t) - 1 or any(v not in g for v in t):
                return core.Case("draws %s give %s: not a closed simple tour from the root" % (s.trace, t), "not-a-tour")
            if len(t) - 1 < min(3, n):
                return core.Case("draws %s give %s: fewer than 3 vertices" % (s.trace, t), "too-short")
            p = sum(g.nodes[v]["prize"] for v in t[:-1])
            if p < quota and len(t) - 1 < n:
                return core.Case("draws %s give %s with prize %d below the quota although vertices were left" % (s.trace, t, p), "infeasible")
        runs = s.runs
    a = random_tour_complete_graph(g, r, quota, seed=seed)
    random.random()
    if random_tour_complete_graph(g, r, quota, seed=seed) != a:
        return core.Case("the same seed gave two different tours", "seed")
    return core.Case(outcome=frozenset(outs), states=len(outs), transitions=s.draws, traces=runs)


def gen_random_complete(shard):
    def it():
        for n in (1, 2, 3, 4, 5):
            al = (0, 1, 3) if n <= 4 else (1, 2)
            for prizes in itertools.product(al, repeat=n):
                tot = sum(prizes)
                for q in sorted({0, 1, tot // 2, tot, tot + 1}):
                    yield (n, ("id", "gap", "rev")[(tot + q) % 3], (tot + q) % n, prizes, q, q)
    return core.pick(it(), shard)


# ---------------------------------------------------------------- synthetic path maps
POOL = [([0], []), ([0, 1], [0, 1]), ([0, 2], [0, 2]), ([0, 1], [0, 2, 1]), ([0, 2, 1], [0, 1]), ([0, 2, 3], [0, 1, 3]),
        ([0, 3], [0, 1, 2, 3]), ([0, 1, 3], [0, 1, 3]), ([0, 2], [0, 4, 2])]


def run_random_pairs(case):
    from pctsp.algorithms import random_tour_from_disjoint_paths_map
    keys = case
    mp = {}
    for i in keys:
        p = POOL[i]
        mp[p[0][-1] if i != 0 else 0] = p
    copy = {k: (list(a), list(b)) for k, (a, b) in mp.items()}
    good = {tuple(a + b[::-1][1:]) for k, (a, b) in mp.items() if k != 0 and len(a) + len(b) >= 5}
    outs = set()
    with Scheduler() as s:
        for kind, t in s.outcomes(lambda: tuple(random_tour_from_disjoint_paths_map(mp, 0, seed=3))):
            outs.add((kind, t if kind == "ok" else ""))
            if kind == "ValueError" and good:
                return core.Case("draws %s: ValueError although %s are tours" % (s.trace, sorted(good)), "raised")
            if kind == "ok" and t not in good:
                return core.Case("draws %s give %s, tours of the map are %s" % (s.trace, t, sorted(good)), "not-a-tour")
            if mp != copy:
                return core.Case("the map was changed", "mutated")
        runs = s.runs
    if good and {t for k, t in outs} != good:
        return core.Case("only %s of the tours %s can ever be drawn" % (sorted(t for k, t in outs), sorted(good)), "never-drawn")
    return core.Case(outcome=frozenset(outs), states=len(outs), transitions=s.draws, traces=runs)


def gen_random_pairs(shard):
    return core.pick((c for k in range(0, 5) for c in itertools.permutations(range(len(POOL)), k)), shard)


def run_tour_from(case):
    from pctsp.algorithms import tour_from_vertex_disjoint_paths
    a, b = case
    x, y = list(a), list(b)
    bad = len(a) <= 1 or len(b) <= 1 or a[0] != b[0] or a[-1] != b[-1]
    try:
        t = tour_from_vertex_disjoint_paths((x, y))
    except ValueError:
        return core.Case(None if bad else "ValueError for a valid pair %s %s" % (a, b), "raised", outcome="error", nontrivial=False)
    if bad:
        return core.Case("no ValueError for the invalid pair %s %s: %s" % (a, b, t), "accepted")
    if (x, y) != (list(a), list(b)):
        return core.Case("the paths were changed", "mutated")
    if list(t) != list(a) + list(b)[::-1][1:]:
        return core.Case("pair %s %s gives %s" % (a, b, t), "wrong-tour")
    return core.Case(outcome=tuple(t))


def gen_tour_from(shard):
    seqs = [s for k in range(0, 5) for s in itertools.product(range(3 if k > 3 else 4), repeat=k)]
    return core.pick(itertools.product(seqs, seqs), shard)


# ---------------------------------------------------------------- Suurballe tours on real maps
def run_suurballe_tours(case):
    from pctsp.algorithms import suurballes_heuristic, suurballes_tour_initialization
    from pctsp.preprocessing import undirected_vertex_disjoint_paths_map, vertex_disjoint_cost_map
    from pctsp.suurballe import suurballe_shortest_vertex_disjoint_paths
    from tspwplib import asymmetric_from_undirected, biggest_vertex_id_from_graph, split_head
    n, label, root, cost, prize_alphabet = case
    g, m = G.build_nx(n, cost, None, label)
    r = m[root]
    big = biggest_vertex_id_from_graph(g)
    tree = suurballe_shortest_vertex_disjoint_paths(asymmetric_from_undirected(g), split_head(big, r), weight="cost")
    cm = vertex_disjoint_cost_map(tree, big)
    pm = undirected_vertex_disjoint_paths_map(tree, big)
    tours = {v: list(p) + list(q)[::-1][1:] for v, (p, q) in pm.items() if v != r}
    best = {}
    if n > 7:
        best = {m[v]: x for v, x in G.cheapest_cycles(n, cost, root).items()}
    else:
        for c in G.simple_cycles_through(G.adj(n, cost), root):
            x = G.cyc_cost(cost, c)
            for v in c[1:]:
                best[m[v]] = min(best.get(m[v], 10**9), x)
    obs = []
    for prizes in itertools.product(prize_alphabet, repeat=n) if n <= 7 else [[G.scramble(v, a) % a for v in range(n)] for a in prize_alphabet]:
        pr = {m[v]: prizes[v] for v in range(n)}
        tp = {v: sum(pr[u] for u in t[:-1]) for v, t in tours.items()}
        for q in sorted({1, *tp.values(), *(x + 1 for x in tp.values())}):
            if q <= 0:
                continue
            t = suurballes_heuristic(pr, q, cm, pm)
            i = suurballes_tour_initialization(pr, q, cm, pm)
            ok = [v for v in tours if tp[v] >= q]
            for name, x in (("suurballes_heuristic", t), ("suurballes_tour_initialization", i)):
                if x:
                    e = G.tour_error(g, list(x), r)
                    if e:
                        return core.Case("%s prizes=%s quota=%d returned %s: %s" % (name, prizes, q, x, e), "not-a-tour")
            if bool(t) != bool(ok):
                return core.Case("prizes=%s quota=%d: heuristic returned %s, prize-feasible pairs end at %s" % (prizes, q, t, ok), "feasible-missed")
            if t:
                if sum(pr[u] for u in t[:-1]) < q:
                    return core.Case("prizes=%s quota=%d: tour %s is not prize-feasible" % (prizes, q, t), "infeasible")
                c = sum(g[a][b]["cost"] for a, b in zip(t, t[1:]))
                if c != min(best[v] for v in ok):
                    return core.Case("prizes=%s quota=%d: tour %s costs %d, a prize-feasible pair costs %d" % (prizes, q, t, c, min(best[v] for v in ok)), "not-cheapest")
                if list(i) != list(t) and sum(g[a][b]["cost"] for a, b in zip(i, i[1:])) != c:
                    return core.Case("prizes=%s quota=%d: the starting tour %s is not the heuristic's tour" % (prizes, q, i), "init")
            elif any(x > 0 for x in tp.values()):
                if not i or sum(pr[u] for u in i[:-1]) != max(tp.values()):
                    return core.Case("prizes=%s quota=%d: starting tour %s does not have the largest prize %d" % (prizes, q, i, max(tp.values())), "init")
            obs.append((tuple(t), tuple(i)))
    return core.Case(outcome=tuple(obs), nontrivial=bool(tours))


def gen_suurballe_tours(shard):
    def it():
        for cost in G.labelled_graphs(3, (1, 2, 4)):
            yield (3, "gap", 1, cost, (0, 1, 3))
        for k, cost in enumerate(G.labelled_graphs(4, (1, 2, 4))):
            yield (4, ("id", "gap", "rev")[k % 3], k % 4, cost, (0, 1, 3) if core.THOROUGH else (1, 3))
        for k, cost in enumerate(G.labelled_graphs(5, (1, 3))):
            if core.THOROUGH or len(cost) <= 7 and k % 2 == 0:
                yield (5, ("id", "gap", "rev")[k % 3], k % 5, cost, (1, 2))
        for n, topo, cp, salt in G.family_cases((8, 9, 12, 18, 30), 12 if core.THOROUGH else 2):
            cost = G.family(n, topo, cp, salt)
            for root in sorted({0, (salt + topo) % n, n // 2}):
                yield (n, ("id", "gap", "rev")[(n + topo + salt + root) % 3], root, cost, (2, 5, 100, 100000))
    return core.pick(it(), shard)


def run(res):
    pyreal.with_engine()
    core.py(res, "pair-to-tour", core.chunks(32), gen_tour_from, run_tour_from, 120)
    core.py(res, "random-complete", core.chunks(32), gen_random_complete, run_random_complete, 200)
    core.py(res, "random-pairs", core.chunks(32), gen_random_pairs, run_random_pairs, 200)
    core.py(res, "suurballe-tours", core.chunks(64), gen_suurballe_tours, run_suurballe_tours, 3000 if core.THOROUGH else 250)
