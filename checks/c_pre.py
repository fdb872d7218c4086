"""Preprocessing, BFS cycle finder and tour builders on every small graph."""
import itertools
import random

import core
import pyreal
import networkx as nx
from checks import graphs as G


def snapshot(g):
    return (dict((v, dict(d)) for v, d in g.nodes(data=True)), sorted((min(u, v), max(u, v), tuple(sorted(d.items()))) for u, v, d in g.edges(data=True)))


def induced(g, keep):
    nodes, edges = snapshot(g)
    return ({v: d for v, d in nodes.items() if v in keep}, [e for e in edges if e[0] in keep and e[1] in keep])


def component(a, root):
    seen, stack = {root}, [root]
    while stack:
        for v in a[stack.pop()]:
            if v not in seen:
                seen.add(v)
                stack.append(v)
    return seen


def two_core(a):
    keep = set(a)
    while True:
        bad = {v for v in keep if len((a[v] & keep) - {v}) <= 1}
        if not bad:
            return keep
        keep -= bad


def on_cycle_with_root(a, root):
    """Vertices in a biconnected component (>= 3 vertices) with the root: on a common simple cycle with it."""
    out = {root}
    if len(a) > 7:
        names = sorted(a)
        num = {v: i for i, v in enumerate(names)}
        return out | {names[v] for v in G.cheapest_cycles(len(a), {(num[u], num[v]): 1 for u in a for v in a[u] if num[u] < num[v]}, num[root])}
    for c in G.simple_cycles_through(a, root):
        out.update(c)
    return out


def make(case):
    n, label, order, root, es, loops = case
    cost = {e: 1 + (7 * e[0] + 3 * e[1]) % 5 for e in es}
    g, m = G.build_nx(n, cost, [(3 * v) % 4 for v in range(n)], label, order)
    for v in loops:
        g.add_edge(m[v], m[v], cost=0, weight=0)
    a = {v: set() for v in m.values()}
    for u, v in es:
        a[m[u]].add(m[v])
        a[m[v]].add(m[u])
    return g, m[root], a


STEPS = ("comp", "leaves", "bicon")


def run_pre(case):
    from pctsp.preprocessing import remove_components_disconnected_from_vertex, remove_leaves, remove_one_connected_components, degree_without_self_loops
    fns = {"comp": remove_components_disconnected_from_vertex, "leaves": lambda g, r: remove_leaves(g), "bicon": remove_one_connected_components}
    g, root, a = make(case)
    before = snapshot(g)
    for v in a:
        if degree_without_self_loops(g, v) != len(a[v]):
            return core.Case("degree of %s without self loops is %s, not %s" % (v, degree_without_self_loops(g, v), len(a[v])), "degree")
    single = {"comp": component(a, root), "leaves": two_core(a), "bicon": on_cycle_with_root(a, root)}
    # every edge between vertices on tours lies on a tour itself, and every tour consists of such edges
    tours = G.simple_cycles_through(a, root) if len(a) <= 7 else [[u, v] for u in single["bicon"] for v in a[u] & single["bicon"] if u < v]
    for s in STEPS:
        r = fns[s](g, root)
        if snapshot(r) != induced(g, single[s]):
            return core.Case("step %s kept %s, expected the subgraph induced by %s" % (s, snapshot(r), sorted(single[s])), "step:" + s)
        if s != "bicon" and snapshot(g) != before:
            return core.Case("step %s changed its input graph" % s, "mutated")
        g, root, a = make(case)
    # every order of every subset of steps keeps every tour
    for k in (2, 3):
        for seq in itertools.permutations(STEPS, k):
            h, root, a = make(case)
            for s in seq:
                if root not in h:
                    break
                h = fns[s](h, root)
            for t in tours:
                if any(not h.has_edge(u, v) for u, v in G.cyc_edges(t)):
                    return core.Case("steps %s removed the tour %s" % (seq, t), "tour-lost")
            if tours and snapshot(h) != induced(make(case)[0], set(h)):
                return core.Case("steps %s changed attributes or edges between kept vertices" % (seq,), "attributes")
            if "bicon" in seq and set(h) != single["bicon"] and root in h:
                return core.Case("steps %s left %s, expected %s" % (seq, sorted(h), sorted(single["bicon"])), "kept-too-much")
    return core.Case(outcome=repr(sorted(map(sorted, single.values()))), nontrivial=any(len(s) < len(a) for s in single.values()))


def gen_pre(shard):
    def it():
        for n in (1, 2, 3, 4, 5):
            ps = G.pairs(n)
            for bits in range(1 << len(ps)):
                es = [p for i, p in enumerate(ps) if bits >> i & 1]
                yield (n, ("id", "gap", "rev")[bits % 3], bits % 2, bits % n, es, [v for v in range(n) if (bits * 7 + v) % 3 == 0] if bits % 4 == 1 else [])
        for n in ((6, 7) if core.THOROUGH else (6,)):
            for k, es in enumerate(canonical6(n)):
                yield (n, "id", k % 2, 0, es, [0, 2] if k % 3 == 0 else [])
        yield from larger(3, 12)
        yield from blocks()
    return core.pick(it(), shard)


def blocks():
    """A root shared by several blocks of very different sizes (cycles, a bridge), with a further block behind one that does not touch it."""
    sizes = (3, 4, 9, 13, 40) + ((16, 17, 64, 130) if core.THOROUGH else ())
    for k in (1, 2, 3):
        for combo in itertools.product(sizes, repeat=k):
            if sum(combo) > (300 if core.THOROUGH else 60) or (k == 3 and sorted(combo)[1] > 4):
                continue
            for behind in (0, 3, 13):
                for turn in (0, 1):
                    es, n = [], 1
                    for s in combo:
                        c = [0] + list(range(n, n + s - 1))
                        n += s - 1
                        es += [tuple(sorted(e)) for e in zip(c, c[1:] + c[:1])]
                    if behind:  # behind a cut vertex other than the root
                        c = [combo[0] - 1] + list(range(n, n + behind - 1))
                        n += behind - 1
                        es += [tuple(sorted(e)) for e in zip(c, c[1:] + c[:1])]
                        es.append((0, n))  # and a bridge to a triangle
                        es += [(n, n + 1), (n + 1, n + 2), (n, n + 2)]
                        n += 3
                    yield (n, ("id", "gap", "rev")[(n + k) % 3], turn, 0, es[::-1] if turn else es, [0] if behind == 3 else [])


def larger(quick, thorough):
    """The parametric family of larger graphs, from four roots."""
    for n, topo, cp, salt in G.family_cases((8, 10, 13, 20, 35) + ((60, 120) if core.THOROUGH else ()), thorough if core.THOROUGH else quick, costs=(0,)):
        es = list(G.family(n, topo, cp, salt))
        for root in sorted({0, (salt + topo) % n, n // 2, n - 1}):
            yield (n, ("id", "gap", "rev")[(n + topo + salt + root) % 3], (salt + root) % 2, root, es, [v for v in range(n) if (v * 3 + salt) % 5 == 0] if salt % 2 else [])


_c = {}


def canonical6(n):
    if n not in _c:
        if n == 6:
            _c[n] = list(G.canonical_rooted(6))
        else:  # one more vertex joined to a canonical 6-vertex graph in every way
            _c[n] = [es + [(i, 6) for i in range(6) if b >> i & 1] for es in G.canonical_rooted(6) for b in range(1, 64, 3)]
    return _c[n]


def run_scale(case):
    """Long thin instances: the answer does not depend on how long a path or cycle is."""
    kind, n = case
    from pctsp.preprocessing import remove_leaves, remove_one_connected_components, undirected_vertex_disjoint_paths_map, vertex_disjoint_cost_map
    from pctsp.suurballe import suurballe_shortest_vertex_disjoint_paths
    from tspwplib import asymmetric_from_undirected, split_head
    if kind == "tail":  # a triangle with a path of n vertices hanging off it
        g = nx.path_graph(n)
        g.add_edge(0, n)
        g.add_edge(n, n + 1)
        g.add_edge(0, n + 1)
        r = remove_leaves(g)
        if set(r) != {0, n, n + 1}:
            return core.Case("leaves left behind: %d vertices" % len(set(r)), "leaves")
        return core.Case(outcome=case)
    if kind == "cycle":
        g = nx.cycle_graph(n)
        nx.set_edge_attributes(g, 1, "cost")
        r = remove_one_connected_components(g, 0)
        if len(r) != n:
            return core.Case("removed vertices of the cycle", "bicon")
        t = suurballe_shortest_vertex_disjoint_paths(asymmetric_from_undirected(g), split_head(n - 1, 0), weight="cost")
        cm = vertex_disjoint_cost_map(t, n - 1)
        bad = [v for v in range(1, n) if cm.get(v) != n]
        if bad:
            return core.Case("cost of the disjoint pair to %s is %s, not %d" % (bad[0], cm.get(bad[0]), n), "cost")
        p, q = undirected_vertex_disjoint_paths_map(t, n - 1)[n // 2]
        if sorted(p + q[1:-1]) != list(range(n)):
            return core.Case("paths to %d do not cover the cycle" % (n // 2), "paths")
        return core.Case(outcome=case)
    raise core.CheckError(kind)


def run_suurballe_scale(res):
    core.py(res, "long-cycles", core.chunks(8), lambda sh: core.pick([("cycle", n) for n in (3, 4, 5, 10, 50, 120, 300, 490, 700, 1100) + ((2100,) if core.THOROUGH else ())], sh), run_scale, 300)


def run_preprocessing(res):
    core.py(res, "preprocessing", core.chunks(64), gen_pre, run_pre, 2000 if core.THOROUGH else 300)
    core.py(res, "long-tails", core.chunks(8), lambda sh: core.pick([("tail", n) for n in (1, 2, 3, 10, 100, 900, 1100, 2500)], sh), run_scale, 300)


# ------------------------------------------------------------------ BFS cycle finder
def run_bfs(case):
    from pctsp.algorithms import find_cycle_from_bfs
    g, root, a = make(case)
    before = snapshot(g)
    c = find_cycle_from_bfs(g, root)
    if snapshot(g) != before:
        return core.Case("the graph was changed", "mutated")
    exists = bool(G.simple_cycles_through(a, root)) if len(a) <= 7 else len(on_cycle_with_root(a, root)) > 1
    if not c:
        if exists:
            return core.Case("no cycle returned although one passes through the root", "missed")
        return core.Case(outcome="none")
    e = G.tour_error(g, list(c), root)
    if e:
        return core.Case("returned %s: %s" % (c, e), "not-a-cycle")
    return core.Case(outcome=tuple(c))


def gen_bfs(shard):
    def it():
        for n in (3, 4, 5):
            ps = G.pairs(n)
            for bits in range(1 << len(ps)):
                es = [p for i, p in enumerate(ps) if bits >> i & 1]
                for root in range(n):
                    for label in ("id", "gap", "rev"):
                        for order in (0, 1):
                            yield (n, label, order, root, es, [0, n - 1] if bits % 5 == 2 else [])
        ps = G.pairs(6)
        for bits in range(1 << len(ps)):
            es = [p for i, p in enumerate(ps) if bits >> i & 1]
            yield (6, ("id", "rev")[bits // 2 % 2], bits // 4 % 2, bits % 6, es, [])
        for k, es in enumerate(canonical6(7)):
            if core.THOROUGH or k % 8 == 0:
                yield (7, "id", k % 2, 0, es, [])
        yield from larger(8, 40)
        # roots with many neighbours, and one or two edges between these (or between vertices behind them)
        for d in (8, 9, 11, 16, 17, 33, 64, 130, 257, 300):
            star = [(0, v) for v in range(1, d + 1)]
            for a in sorted({1, 2, d // 2, d - 1}):
                for b in sorted({a + 1, a + 2, a + 8, a + 16, a + 256, d // 2 + 1, d}):
                    if a < b <= d:
                        k = a + b + d
                        yield (d + 1, ("id", "gap", "rev")[k % 3], k % 2, 0, star + [(a, b)], [])
                        yield (d + 3, ("id", "gap", "rev")[k // 3 % 3], k % 2, 0, star + [(a, d + 1), (d + 1, d + 2), (b, d + 2)], [])
            yield (d + 1, "id", d % 2, 0, star, [0, d])
    return core.pick(it(), shard)


def run_bfs_check(res):
    pyreal.with_engine()
    core.py(res, "bfs", core.chunks(64), gen_bfs, run_bfs, 2000 if core.THOROUGH else 300)
