"""Suurballe's algorithm and the maps derived from it, on every small graph."""
import itertools
import sys

import core
import pyreal  # noqa: F401
import networkx as nx
from checks import graphs as G


# ---- directed graphs: edge-disjoint pairs
def directed_cases(n, kinds):
    ps = G.pairs(n)
    # per pair: absent, u->v with a cost, v->u with a cost
    opts = [None] + [(d, c) for d in (0, 1) for c in kinds]
    for combo in itertools.product(opts, repeat=len(ps)):
        yield [((u, v, o[1]) if o[0] == 0 else (v, u, o[1])) for (u, v), o in zip(ps, combo) if o]


def simple_paths(out, s, t):
    res = []
    path = [s]

    def rec(u, edges, c):
        if u == t:
            res.append((c, frozenset(edges)))
            return
        for v, w in out[u]:
            if v not in path:
                path.append(v)
                rec(v, edges + [(u, v)], c + w)
                path.pop()
    rec(s, [], 0)
    return res


def best_pair(paths):
    best = None
    paths = sorted(paths, key=lambda x: x[0])
    for i, (c1, e1) in enumerate(paths):
        if best is not None and 2 * c1 >= best:
            break
        for c2, e2 in paths[i + 1:]:
            if best is not None and c1 + c2 >= best:
                break
            if not (e1 & e2):
                best = c1 + c2
    return best


def run_directed(case):
    from pctsp.suurballe import suurballe_shortest_vertex_disjoint_paths, extract_suurballe_edge_disjoint_paths, edge_disjoint_path_cost
    n, label, arcs = case
    m = G.LABELS[label](n)
    g = nx.DiGraph()
    g.add_nodes_from(m[v] for v in range(n))
    cost = {}
    for u, v, c in arcs:
        g.add_edge(m[u], m[v], cost=c)
        cost[m[u], m[v]] = c
    s = m[0]
    out = {v: [] for v in range(n)}
    for u, v, c in arcs:
        out[u].append((v, c))
    before = (sorted(g.nodes), sorted((u, v, tuple(sorted(d.items()))) for u, v, d in g.edges(data=True)))
    t = suurballe_shortest_vertex_disjoint_paths(g, s, weight="cost")
    if before != (sorted(g.nodes), sorted((u, v, tuple(sorted(d.items()))) for u, v, d in g.edges(data=True))):
        return core.Case("the input graph was changed", "mutated")
    obs = []
    reach = nx.descendants(nx.DiGraph([(0, 0)] + [(u, v) for u, v, _ in arcs]), 0)
    for v in range(1, n):
        if v not in reach:
            if m[v] in t:
                return core.Case("unreachable vertex %s is in the tree" % m[v], "unreachable")
            continue
        best = best_pair(simple_paths(out, 0, v)) if n < 7 else G.cheapest_pair({(u, w): c for u, w, c in arcs}, 0, v)
        lab = bool(t.labeled[m[v]])
        if lab != (best is not None):
            return core.Case("vertex %s labelled=%s but a disjoint pair %s" % (m[v], lab, "costs %s" % best if best is not None else "does not exist"), "label")
        c = edge_disjoint_path_cost(t, m[v])
        if best is None:
            if c != sys.maxsize:
                return core.Case("cost %s reported for vertex %s without a pair" % (c, m[v]), "cost")
            continue
        if c != best:
            return core.Case("vertex %s: reported cost %s, cheapest pair costs %s" % (m[v], c, best), "cost")
        p, q = extract_suurballe_edge_disjoint_paths(t, s, m[v])
        ep, eq = list(zip(p, p[1:])), list(zip(q, q[1:]))
        for path, es in ((p, ep), (q, eq)):
            if not path or path[0] != s or path[-1] != m[v] or any(e not in cost for e in es):
                return core.Case("extracted path %s is not a path from %s to %s" % (path, s, m[v]), "path")
        if len(set(ep + eq)) != len(ep) + len(eq):
            return core.Case("extracted paths %s %s share an edge" % (p, q), "disjoint")
        if sum(cost[e] for e in ep + eq) != best:
            return core.Case("extracted paths cost %s, expected %s" % (sum(cost[e] for e in ep + eq), best), "extract-cost")
        obs.append((v, best))
    return core.Case(outcome=tuple(obs), nontrivial=bool(obs))


# ---- undirected pipeline: split graph, maps over the original vertices
def run_undirected(case):
    from pctsp.suurballe import suurballe_shortest_vertex_disjoint_paths
    from pctsp.preprocessing import undirected_vertex_disjoint_paths_map, vertex_disjoint_cost_map
    from tspwplib import asymmetric_from_undirected, biggest_vertex_id_from_graph, split_head
    n, label, order, root, cost = case
    g, m = G.build_nx(n, cost, label=label, order=order)
    big = biggest_vertex_id_from_graph(g)
    t = suurballe_shortest_vertex_disjoint_paths(asymmetric_from_undirected(g), split_head(big, m[root]), weight="cost")
    cm = vertex_disjoint_cost_map(t, big)
    pm = undirected_vertex_disjoint_paths_map(t, big)
    best = {}
    if n > 7:
        best = {m[v]: x for v, x in G.cheapest_cycles(n, cost, root).items()}
    else:
        for c in G.simple_cycles_through(G.adj(n, cost), root):
            x = G.cyc_cost(cost, c)
            for v in c[1:]:
                best[m[v]] = min(best.get(m[v], 10**9), x)
    cm2 = {k: v for k, v in cm.items() if k != m[root]}
    if set(cm2) != set(best):
        return core.Case("cost map covers %s, vertices on a cycle through the root are %s" % (sorted(cm2), sorted(best)), "cover")
    if cm2 != best:
        return core.Case("cost map %s, cheapest cycles cost %s" % (cm2, best), "cost")
    pm2 = {k: v for k, v in pm.items() if k != m[root]}
    if set(pm2) != set(best):
        return core.Case("paths map covers %s, expected %s" % (sorted(pm2), sorted(best)), "cover")
    for v, (p, q) in pm2.items():
        for path in (p, q):
            if not path or path[0] != m[root] or path[-1] != v or any(not g.has_edge(a, b) for a, b in zip(path, path[1:])):
                return core.Case("%s is not a path from the root to %s" % (path, v), "path")
        if set(p[1:-1]) & set(q[1:-1]) or len(set(p)) != len(p) or len(set(q)) != len(q):
            return core.Case("paths %s %s to %s are not internally vertex-disjoint" % (p, q, v), "disjoint")
        if len(p) + len(q) < 5:
            return core.Case("paths %s %s to %s use one edge twice" % (p, q, v), "disjoint")
        c = sum(g[a][b]["cost"] for path in (p, q) for a, b in zip(path, path[1:]))
        if c != best[v]:
            return core.Case("paths %s %s to %s cost %s, expected %s" % (p, q, v, c, best[v]), "extract-cost")
    return core.Case(outcome=tuple(sorted(best.items())), nontrivial=bool(best))


def gen_directed(shard):
    th = core.THOROUGH
    def it():
        for arcs in directed_cases(4, (1, 2)):
            yield (4, "id", arcs)
        for arcs in directed_cases(4, (0, 3)):
            yield (4, "gap", arcs)
        # five vertices, two costs, no arc into the source, arcs out of it sorted by cost (the other vertices are interchangeable)
        for rc in itertools.combinations_with_replacement((None, 1, 2), 4):
            if sum(c is not None for c in rc) < 2:
                continue
            root = [(0, v, c) for v, c in zip((1, 2, 3, 4), rc) if c is not None]
            for k, combo in enumerate(itertools.product([None] + [(d, c) for d in (0, 1) for c in (1, 2)], repeat=6)):
                if sum(o is not None for o in combo) >= (2 if th else 4):
                    yield (5, ("id", "rev", "gap")[k % 3], root + [((u, v, o[1]) if o[0] == 0 else (v, u, o[1])) for (u, v), o in zip(itertools.combinations((1, 2, 3, 4), 2), combo) if o])
        # six vertices, source with two or three (thorough: up to five) arcs, costs a fixed function of the pair
        for deg in range(2, 6 if th else 4):
            root = [(0, v, v % 3 + 1) for v in range(1, deg + 1)]
            for combo in itertools.product((0, 1, None), repeat=10):
                if th or sum(o is not None for o in combo) >= 8:
                    yield (6, "id", root + [((u, v, (2 * u + 3 * v) % 4) if o == 0 else (v, u, (2 * u + 3 * v + 1) % 3)) for (u, v), o in zip(itertools.combinations(range(1, 6), 2), combo) if o is not None])
        # five vertices, costs a fixed function of the pair
        for arcs in directed_cases(5, (1,)):
            yield (5, "rev", [(u, v, (3 * u + 5 * v) % 4 + (0 if th else 1)) for u, v, _ in arcs])
        if th:
            for arcs in directed_cases(5, (1,)):
                for k in range(3):
                    yield (5, "id", [(u, v, ((3 + k) * u * v + 7 * u + v) % (5 + k)) for u, v, _ in arcs])
        # the parametric family of larger graphs: every arc away from the source, against it, or either way
        for n, topo, cp, salt in G.family_cases((7, 8, 9, 11, 14, 20, 35) + ((60, 90) if th else ()), 12 if th else 4):
            cost = G.family(n, topo, cp, salt)
            for way in range(3):
                turn = lambda u, v: way == 1 and u and G.scramble(u, v, salt, 5) % 4 == 0 or way == 2 and u and G.scramble(u, v, salt, 6) % 2  # noqa: E731
                yield (n, ("id", "gap", "rev")[(n + topo + salt + way) % 3], [(v, u, c) if turn(u, v) else (u, v, c) for (u, v), c in cost.items()])
    return core.pick(it(), shard)


def gen_undirected(shard):
    th = core.THOROUGH
    def it():
        for n in (3, 4):
            for cost in G.labelled_graphs(n, (1, 2, 4)):
                for root in range(n):
                    yield (n, "gap" if root % 2 else "id", root % 2, root, cost)
        for k, cost in enumerate(G.labelled_graphs(5, (1, 3))):
            yield (5, ("id", "rev", "gap")[k % 3], k % 2, k % 5, cost)
        nn = 7 if th else 6
        for k, es in enumerate(G.canonical_rooted(6)):
            for p in range(12 if th else 3):
                yield (6, ("id", "rev")[p % 2], p // 2 % 2, 0, {(u, v): ((u + 2) * (v + 3) * (2 * p + 1)) % (7 + p) + (p % 2) for u, v in es})
        if th:
            for k, es in enumerate(G.canonical_rooted(6)):
                for bits in range(0, 1 << len(es), max(1, (1 << len(es)) // 64)):
                    yield (6, "id", 0, 0, {e: 1 + 2 * (bits >> i & 1) for i, e in enumerate(es)})
        for n, topo, cp, salt in G.family_cases((7, 8, 9, 11, 14, 20, 35) + ((60, 90) if th else ()), 12 if th else 3):
            cost = G.family(n, topo, cp, salt)
            for root in sorted({0, (salt + topo) % n, n // 2, n - 1}):
                yield (n, ("id", "gap", "rev")[(n + topo + salt + root) % 3], (salt + root) % 2, root, cost)
    return core.pick(it(), shard)


def run(res):
    core.py(res, "directed", core.chunks(64), gen_directed, run_directed, 700)
    core.py(res, "undirected", core.chunks(64), gen_undirected, run_undirected, 3000 if core.THOROUGH else 300)
    from checks import c_pre
    c_pre.run_suurballe_scale(res)
