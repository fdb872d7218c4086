"""Tree traversals, ancestor test and reduced costs (the numbering Suurballe's algorithm relies on)."""
import itertools
import sys

import core
import pyreal  # noqa: F401
import networkx as nx
from checks import graphs as G


def run_tree(case):
    from pctsp.suurballe import preorder, postorder, is_ancestor
    kind, parents, extra = case
    if kind == "chain":
        parents = tuple(range(parents))  # vertex i+1 hangs below i
    n = len(parents) + 1
    m = {i: (3 * i + 2 if extra % 2 else n - i) for i in range(n)}
    t = nx.DiGraph()
    order = list(range(1, n))
    if extra // 2 % 2:
        order.reverse()
    for v in order:
        t.add_edge(m[parents[v - 1]], m[v])
    t.add_node(m[0])
    stray = 10**6
    if extra // 4 % 2:
        t.add_node(stray)
    ch = {i: [] for i in range(n)}
    for v in range(1, n):
        ch[parents[v - 1]].append(v)
    edges = sorted(t.edges)
    pre = preorder(t, m[0])
    post = postorder(t, m[0])
    if sorted(t.edges) != edges:
        return core.Case("the traversals changed the tree", "mutated")
    for name, order, attr in (("preorder", pre, "pre"), ("postorder", post, "post")):
        if sorted(order) != sorted(m.values()):
            return core.Case("%s %s is not a permutation of the tree's vertices" % (name, order[:12]), "permutation")
        bad = [v for i, v in enumerate(order) if t.nodes[v][attr] != i]
        if bad:
            return core.Case("%s number of %s is %s, its position is %d" % (name, bad[0], t.nodes[bad[0]][attr], order.index(bad[0])), "number")
        if stray in t and t.nodes[stray][attr] != sys.maxsize:
            return core.Case("a vertex outside the tree was numbered", "number")
    ppos = {v: i for i, v in enumerate(pre)}
    qpos = {v: i for i, v in enumerate(post)}
    size = [1] * n
    for v in range(n - 1, 0, -1):
        size[parents[v - 1]] += size[v]
    for v in range(1, n):
        p = parents[v - 1]
        if not (ppos[m[p]] < ppos[m[v]] < ppos[m[p]] + size[p]):
            return core.Case("preorder %s does not list the subtree of %s right after it" % (pre, m[p]), "preorder")
        if not (qpos[m[p]] - size[p] < qpos[m[v]] < qpos[m[p]]):
            return core.Case("postorder %s does not list the subtree of %s right before it" % (post, m[p]), "postorder")
    anc = {}
    for v in range(n):
        x, s = v, {v}
        while x:
            x = parents[x - 1]
            s.add(x)
        anc[v] = s
        if kind == "chain" and v > 8:
            break
    for v in anc:
        for u in range(n):
            if bool(is_ancestor(t, m[u], m[v])) != (u in anc[v]):
                return core.Case("is_ancestor(%s, %s) is %s" % (m[u], m[v], is_ancestor(t, m[u], m[v])), "ancestor")
    return core.Case(outcome=(tuple(parents[:20]), n), nontrivial=n > 1)


def gen_trees(shard):
    def it():
        for n in range(1, 8 if not core.THOROUGH else 9):
            for parents in itertools.product(*[range(v) for v in range(1, n)]):
                for extra in range(8):
                    yield ("tree", parents, extra)
        for n in (50, 900, 1100, 3000, 8000):
            for extra in range(4):
                yield ("chain", n, extra)
    return core.pick(it(), shard)


def run_costs(case):
    from pctsp.suurballe import adjust_edge_cost, adjust_edge_cost_for_graph, find_parents_in_shortest_path_tree, SuurballeTree
    from pctsp.constants import NULL_VERTEX
    n, label, arcs = case
    m = G.LABELS[label](n)
    g = nx.DiGraph()
    g.add_nodes_from(m.values())
    for u, v, c in arcs:
        g.add_edge(m[u], m[v], length=c)
    dist, paths = nx.single_source_dijkstra(g, m[0], weight="length")
    par = find_parents_in_shortest_path_tree(paths)
    if set(par) != set(paths):
        return core.Case("parents of %s for paths to %s" % (sorted(par), sorted(paths)), "parents")
    for v, p in paths.items():
        want = NULL_VERTEX if len(p) < 2 else p[-2]
        if par[v] != want:
            return core.Case("parent of %s is %s, expected %s" % (v, par[v], want), "parents")
    h = g.subgraph(dist)
    adj = adjust_edge_cost_for_graph(h, dist, weight="length")
    got = {(u, v) for u in adj for v in adj[u]}
    if got != set(h.edges):
        return core.Case("adjusted costs for arcs %s, graph has %s" % (sorted(got), sorted(h.edges)), "arcs")
    for u, v, d in h.edges(data=True):
        want = d["length"] + dist[u] - dist[v]
        if adj[u][v] != want or adjust_edge_cost(d["length"], dist[u], dist[v]) != want:
            return core.Case("adjusted cost of (%s,%s) is %s, expected %s" % (u, v, adj[u][v], want), "cost")
        if want < 0 or (par[v] == u and want != 0):
            raise core.CheckError("oracle inconsistent")
    t = SuurballeTree(m[0], dist, par)
    if set(t.edges) != {(par[v], v) for v in par if v != m[0]} or set(t.nodes) != set(dist):
        return core.Case("shortest path tree has arcs %s" % sorted(t.edges), "tree")
    return core.Case(outcome=tuple(sorted((u, v, adj[u][v]) for u, v in h.edges)), nontrivial=len(dist) > 1)


def gen_costs(shard):
    from checks import c_suurballe as S

    def it():
        for k, arcs in enumerate(S.directed_cases(4, (1, 3))):
            yield (4, ("id", "gap", "rev")[k % 3], arcs)
        for u in range(1, 4):  # both directions between vertices
            for combo in itertools.product((None, 1, 4), repeat=6):
                ps = [(0, 1), (1, 0), (1, 2), (2, 1), (0, 2), (2, 0)]
                yield (3, ("id", "gap", "rev")[u - 1], [(a, b, c * u) for (a, b), c in zip(ps, combo) if c])
        for n in (6, 7, 9, 12, 30, 120):  # long paths with shortcuts, ladders, and sparse arcs of every kind
            for a in range(1, 6):
                for b in range(1, 8):
                    for k in range(3):
                        arcs = {(v, v + 1): 1 + (v * a) % b for v in range(n - 1)}
                        for v in range(n):
                            for s in ((2, 3), (5, n // 2), (1 + a, 4 + b))[k]:
                                if v + s < n and (v * b + a) % 3:
                                    arcs[v, v + s] = s * b // 2 + (v * v + a) % 5
                                if v - s >= 0 and (v + b) % 2:
                                    arcs[v, v - s] = (v * a + s) % 4
                        yield (n, ("id", "gap", "rev")[(a + b) % 3], [(u, v, c) for (u, v), c in sorted(arcs.items())])
    return core.pick(it(), shard)


def run(res):
    core.py(res, "trees", core.chunks(64), gen_trees, run_tree, 600)
    core.py(res, "reduced-costs", core.chunks(32), gen_costs, run_costs, 300)
