"""Small graphs and brute-force oracles used by the Python-side checks."""
import itertools

import networkx as nx


def pairs(n):
    return [(u, v) for u in range(n) for v in range(u + 1, n)]


def labelled_graphs(n, alphabet):
    """Every labelled graph on n vertices; each pair is absent (None) or has a cost of the alphabet."""
    ps = pairs(n)
    for combo in itertools.product((None,) + tuple(alphabet), repeat=len(ps)):
        yield {p: c for p, c in zip(ps, combo) if c is not None}


def canonical_rooted(n, root=0):
    """One edge set per isomorphism class of graphs on n vertices with a distinguished root."""
    ps = pairs(n)
    idx = {p: i for i, p in enumerate(ps)}
    others = [v for v in range(n) if v != root]
    maps = []
    for perm in itertools.permutations(others):
        m = {root: root}
        m.update(dict(zip(others, perm)))
        maps.append([idx[tuple(sorted((m[u], m[v])))] for u, v in ps])
    seen = set()
    for bits in range(1 << len(ps)):
        if bits in seen:
            continue
        orbit = set()
        on = [i for i in range(len(ps)) if bits >> i & 1]
        for m in maps:
            x = 0
            for i in on:
                x |= 1 << m[i]
            orbit.add(x)
        seen |= orbit
        yield [ps[i] for i in on]


def adj(n, edges):
    a = {v: set() for v in range(n)}
    for u, v in edges:
        a[u].add(v)
        a[v].add(u)
    return a


def simple_cycles_through(a, root):
    """Every simple cycle (>= 3 vertices) through root, once, as a vertex list starting at root."""
    out = []
    path = [root]
    on = {root}

    def rec():
        u = path[-1]
        for v in a[u]:
            if v == root:
                if len(path) >= 3 and path[1] < path[-1]:
                    out.append(list(path))
            elif v not in on:
                on.add(v)
                path.append(v)
                rec()
                path.pop()
                on.discard(v)
    rec()
    return out


def cyc_edges(c):
    return [(c[i], c[(i + 1) % len(c)]) for i in range(len(c))]


def ecost(cost, u, v):
    return cost[(u, v)] if (u, v) in cost else cost[(v, u)]


def cyc_cost(cost, c):
    return sum(ecost(cost, u, v) for u, v in cyc_edges(c))


LABELS = {
    "id": lambda n: {i: i for i in range(n)},
    "gap": lambda n: {i: 3 * i + 2 for i in range(n)},
    "rev": lambda n: {i: n - 1 - i for i in range(n)},
}


def build_nx(n, cost, prizes=None, label="id", order=0):
    """networkx graph with cost / weight / prize attributes under a relabelling and an edge order."""
    m = LABELS[label](n)
    g = nx.Graph()
    vs = list(range(n))
    if order == 1:
        vs.reverse()
    for v in vs:
        g.add_node(m[v], prize=(prizes[v] if prizes else 1), demand=0)
    es = list(cost.items())
    if order == 1:
        es.reverse()
    for (u, v), c in es:
        a, b = (u, v) if order == 0 else (v, u)
        g.add_edge(m[a], m[b], cost=c, weight=c)
    return g, m


def tour_error(g, tour, root, minv=3):
    """Why `tour` is not a closed simple tour of g through root (None when it is)."""
    if len(tour) < minv + 1:
        return "fewer than %d distinct vertices" % minv
    if tour[0] != tour[-1]:
        return "not closed"
    if tour[0] != root:
        return "does not start at the root"
    if len(set(tour[:-1])) != len(tour) - 1:
        return "vertex repeated"
    for u, v in zip(tour, tour[1:]):
        if not g.has_edge(u, v):
            return "(%s,%s) is not an edge" % (u, v)
    return None


# ------------------------------------------------------------------ larger graphs: a parametric family, every member enumerated
TOPOLOGIES, COSTS = 9, 4


def scramble(*xs):
    h = 0x9E3779B97F4A7C15
    for x in xs:
        h = (h ^ (x + 0x632BE59BD9B4E019)) * 0xD6E8FEB86659FD93 & (1 << 64) - 1
        h ^= h >> 29
    return h >> 11


def family(n, topo, cp, salt):
    """Edge costs of one member: the parameters say everything, nothing is drawn."""
    import math
    w = max(2, math.isqrt(n))

    def on(u, v):
        h = scramble(u, v, salt, 1)
        if topo == 0:
            return n <= 16 or v - u <= 12
        if topo == 1:
            return (u * v + u + v + salt) % 3 != 0 and v - u < 20
        if topo == 2:
            return v - u <= 3
        if topo == 3:  # grid
            return (v - u == 1 and v % w != 0) or v - u == w
        if topo == 4:
            return h % (4 * n) < 12
        if topo == 5:  # wheel, some spokes missing
            hub = n // 2
            ring = [x for x in range(n) if x != hub]
            if hub in (u, v):
                return (u + v + salt) % 3 != 0
            i, j = ring.index(u), ring.index(v)
            return j - i in (1, len(ring) - 1)
        if topo == 6:  # a chain of short cycles that meet in one vertex, with pendant vertices
            k = 3 + salt % 3
            if v >= n - 2:
                return u == (v * 7 + salt) % (n - 2)
            m = n - 2
            return (v - u == 1 and v < m) or (v - u == k - 1 and u % (k - 1) == 0)
        if topo == 7:  # ears of growing length between the first and the last vertex
            bounds, x, k = [], 1, 2
            while x < n - 1:
                bounds.append((x, min(n - 1, x + k)))
                x, k = x + k, k + 1
            for a, b in bounds:
                if a <= u and v < b and v == u + 1:
                    return True
                if (u == 0 and v == a) or (u == b - 1 and v == n - 1):
                    return True
            return False
        return u == v - 1 - scramble(v, salt, 2) % min(v, 4) or (u * 31 + v * 17 + salt) % (2 * n) == 0  # a tree with a few chords
    costs = {}
    for u, v in pairs(n):
        if on(u, v):
            h = scramble(u, v, salt, 3)
            costs[u, v] = (1 + h % 20, 1, h % 4, 1000 + h % 1000000)[cp]
    return costs


def family_cases(sizes, salts, topologies=range(TOPOLOGIES), costs=range(COSTS)):
    for n in sizes:
        for topo in topologies:
            for cp in costs:
                for salt in range(salts):
                    yield n, topo, cp, salt


def cheapest_pair(arcs, s, t):
    """Least cost of two arc-disjoint paths from s to t (None when there are none); arcs: {(u, v): cost}, costs >= 0."""
    res = {}
    out = {}
    for (u, v), c in arcs.items():
        res.setdefault((u, v), []).append([c, 1])
        out.setdefault(u, []).append((u, v, len(res[u, v]) - 1, 1))
        out.setdefault(v, []).append((u, v, len(res[u, v]) - 1, -1))
    total = 0
    for _ in range(2):
        dist, prev, queue, inq = {s: 0}, {}, [s], {s}
        while queue:
            x = queue.pop(0)
            inq.discard(x)
            for u, v, i, d in out.get(x, ()):
                y = v if d == 1 else u
                if (u if d == 1 else v) != x:
                    continue
                c, left = res[u, v][i]
                if (left if d == 1 else 1 - left) <= 0:
                    continue
                nd = dist[x] + d * c
                if y not in dist or nd < dist[y]:
                    dist[y] = nd
                    prev[y] = (u, v, i, d, x)
                    if y not in inq:
                        inq.add(y)
                        queue.append(y)
        if t not in dist:
            return None
        total += dist[t]
        y = t
        while y != s:
            u, v, i, d, x = prev[y]
            res[u, v][i][1] -= d
            y = x
    return total


def cheapest_cycles(n, cost, root):
    """{v: least cost of a simple cycle through root and v}, by flows in the graph with split vertices."""
    arcs = {}
    for v in range(n):
        arcs[("in", v), ("out", v)] = 0
    for (u, v), c in cost.items():
        arcs[("out", u), ("in", v)] = c
        arcs[("out", v), ("in", u)] = c
    best = {}
    for v in range(n):
        if v != root:
            c = cheapest_pair(arcs, ("out", root), ("in", v))
            if c is not None:
                best[v] = c
    return best
