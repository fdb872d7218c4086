"""Python functions around the C++ heuristics: same answer as the C++ called directly, for every labelling."""
import itertools
import logging
import sys

import core
import pyreal
import vbuild
from checks import graphs

KINDS = ("collapse", "path_collapse", "extension_unitary_gain", "extension_unitary_gain_collapse", "extension_until_prize_feasible", "extension_unitary_loss",
         "path_extension", "path_extension_until_prize_feasible", "path_extension_collapse")
_m = {}


def ref():
    if "ref" not in _m:
        d = vbuild.extmodule("refheur")
        sys.path.insert(0, d)
        _m["ref"] = __import__("refheur")
    return _m["ref"]


COSTS = (7, 3, 11, 5, 2, 13, 1, 9, 4, 17, 6, 8, 19, 10, 12)
PRIZES = (2, 5, 1, 7, 3, 11)
# a label per vertex: identity, gaps and offsets, reversed, far apart
LABELS = ({i: i for i in range(7)}, {i: 3 * i + 2 for i in range(7)}, {i: 9 - i for i in range(7)}, {0: 2 ** 40, 1: 0, 2: 17, 3: 2 ** 33, 4: 5, 5: 1, 6: 99})


def labels(label, n):
    if n < 7:
        return LABELS[label]
    return {i: (i, 3 * i + 2, n + 2 - i, (i + 1) * 2654435761 % 2 ** 41)[label] for i in range(n + 1)}


def detours(ring, salt):
    """A ring of poor vertices with rich detours past few and past many of them: how far apart the ends are decides what an extension can do."""
    cost = {tuple(sorted((i, (i + 1) % ring))): 20 + graphs.scramble(i, salt, 11) % 9 for i in range(ring)}
    prize, n = {v: 1 + graphs.scramble(v, salt, 12) % 3 for v in range(ring)}, ring
    for j, gap in enumerate((2, 3, 9, 10, 11, 12, 15, 21)):
        if gap >= ring - 2 or (salt >> j) & 1:
            continue
        a = (j * 5 + salt) % (ring - gap)
        path = [a] + list(range(n, n + gap + 1)) + [a + gap]
        n += gap + 1
        for i, (u, v) in enumerate(zip(path, path[1:])):
            cost[tuple(sorted((u, v)))] = 21 + graphs.scramble(i, j + salt, 13) % 17
        prize.update({v: 40 + graphs.scramble(v, salt, 14) % 60 for v in path[1:-1]})
    return n, cost, prize


def instance(n, mask, k, shift):
    """Costs and prizes; with 7 vertices and more the mask names a member of the family of larger graphs."""
    if n < 7:
        return ({p: COSTS[(i + shift) % len(COSTS)] for i, p in enumerate(graphs.pairs(n)) if mask >> i & 1}, {v: PRIZES[(v + shift) % len(PRIZES)] for v in range(n)})
    if mask >= 100:
        return detours(mask - 100, shift)[1:]
    cost = graphs.family(n, mask, 3, shift)
    for i in range(k):
        cost.setdefault(tuple(sorted((i, (i + 1) % k))), 1000 + graphs.scramble(i, shift, 8) % 1000000)
    for v in range(k, n):  # the functions know only of vertices with an edge
        if not any(v in e for e in cost):
            cost[0, v] = 5000 + v
    return cost, {v: graphs.scramble(v, shift, 9) % 1000 for v in range(n)}


def direct(kind, n, order, m, tour, root, quota, step, depth, sp):
    """Reference answers: the C++ on vertices numbered in several ways, mapped back (ties may depend on numbering)."""
    code = {"collapse": 0, "path_collapse": 0, "extension_unitary_gain": 1, "extension_until_prize_feasible": 2, "extension_unitary_loss": 3, "path_extension": 3,
            "path_extension_until_prize_feasible": 4, "path_extension_collapse": 5, "extension_unitary_gain_collapse": 6}[kind]
    if kind == "extension_unitary_loss":
        step, depth = 1, 2
    sp = {"path_collapse": True, "path_extension_collapse": sp}.get(kind, False)
    out = []
    first = []
    for (u, v), _ in order:
        for x in (u, v):
            if x not in first:
                first.append(x)
    first += [v for v in range(n) if v not in first]
    for number in ({v: i for i, v in enumerate(first)}, {v: v for v in range(n)}, {v: n - 1 - v for v in range(n)}):
        back = {b: a for a, b in number.items()}
        es = [(number[u], number[v]) for (u, v), _ in order]
        t = ref().direct(code, n, es, [c for _, c in order], [m["prize"][back[i]] for i in range(n)], [number[x] for x in tour], number[root], quota, step, depth, sp)
        r = [back[x] for x in t]
        if r not in out:
            out.append(r)
    return out


def case_graph(case):
    """The graph of a case; loops (zero cost) and an isolated vertex are added for some shapes."""
    import networkx as nx
    kind, n, mask, k, quota, step, depth, sp, label, shape, shift = case
    cost, prize = instance(n, mask, k, shift)
    L = labels(label, n)
    g = nx.Graph()
    vs = list(range(n))
    if shape & 1:
        vs.reverse()
    if shape & 2:
        g.add_node(L[n], prize=50)
    for v in vs:
        g.add_node(L[v], prize=prize[v])
    for (u, v), c in cost.items():
        g.add_edge(L[u], L[v], cost=c, weight=1000 + c)
    if shape & 4:
        for v in vs:
            g.add_edge(L[v], L[v], cost=0, weight=0)
    back = {b: a for a, b in L.items()}
    order = [((back[u], back[v]), g[u][v]["cost"]) for u, v in g.edges() if u != v]
    return g, order, prize, L, back


def call(kind, alg, g, tour, root, quota, step, depth, sp):
    if kind in ("collapse", "path_collapse", "extension_unitary_gain_collapse"):
        return getattr(alg, kind)(g, tour, quota, root, logging_level=logging.ERROR)
    if kind == "extension_unitary_gain":
        return alg.extension_unitary_gain(g, tour, logging_level=logging.ERROR)
    if kind == "extension_until_prize_feasible":
        return alg.extension_until_prize_feasible(g, tour, quota)
    if kind == "extension_unitary_loss":
        return alg.extension_unitary_loss(g, tour, root, logging_level=logging.ERROR)
    if (step, depth, sp) == (1, 2, False) and len(g) % 2 == 0:  # the documented defaults
        extra = dict(logging_level=logging.ERROR)
        if kind == "path_extension":
            return alg.path_extension(g, tour, root, **extra)
        if kind == "path_extension_until_prize_feasible":
            return alg.path_extension_until_prize_feasible(g, tour, root, quota, **extra)
        return alg.path_extension_collapse(g, tour, root, quota, **extra)
    if kind == "path_extension":
        return alg.path_extension(g, tour, root, path_depth_limit=depth, step_size=step, logging_level=logging.ERROR)
    if kind == "path_extension_until_prize_feasible":
        return alg.path_extension_until_prize_feasible(g, tour, root, quota, step_size=step, path_depth_limit=depth, logging_level=logging.ERROR)
    return alg.path_extension_collapse(g, tour, root, quota, collapse_shortest_paths=sp, path_depth_limit=depth, step_size=step, logging_level=logging.ERROR)


def needs(kind):
    """Which of (quota, step/depth, sp) matter to the function."""
    return (kind in ("collapse", "path_collapse", "extension_unitary_gain_collapse", "extension_until_prize_feasible", "path_extension_until_prize_feasible", "path_extension_collapse"),
            kind.startswith("path_extension"), kind == "path_extension_collapse")


def run_case(case):
    import pctsp.algorithms as alg
    kind, n, mask, k, quota, step, depth, sp, label, shape, shift = case
    g, order, prize, L, back = case_graph(case)
    tour = list(range(k)) + [0]
    ltour = [L[v] for v in tour]
    before = (list(g.nodes(data=True)), list(g.edges(data=True)), list(ltour))
    before = repr(before)
    got = call(kind, alg, g, ltour, L[0], quota, step, depth, sp)
    if repr((list(g.nodes(data=True)), list(g.edges(data=True)), ltour)) != before:
        return core.Case("%s changed its inputs" % kind, "frame")
    want = direct(kind, n, order, dict(prize=prize), tour, 0, quota, step, depth, sp)
    r = [back.get(x, "unknown vertex %s" % x) for x in got]
    if r not in want:
        return core.Case("%s returned %s, the algorithm run directly returns %s" % (kind, r, want), "wrong-answer")
    return core.Case(outcome=(kind, tuple(r)), nontrivial=r != tour)


def gen(shard):
    def it():
        n0 = (4, 5) if not core.THOROUGH else (4, 5, 6)
        for n in n0:
            ps = graphs.pairs(n)
            full = (1 << len(ps)) - 1
            masks = [m for m in range(full + 1)] if n == 4 else [full ^ sum(1 << i for i in drop) for r in range(4) for drop in itertools.combinations(range(len(ps)), r)]
            for shift in range(6 if core.THOROUGH else 3):
                total = sum(PRIZES[(v + shift) % len(PRIZES)] for v in range(n))
                for k in (3, 4, 5):
                    if k > n:
                        continue
                    need = sum(1 << ps.index(tuple(sorted((i, (i + 1) % k)))) for i in range(k))
                    for mi, mask in enumerate(masks):
                        if mask & need != need:
                            continue
                        inner = sum(PRIZES[(v + shift) % len(PRIZES)] for v in range(k))
                        for kind in KINDS:
                            q, sd, s = needs(kind)
                            quotas = ([max(1, inner // 2), inner, total] if kind not in ("collapse", "path_collapse") else [1, inner // 2, inner]) if q else [0]
                            sds = [(1, 2), (1, 3), (2, 2), (2, 3), (3, 2), (1, 4), (2, 4)] if sd else [(1, 2)]
                            sds = [(a, b) for a, b in sds if a < k]
                            for (a, b), quo, spv in itertools.product(sds, quotas, (False, True) if s else (False,)):
                                h = mi + a + 3 * b + quo + shift + k
                                yield (kind, n, mask, k, quo, a, b, spv, h % 4, (h // 4) % 8, shift)
        for n in (8, 12, 20, 40) + ((80,) if core.THOROUGH else ()):
            for topo, shift, k in itertools.product(range(graphs.TOPOLOGIES), range(6 if core.THOROUGH else 2), sorted({3, 4, n // 2, n - 1, n})):
                prize = instance(n, topo, k, shift)[1]
                total, inner = sum(prize.values()), sum(prize[v] for v in range(k))
                for i, kind in enumerate(KINDS):
                    q, sd, s = needs(kind)
                    h = n + topo + 5 * shift + k + i
                    quo = 0 if not q else (inner * (1 + h % 4) // 4 if kind in ("collapse", "path_collapse") else (inner // 2, inner, (inner + total) // 2, total)[h % 4])
                    a, b = (1 + h % min(5, k - 1), 2 + (h // 5) % 4) if sd else (1, 2)
                    yield (kind, n, topo, k, max(quo, 1) if q else 0, min(a, k - 1), b, bool(s and h % 2), h % 4, (h // 4) % 8, shift)
    return core.pick(it(), shard)


# ------------------------------------------------------------------ step and depth must not be confused
def ladder(k, ext, step):
    """A cycle 0..k-1 and one external path of `ext` vertices around the segment from vertex 1 to vertex 1 + step."""
    cost = {tuple(sorted((i, (i + 1) % k))): 10 for i in range(k)}
    prize = {i: 1 for i in range(k)}
    a, b = 1, 1 + step
    path = [a] + list(range(k, k + ext)) + [b]
    for x, y in zip(path, path[1:]):
        cost[tuple(sorted((x, y)))] = 1
    for v in range(k, k + ext):
        prize[v] = 40
    return cost, prize


def run_ladder(case):
    import networkx as nx
    import pctsp.algorithms as alg
    kind, k, ext, segment, step, depth, label = case
    cost, prize = ladder(k, ext, segment)
    off = 0 if label == 0 else 5
    g = nx.Graph()
    for v, p in prize.items():
        g.add_node(v + off, prize=p)
    for (u, v), c in cost.items():
        g.add_edge(u + off, v + off, cost=c)
    tour = [v + off for v in range(k)] + [off]
    quota = sum(prize.values()) - segment + 1
    got = call(kind, alg, g, list(tour), off, quota, step, depth, False)
    # the only replacement there is: that segment, if the step is its length and the path is within the depth
    reach = segment <= step if kind == "path_extension_collapse" else segment == step  # the combined heuristic tries every step up to the given one
    swap = reach and step < len(tour) - 1 and (ext == 1 if depth <= 2 else ext <= depth - 1)
    new = [0, 1] + list(range(k, k + ext)) + list(range(1 + segment, k)) + [0]
    want = [v + off for v in new] if swap else tour
    mirror = [want[0]] + want[1:-1][::-1] + [want[-1]]
    if kind == "path_extension_collapse":
        if not swap:
            want = mirror = []
    if got not in (want, mirror):
        return core.Case("%s with step %d and depth %d on a %d-cycle with an external path of %d vertices around %d edges returned %s, expected %s" % (
            kind, step, depth, k, ext, segment, got, want), "step-depth")
    return core.Case(outcome=case, nontrivial=swap)


def gen_ladder(shard):
    def it():
        for kind in ("path_extension", "path_extension_until_prize_feasible", "path_extension_collapse"):
            for k, ext, seg in itertools.product(range(4, 9), range(1, 6), range(1, 5)):
                if seg > k - 2:
                    continue
                for step, depth, label in itertools.product(range(1, 5), range(2, 7), (0, 1)):
                    if step < k - 1:
                        yield (kind, k, ext, seg, step, depth, label)
    return core.pick(it(), shard)


# ------------------------------------------------------------------ scalar functions and wrong input
def run_scalar(case):
    import pctsp.algorithms as alg
    if case[0] == "gain":
        _, p, uw, uv, vw = case
        d = uv + vw - uw
        got = alg.unitary_gain(p, uw, uv, vw)
        want = float(p) / d if d > 0 else None
        if want is not None and abs(got - want) > 1e-5 * max(1, abs(want)):
            return core.Case("unitary_gain%s = %s, expected %s" % (case[1:], got, want), "gain")
        return core.Case(outcome=got, nontrivial=want is not None)
    if case[0] == "loss":
        _, ep, ip, ec, ic = case
        got = alg.unitary_loss(ep, ip, ec, ic)
        want = float(ec - ic) / (ep - ip) if ep != ip else None
        if want is not None and abs(got - want) > 1e-5 * max(1, abs(want)):
            return core.Case("unitary_loss%s = %s, expected %s" % (case[1:], got, want), "loss")
        return core.Case(outcome=got, nontrivial=want is not None)
    # wrong input must be reported, not answered
    _, kind, what, label = case
    import networkx as nx
    L = LABELS[label]
    g = nx.Graph()
    for v in range(5):
        g.add_node(L[v], prize=PRIZES[v])
    for i, (u, v) in enumerate(graphs.pairs(4)):
        g.add_edge(L[u], L[v], cost=COSTS[i])
    tour = [L[0], L[1], L[2], L[0]]
    root = L[0]
    if what == "root":
        root = 123456
    elif what == "isolated-root":
        root = L[4]
    elif what == "tour":
        tour[1] = 123456
    elif what == "isolated-tour":
        tour[1] = L[4]
    if what.endswith("root") and kind in ("extension_unitary_gain", "extension_until_prize_feasible"):
        return core.Case(nontrivial=False)
    try:
        got = call(kind, alg, g, tour, root, 3, 1, 2, False)
    except Exception:  # noqa: BLE001
        return core.Case(outcome=case)
    return core.Case("%s answered %s although the %s is not a vertex on any edge" % (kind, got, what), "no-error")


def gen_scalar(shard):
    def it():
        for c in itertools.product(range(0, 8), repeat=4):
            yield ("gain",) + c
            yield ("loss",) + c
        for kind in KINDS:
            for what in ("root", "isolated-root", "tour", "isolated-tour"):
                for label in range(4):
                    yield ("bad", kind, what, label)
    return core.pick(it(), shard)


def run(res):
    pyreal.with_engine()
    import pctsp.algorithms  # noqa: F401
    ref()
    core.py(res, "wrappers", core.chunks(64), gen, run_case, 3000 if core.THOROUGH else 300, quiet=True)
    core.py(res, "step-depth", core.chunks(32), gen_ladder, run_ladder, 300, quiet=True)
    core.py(res, "scalar", core.chunks(16), gen_scalar, run_scalar, 300, quiet=True)
