"""Drawing: what the traces show is the graph, and what the tour trace shows is the tour."""
import itertools
import math
from collections import Counter

import core
from checks import c_run, graphs

XY = ((0, 0), (530123.625, 180987.371), (530123.627, 4), (-0.1278124, 51.5073509), (2, 123456789.125)) + tuple(((graphs.scramble(v, 31) % 2001 - 1000) / 8, graphs.scramble(v, 32) % 97 - 40) for v in range(5, 200))
NAMES = (("source", "target", "x", "y", "prize"), ("u", "v", "lon", "lat", "demand"), ("target", "source", "y", "x", "cost"))


def labels(n, kind):
    return {0: list(range(n)), 1: ["c%d" % (n - v) for v in range(n)], 2: [7 * v + 3 for v in range(n)], 3: list(range(n, 0, -1))}[kind]


def missing(x):
    return x is None or (isinstance(x, float) and math.isnan(x))


def segments(trace):
    """The line segments a scatter trace shows, as a multiset of unordered pairs of points."""
    xs, ys = list(trace.x if trace.x is not None else ()), list(trace.y if trace.y is not None else ())
    if len(xs) != len(ys):
        return None
    pts = [None if missing(x) or missing(y) else (float(x), float(y)) for x, y in zip(xs, ys)]
    if trace.connectgaps:
        pts = [p for p in pts if p is not None]
    return Counter(tuple(sorted((a, b))) for a, b in zip(pts, pts[1:]) if a is not None and b is not None)


def frames(n, edges, kind, names, rows, swap):
    import pandas as pd
    L = labels(n, kind)
    S, T, X, Y, P = names
    ends = [(L[b], L[a]) if swap >> i & 1 else (L[a], L[b]) for i, (a, b) in enumerate(edges)]
    cols = {"cost": [5 + i for i in range(len(edges))], S: [a for a, _ in ends], T: [b for _, b in ends]}
    for extra in ("source", "target"):  # decoys under the default names
        cols.setdefault(extra, [L[0]] * len(edges))
    edf = pd.DataFrame(cols, index=[10 - i for i in range(len(edges))] if rows else None)
    order = list(range(n))[::-1] if rows else list(range(n))
    vcols = {P: [(7 * v) % 5 for v in order], X: [XY[v][0] for v in order], Y: [XY[v][1] for v in order]}
    for extra in ("x", "y", "prize"):
        vcols.setdefault(extra, [99] * n)
    return L, edf, pd.DataFrame(vcols, index=[L[v] for v in order]), order


def pt(v):
    return (float(XY[v][0]), float(XY[v][1]))


def want_of(edges):
    return Counter(tuple(sorted((pt(a), pt(b)))) for a, b in edges)


def run_case(case):
    import json
    import plotly.graph_objects as go
    from pctsp.plot import edge_scatter, graph_layout, graph_trace, tour_edges_trace, vertex_scatter
    n, mask, kind, ni, rows, swap = case
    ps = graphs.pairs(n)
    if n < 6:
        edges = [p for i, p in enumerate(ps) if mask >> i & 1]
    else:  # the mask names a member of the family of larger graphs
        edges = sorted(graphs.family(n, mask, 1, swap), key=lambda e: graphs.scramble(*e, swap, 6))
    names = NAMES[ni]
    S, T, X, Y, P = names
    L, edf, vdf, order = frames(n, edges, kind, names, rows, swap)
    before = edf.copy(deep=True), vdf.copy(deep=True)
    kw = {} if ni == 0 else dict(source=S, target=T, x_name=X, y_name=Y)

    def bad(msg):
        return core.Case("edges %s of labels %s: %s" % (edges, L, msg), "drawing")
    got = segments(edge_scatter(edf, vdf, **kw))
    if got != want_of(edges):
        return bad("the edges drawn are %s instead of %s" % (sorted((got or {}).items()), sorted(want_of(edges).items())))
    tr = edge_scatter(edf, vdf, name="edges", hoverinfo="text", mode="lines+markers", **kw)
    if (tr.name, tr.hoverinfo, tr.mode) != ("edges", "text", "lines+markers") or segments(tr) != want_of(edges):
        return bad("options given by the caller do not replace the defaults")
    if "lines" not in edge_scatter(edf, vdf, **kw).mode:
        return bad("edges are not drawn as lines")
    vt = vertex_scatter(vdf) if ni == 0 else vertex_scatter(vdf, color=P, x_name=X, y_name=Y)
    if Counter(zip(map(float, vt.x), map(float, vt.y), map(float, vt.marker.color))) != Counter((*pt(v), float((7 * v) % 5)) for v in range(n)):
        return bad("the vertices drawn are %s" % list(zip(vt.x, vt.y, vt.marker.color)))
    if "markers" not in vt.mode:
        return bad("vertices are not drawn as markers")
    states = 1
    if ni == 0:
        trs = graph_trace(edf, vdf)
        if len(trs) != 2 or [t.mode for t in trs] != ["lines", "markers"] or segments(trs[0]) != want_of(edges) or len(trs[1].x) != n:
            return bad("the traces of the graph are not its edges and its vertices")
        fig = json.loads(go.Figure(data=trs, layout=graph_layout()).to_json())
        if len(fig["data"]) != 2 or fig["layout"].get("showlegend") is not False:
            return bad("the figure of the graph is %s" % sorted(fig["layout"]))
    a = graphs.adj(n, edges)
    tours = []
    for root in range(n) if n < 6 else ():
        for c in graphs.simple_cycles_through(a, root):
            tours.append(c + [c[0]])
            tours.append([c[0]] + c[:0:-1] + [c[0]])
    for root in range(0, n, 3) if n >= 6 else ():
        walk = [root]
        while len(walk) < n:
            nxt = sorted((v for v in a[walk[-1]] if v not in walk), key=lambda v: graphs.scramble(v, root, swap, 7))
            if not nxt:
                break
            walk.append(nxt[0])
        tours += [walk, walk + walk[-2::-1]]
        back = [i for i, v in enumerate(walk) if root in a[v] and i > 1]
        if back:
            tours.append(walk[:back[-1] + 1] + [root])
    for u, v in edges[:12]:  # walks there and back
        tours.append([u, v, u])
    tours.append([0])
    tours.append([])
    for i, tour in enumerate(tours):
        states += 1
        es = {tuple(sorted(p)) for p in zip(tour, tour[1:])}
        tr = tour_edges_trace([L[v] for v in tour], edf, vdf, color="blue", **kw) if i % 2 else tour_edges_trace([L[v] for v in tour], edf, vdf, **kw)
        if segments(tr) != want_of(es):
            return bad("the edges drawn for the tour %s are %s instead of %s" % (tour, sorted((segments(tr) or {}).items()), sorted(want_of(es).items())))
        if tr.line.color != ("blue" if i % 2 else "red") or "lines" not in tr.mode:
            return bad("the tour is drawn as %s in %s" % (tr.mode, tr.line.color))
    if not (edf.equals(before[0]) and vdf.equals(before[1]) and list(edf.index) == list(before[0].index)):
        return bad("drawing changes the data frames")
    return core.Case(outcome=(case[:2], len(tours)), nontrivial=bool(edges), states=states, transitions=len(edges), traces=1)


def gen(shard):
    def it():
        for n in range(1, 5 if core.THOROUGH else 4):
            m = len(graphs.pairs(n))
            for mask in range(1 << m):
                for kind in range(4):
                    for ni in range(3):
                        for rows in (0, 1):
                            for swap in (0, (1 << m) - 1, 5):
                                yield (n, mask, kind, ni, rows, swap)
        for n in (4, 5):
            m = len(graphs.pairs(n))
            for mask in range(1 << m):
                if n == 4 or core.THOROUGH or mask % 8 in (3, 7) and bin(mask).count("1") >= 4:
                    yield (n, mask, mask % 4, (mask // 4) % 3, mask // 8 % 2, (mask * 7) % (1 << m))
        for n in (8, 15, 31, 60) + ((120,) if core.THOROUGH else ()):
            for topo in range(graphs.TOPOLOGIES):
                for salt in range(6 if core.THOROUGH else 2):
                    h = n + topo + salt
                    yield (n, topo, h % 4, h % 3, h // 2 % 2, salt * 1023 + h)
    return core.pick(it(), shard)


def run(res):
    c_run.setup()
    import pctsp.plot  # noqa: F401
    core.py(res, "drawings", core.chunks(32), gen, run_case, 150, quiet=True)
