"""Statistics of the datasets, against definitions worked out by brute force."""
import itertools
import math
from pathlib import Path

import core
from checks import c_run, graphs, synth
from checks.c_lab import tmp
from checks.c_tab import command

COSTS = (
    [1] * 15,
    [1, 2, 4, 8, 16, 32, 64, 128, 256, 512, 1024, 2048, 4096, 8192, 16384],
    [5, 3, 9, 2, 14, 6, 1, 8, 4, 11, 7, 13, 10, 12, 15],
    [20, 1, 1, 1, 20, 1, 20, 1, 1, 2, 1, 1, 20, 3, 1],
)
PRIZES = ([0, 3, 5, 7, 11, 13, 2], [4, 1, 1, 1, 1, 1, 1], [100, 0, 9, 0, 2, 5, 50], [0, 0, 0, 9, 0, 0, 0])
LABELS = (lambda n: list(range(n)), lambda n: list(range(n, 0, -1)), lambda n: [5 * v + 2 for v in range(n)])


def metricness(vs, cost):
    """Share of the edges outside a tree that are no longer than every detour; None if there are none."""
    dist = {(u, v): 0 if u == v else math.inf for u in vs for v in vs}
    for (u, v), c in cost.items():
        if u != v:
            dist[u, v] = dist[v, u] = min(c, dist[u, v])
    for k in vs:
        for i in vs:
            for j in vs:
                dist[i, j] = min(dist[i, j], dist[i, k] + dist[k, j])
    es = [(e, c) for e, c in cost.items() if e[0] != e[1]]
    good = sum(c <= dist[e] for e, c in es)
    den = len(es) - len(vs) + 1
    return (good - len(vs) + 1) / den if den else None


def parts(vs, edges):
    left, out = set(vs), []
    a = {v: set() for v in vs}
    for u, v in edges:
        a[u].add(v)
        a[v].add(u)
    while left:
        comp, stack = set(), [next(iter(left))]
        while stack:
            x = stack.pop()
            if x not in comp:
                comp.add(x)
                stack.extend(a[x])
        out.append(comp)
        left -= comp
    return out


def restrict(cost, keep):
    return {e: c for e, c in cost.items() if e[0] in keep and e[1] in keep}


def expected(vs, cost, prize, root):
    """field -> set of the values it may have (several only where optimal pairs of paths or largest components tie), or None if undefined."""
    simple = {e: c for e, c in cost.items() if e[0] != e[1]}
    a = {v: set() for v in vs}
    for u, v in simple:
        a[u].add(v)
        a[v].add(u)
    best = {}
    for c in graphs.simple_cycles_through(a, root):
        val, pr = sum(graphs.ecost(simple, u, v) for u, v in graphs.cyc_edges(c)), sum(prize[v] for v in c)
        for v in c[1:]:
            if v not in best or val < best[v][0]:
                best[v] = (val, {pr})
            elif val == best[v][0]:
                best[v][1].add(pr)
    if not best or not sum(prize.values()):
        return None
    low = max(min(p) for _, p in best.values())
    prizes = {p for _, ps in best.values() for p in ps if p >= low}
    keep = set().union({root}, *graphs.simple_cycles_through(a, root))
    return fields(vs, cost, prize, simple, keep, prizes, max(c for c, _ in best.values()))


def fields(vs, cost, prize, simple, keep, prizes, dearest):
    comps = parts(vs, simple)
    big = max(map(len, comps))
    mets = {metricness(sorted(c), restrict(cost, c)) for c in comps if len(c) == big}
    sub = restrict(cost, keep)
    tot, sprize = sum(prize.values()), sum(prize[v] for v in keep)
    return dict(num_nodes={len(vs)}, num_edges={len(cost)}, total_cost={sum(cost.values())}, total_prize={tot}, metricness=mets, biggest_disjoint_prize=prizes,
                disjoint_prize_ratio={p / tot for p in prizes}, max_disjoint_paths_cost={dearest}, preprocessed_num_nodes={len(keep)},
                preprocessed_num_edges={len(sub)}, preprocessed_total_cost={sum(sub.values())}, preprocessed_total_prize={sprize},
                preprocessed_metricness={metricness(sorted(keep), sub)}, preprocessed_prize_ratio={sprize / tot})


def expected_large(n, cost, prize, root):
    """The same by flows: the prize is put behind the cost, once so that ties go to the least and once to the largest prize."""
    simple = {e: c for e, c in cost.items() if e[0] != e[1]}
    tot = sum(prize.values())
    big = 2 * tot + 1
    most, least = (graphs.cheapest_cycles(n, {(u, v): 2 * big * c + sign * (prize[u] + prize[v]) for (u, v), c in simple.items()}, root) for sign in (-1, 1))
    if not most or not tot:
        return None
    low, prizes = 0, []
    for v in most:
        c = -(-most[v] // (2 * big))
        if least[v] // (2 * big) != c:
            raise core.CheckError("the flows disagree")
        prizes.append(((2 * big * c - most[v]) // 2, (least[v] - 2 * big * c) // 2))
        low = max(low, prizes[-1][1])
    top = max(a for a, _ in prizes)
    if top != low:
        return None  # optimal pairs with different prizes tie
    return fields(range(n), cost, prize, simple, {root} | set(most), {low}, max(-(-x // (2 * big)) for x in most.values()))


def differs(row, want):
    if set(row) != set(want):
        return "the fields are %s" % sorted(row)
    for k, vals in want.items():
        if not any(abs(row[k] - x) < 1e-9 for x in vals):
            return "%s is %s instead of %s" % (k, row[k], " or ".join(map(str, sorted(vals))))
    if abs(row["disjoint_prize_ratio"] * row["total_prize"] - row["biggest_disjoint_prize"]) > 1e-6:
        return "the ratio %s is not the prize %s over the total %s" % (row["disjoint_prize_ratio"], row["biggest_disjoint_prize"], row["total_prize"])
    return None


def run_graph(case):
    n, mask, ci, pi, li, loops, root, rev = case
    L = LABELS[li](n)
    cost = {(u, v): COSTS[ci][i % 15] for i, (u, v) in enumerate(graphs.pairs(n)) if mask >> i & 1}
    cost.update({(v, v): 0 for v in range(n)} if loops else {})
    prize = dict(enumerate(PRIZES[pi][:n]))
    return check_graph(n, cost, prize, L, root, rev, expected(range(n), cost, prize, root))


def check_graph(n, cost, prize, L, root, rev, want):
    import networkx as nx
    from pctsp.apps.dataset_app import get_graph_stats
    if want is None or None in want["metricness"] | want["preprocessed_metricness"]:
        return core.Case(outcome="undefined", nontrivial=False)
    g = nx.Graph()
    for v in (range(n) if not rev else range(n - 1, -1, -1)):
        g.add_node(L[v], prize=prize[v])
    for (u, v), c in (cost.items() if not rev else list(cost.items())[::-1]):
        g.add_edge(*((L[v], L[u]) if rev else (L[u], L[v])), cost=c)
    before = dict(g.nodes(data=True)), sorted((*sorted((u, v)), d["cost"]) for u, v, d in g.edges(data=True))
    row = get_graph_stats(g, L[root])
    msg = differs(row, want)
    if msg:
        return core.Case("edges %s, prizes %s, root %d, labels %s: %s" % (cost, prize, root, L, msg), "statistics")
    if before != (dict(g.nodes(data=True)), sorted((*sorted((u, v)), d["cost"]) for u, v, d in g.edges(data=True))):
        return core.Case("edges %s: the graph is changed" % (cost,), "changed")
    return core.Case(outcome=tuple(sorted((k, round(v, 6)) for k, v in row.items())), states=1, transitions=len(want), traces=1)


def gen_graph(shard):
    def it():
        for n in (3, 4):
            for mask in range(1 << len(graphs.pairs(n))):
                for ci in range(4):
                    for pi in range(n):
                        for loops in (0, 1):
                            for root in range(n):
                                yield (n, mask, ci, pi, (mask + ci) % 3, loops, root, (mask + root) % 2)
        for mask in range(1 << 10):
            if bin(mask).count("1") >= 4:
                for ci in range(4):
                    for loops in (0, 1) if core.THOROUGH else (mask % 2,):
                        for root in range(5) if core.THOROUGH else (mask % 5,):
                            yield (5, mask, ci, mask % 3, (mask + ci) % 3, loops, root, mask // 2 % 2)
        step = 1 if core.THOROUGH else 37
        for mask in range(0, 1 << 15, step):
            if bin(mask).count("1") >= 6:
                yield (6, mask, 1 + mask % 3, mask % 3, mask % 3, mask // 4 % 2, mask % 6, mask // 2 % 2)
        # two components with cycles, with the root in the smaller or the larger one
        for a in ((0, 1, 2), (4, 5, 6), (1, 3, 5), (2, 3, 6)):
            b = [v for v in range(7) if v not in a]
            for sub in range(64):
                es = {e for i, e in enumerate(graphs.pairs(4)) if sub >> i & 1}
                es = {(b[u], b[v]) for u, v in es} | set(itertools.combinations(a, 2))
                mask = sum(1 << i for i, e in enumerate(graphs.pairs(7)) if e in es)
                for ci in range(4):
                    for root in (*a, b[0], b[3]) if core.THOROUGH else (a[sub % 3], b[sub % 4]):
                        yield (7, mask, ci, sub % 3, (sub + ci) % 3, sub // 2 % 2, root, sub % 2)
    return core.pick(it(), shard)


def run_large(case):
    n, topo, cp, salt, pi, loops, root, check = case
    cost = graphs.family(n, topo, cp, salt)
    cost.update({(v, v): 0 for v in range(n)} if loops else {})
    prize = {v: (1 + graphs.scramble(v, salt, 21) % 50, graphs.scramble(v, salt, 22) % 3 // 2 * 7, 1, (v == root) * 30 + v % 4)[pi] for v in range(n)}
    L = [(v, n - v, 5 * v + 2)[salt % 3] for v in range(n)]
    want = expected_large(n, cost, prize, root)
    if check and want is not None and expected(range(n), cost, prize, root) != want:
        raise core.CheckError("the two oracles disagree on %s" % (case,))
    return check_graph(n, cost, prize, L, root, n % 2, want)


def gen_large(shard):
    def it():
        for n in (7, 8, 11, 16, 24, 40) + ((60, 90) if core.THOROUGH else ()):
            for topo in range(graphs.TOPOLOGIES):
                for cp in (0, 1, 3):
                    for salt in range(9 if core.THOROUGH else 6):
                        h = graphs.scramble(n, topo, cp, salt)
                        yield (n, topo, cp, salt, h % 4, h // 4 % 2, (h // 8) % n, n == 7)
    return core.pick(it(), shard)


# ------------------------------------------------------------------ the command over a whole dataset
KAPPAS = ([2], [3], [2, 3], [3, 2], [4, 50])


def points(i, n):
    return [((a * 17 + i * 3) % 41, (a * a * 11 + i * 7) % 37) for a in range(n)]


def oracle_graph(path, kappa, mst):
    """The graph the row is about, by the tools of the dataset package (not part of the project)."""
    import networkx as nx
    import tspwplib as T
    problem = T.ProfitsProblem().load(path)
    tsp = T.BaseTSP.from_tsplib95(problem)
    g = tsp.get_graph()
    T.rename_edge_attributes(g, {"weight": "cost"}, del_old_attr=True)
    g = T.sparsify_uid(g, kappa)
    cost = {e: c for e, c in nx.get_edge_attributes(g, "cost").items()}
    if mst:
        cost = T.mst_cost(g, cost_attr="cost")
    return list(g.nodes()), cost, dict(problem.get_node_score()), tsp.depots[0]


def run_command(case):
    import pandas as pd
    from pctsp.apps import dataset_app as D
    from pctsp.vial import DatasetName
    ds, names, variant = case
    keep = {k: list(getattr(D.params, k)) for k in ("TSPLIB_GRAPH_NAME_LIST", "TSPLIB_KAPPA_LIST", "TSPLIB_COST_FUNCTIONS", "LONDONAQ_GRAPH_NAME_LIST")}
    from tspwplib import EdgeWeightType, Generation, GraphName, LondonaqGraphName
    with tmp() as t:
        d = Path(t)
        want = {}
        try:
            if ds == "tspwplib":
                kappas = KAPPAS[variant]
                costs = (["EUC_2D", "MST"], ["MST"], ["EUC_2D"], ["MST", "EUC_2D"])[(variant + len(names)) % 4]
                D.params.TSPLIB_GRAPH_NAME_LIST[:] = [GraphName[x] for x in names]
                D.params.TSPLIB_KAPPA_LIST[:] = kappas
                D.params.TSPLIB_COST_FUNCTIONS[:] = [EdgeWeightType[c] for c in costs]
                for i, x in enumerate(names):
                    for j, gen in enumerate(("gen1", "gen2", "gen3")):
                        n = 6 + (i + j + variant) % 3
                        p = synth.oplib(d, gen, x, points(i + 2 * j + variant, n), [0] + [(a * (3 + i) + j * 5) % 31 + 2 for a in range(1, n)])
                        for kappa in kappas:
                            for c in costs:
                                w = expected(*oracle_graph(p, kappa, c == "MST"))
                                if w is None or None in w["metricness"]:
                                    return core.Case(outcome="undefined", nontrivial=False)
                                want[x, gen, c, kappa] = w
            else:
                D.params.LONDONAQ_GRAPH_NAME_LIST[:] = [LondonaqGraphName[x] for x in names]
                for i, x in enumerate(names):
                    n = 4 + (i + variant) % 3
                    es = [e for k, e in enumerate(graphs.pairs(n)) if (k + variant) % 4 or e[0] == 0]
                    lab = [10 * i + v for v in range(n)]
                    cost = {(lab[u], lab[v]): COSTS[(i + variant) % 4][k] for k, (u, v) in enumerate(es)}
                    prize = {lab[v]: PRIZES[variant % 3][v] for v in range(n)}
                    root = lab[(i + variant) % n]
                    synth.londonaq(d, x, cost, prize, root)
                    w = expected(lab, cost, prize, root)
                    if w is None or None in w["metricness"]:
                        return core.Case(outcome="undefined", nontrivial=False)
                    want[x] = w
            root = "oplib_root" if ds == "tspwplib" else "londonaq_root"
            (d / "none").mkdir()
            df = D.stats_of_dataset(DatasetName[ds], **{"londonaq_root": d / "none", "oplib_root": d / "none", root: d})
            if variant % 2:
                path = d / ("tsplib_dataset.csv" if ds == "tspwplib" else "londonaq_dataset.csv")
                path.unlink(missing_ok=True)
                msg = command(True, None, (), ["dataset", "stats", ds], **{"LONDONAQ_ROOT": d / "none", "OPLIB_ROOT": d / "none", root.upper(): d})
                if msg:
                    return core.Case("the command fails: %s" % msg, "command")
            index = ["graph_name", "generation", "cost_function", "kappa"] if ds == "tspwplib" else ["graph_name"]
            csv = pd.read_csv(d / ("tsplib_dataset.csv" if ds == "tspwplib" else "londonaq_dataset.csv"))
            if list(df.index.names) != index:
                return core.Case("the rows are named by %s" % list(df.index.names), "rows")
            for what, frame in (("returned", df.reset_index()), ("written", csv)):
                rows = {}
                for r in frame.to_dict("records"):
                    key = tuple(r.pop(k) for k in index)
                    key = key if len(key) > 1 else key[0]
                    if key in rows:
                        return core.Case("the row %s is %s twice" % (key, what), "rows")
                    rows[key] = r
                if set(rows) != set(want):
                    return core.Case("rows %s are %s instead of %s" % (sorted(rows), what, sorted(want)), "rows")
                for key, r in rows.items():
                    msg = differs(r, want[key])
                    if msg:
                        return core.Case("in the row %s %s, %s" % (key, what, msg), "row")
        finally:
            for k, v in keep.items():
                getattr(D.params, k)[:] = v
    return core.Case(outcome=case, states=len(want), transitions=len(want), traces=1)


def gen_command(shard):
    def it():
        for variant in range(5):
            for k in (1, 2, 3) if core.THOROUGH else (1, 2):
                for names in itertools.permutations(("eil51", "st70", "rat195"), k):
                    yield ("tspwplib", names, variant)
        for variant in range(12):
            for k in (1, 2, 3):
                for names in itertools.permutations(("laqbbA", "laqidA", "laqkxA"), k):
                    yield ("londonaq", names, variant)
    return core.pick(it(), shard)


def run(res):
    c_run.setup()
    import pctsp.apps.main_app  # noqa: F401
    import pctsp.apps.dataset_app  # noqa: F401
    core.py(res, "graphs", core.chunks(32), gen_graph, run_graph, 250, quiet=True)
    core.py(res, "larger-graphs", core.chunks(64), gen_large, run_large, 250, quiet=True)
    core.py(res, "datasets", core.chunks(32), gen_command, run_command, 150, quiet=True)
