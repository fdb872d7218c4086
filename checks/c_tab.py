"""From the files of an experiment to CSV files, tables and figures: every number is the measured one, under its own name."""
import csv as csvlib
import itertools
import math
import uuid
from collections import defaultdict
from datetime import datetime, timedelta, timezone
from pathlib import Path

import core
from checks import c_run, graphs
from checks.c_lab import tmp

T0 = datetime(2021, 3, 4, 5, 6, 7)
NAN = float("nan")
BIG = 1e20
SHORT = {"bfs_extension_collapse": "BFS-EC", "bfs_path_extension_collapse": "BFS-PEC", "suurballes_extension_collapse": "SBL-EC", "suurballes_path_extension_collapse": "SBL-PEC",
         "suurballes_heuristic": "SBL", "solve_pctsp": "BC", "disjoint_tours_relaxation": "DTR", "extension": "Ex"}
LONG = {"bfs_extension_collapse": "BFS Extension and Collapse", "bfs_path_extension_collapse": "BFS Path Extension and Collapse",
        "suurballes_extension_collapse": "Suurballe's Extension and Collapse", "suurballes_path_extension_collapse": "Suurballe's Path Extension and Collapse",
        "suurballes_heuristic": "Suurballe's heuristic", "solve_pctsp": "PCTSP Branch and Cut", "disjoint_tours_relaxation": "Disjoint Tours Relaxation", "extension": "Extension"}
BRANCH = {0: "Relative branching", 1: "Strong branching", 2: "Strong at tree top", 4: "Default"}
EUC = {"EUC_2D": "EUC", "MST": "MST"}
STAT_FIELDS = ("status", "lower_bound", "upper_bound", "num_cost_cover_disjoint_paths", "num_cost_cover_shortest_paths", "nconss_presolve_disjoint_paths",
               "nconss_presolve_shortest_paths", "num_cycle_cover", "num_nodes", "num_sec_disjoint_tour", "num_sec_maxflow_mincut")
REC = []


class Style:
    """Stand-in for the styled output (the package that renders it is not installed): it records the table."""

    def __init__(self, df):
        self.df = df

    def format_index(self, *_a, **_k):
        return self
    format = format_index

    def to_latex(self, buf=None, **_k):
        REC.append(self.df.copy())
        if buf is not None:
            Path(buf).write_text("table", encoding="utf-8")
            return None
        return "table"


def setup():
    c_run.setup()
    import warnings
    import pandas as pd
    import pctsp.apps.csv_app  # noqa: F401
    import pctsp.apps.tables_app  # noqa: F401
    import pctsp.apps.main_app  # noqa: F401
    import pctsp.apps.plot_app  # noqa: F401
    warnings.simplefilter("ignore")

    def to_latex(self, buf=None, **_k):
        return Style(self).to_latex(buf)
    pd.DataFrame.style = property(Style)
    pd.DataFrame.to_latex = to_latex


def command(cli, fn, args, words, **env):
    """Call the function behind a command, or the command itself; error text or None."""
    if not cli:
        fn(*args)
        return None
    from checks import c_cli
    r = c_cli.invoke(words, {k: str(v) for k, v in env.items()})
    if r.exception is not None and not isinstance(r.exception, SystemExit):
        raise r.exception
    return c_cli.failed(r)


# ------------------------------------------------------------------ writing an experiment
class Run:
    """One vial with what was measured for it; result and stats may be None (absent) or "bad" (unreadable)."""

    def __init__(self, i, data, model, pre=0, result=None, stats=None):
        self.uuid = uuid.UUID(int=(i + 1) * 0x1234567890abcdef1234567)
        self.data, self.model, self.result, self.stats = data, model, result, stats
        self.pre = dict(zip(("disjoint_path_cutoff", "remove_leaves", "remove_disconnected_components", "remove_one_connected_components", "shortest_path_cutoff"), (bool(pre >> k & 1) for k in range(5))))


def result(objective, prize, secs, edges=((1, 2), (2, 3), (3, 1))):
    return dict(objective=objective, prize=prize, edge_list=[tuple(e) for e in edges], start_time=T0, end_time=T0 + timedelta(seconds=secs))


def write(lab_dir, ds, name, runs, order=1):
    import yaml
    from pctsp.constants import PCTSP_SUMMARY_STATS_YAML
    from pctsp.lab import Lab
    from pctsp.vial import Experiment, ExperimentName, Result, Vial
    (lab_dir / ds).mkdir(exist_ok=True, parents=True)
    lab = Lab(lab_dir / ds)
    vials = [Vial(uuid=r.uuid, data_config=dict(r.data, dataset=ds), model_params=r.model, preprocessing=r.pre) for r in runs]
    lab.write_experiment_to_file(Experiment(name=ExperimentName(name), vials=vials, timestamp=T0))
    for r in runs[::order]:
        d = lab.get_vial_dir(ExperimentName(name), r.uuid)
        if r.result == "bad":
            (d / ("%s.json" % r.uuid)).write_text('{"vial_uuid": "')
        elif r.result is not None:
            Result(vial_uuid=r.uuid, **r.result).write_to_json_file(d)
        if r.stats == "bad":
            (d / PCTSP_SUMMARY_STATS_YAML).write_text("status: [1, 2\nlower: }")
        elif r.stats is not None:
            (d / PCTSP_SUMMARY_STATS_YAML).write_text(yaml.dump(r.stats))
    return vials


def feasible(r):
    return r.result["prize"] >= r.data["quota"]


def row_of(r, ds, stats):
    from pctsp.vial import DataConfig, ModelParams
    row = {k: None for k in list(DataConfig.model_fields) + list(ModelParams.model_fields)}
    row.update(r.data, dataset=ds)
    row.update(r.model)
    row.update(r.pre)
    row.update(uuid=str(r.uuid), vial_uuid=str(r.uuid), prize=r.result["prize"], edge_list=r.result["edge_list"], start_time=r.result["start_time"], end_time=r.result["end_time"],
               duration=(r.result["end_time"] - r.result["start_time"]).total_seconds(), feasible=feasible(r),
               objective=r.result["objective"] if feasible(r) else None, overshoot=r.result["prize"] - r.data["quota"] if feasible(r) else None)
    if stats:
        row.update(r.stats)
    return row


def equal(text, v):
    if v is None:
        return text == ""
    if isinstance(v, bool):
        return text == str(v)
    if isinstance(v, (int, float)):
        try:
            return abs(float(text) - v) <= 1e-9 * max(1, abs(v))
        except ValueError:
            return False
    if isinstance(v, datetime):
        return datetime.fromisoformat(text).replace(tzinfo=None) == v
    return text == str(v)


def csv_error(path, runs, ds, stats):
    want = {str(r.uuid): row_of(r, ds, stats) for r in runs if r.result not in (None, "bad") and (not stats or r.stats not in (None, "bad"))}
    if not path.exists():
        return "no file %s is written" % path.name
    with open(path, newline="", encoding="utf-8") as fh:
        rows = list(csvlib.DictReader(fh))
    if sorted(r["uuid"] for r in rows) != sorted(want):
        return "the runs %s are written instead of %s" % (sorted(r["uuid"] for r in rows), sorted(want))
    for r in rows:
        w = want[r["uuid"]]
        r.pop("", None)
        if set(r) != set(w):
            return "the columns differ: %s" % sorted(set(r) ^ set(w))
        for k, v in w.items():
            if not equal(r[k], v):
                return "%s of the run %s is %r instead of %r" % (k, r["uuid"], r[k], v)
    return None


# ------------------------------------------------------------------ CSV files
RES = ("none", "bad", "short", "met", "over")
STATS = ("none", "bad", "ok")


def data_of(i, ds, quota):
    if ds == "tspwplib":
        return dict(cost_function=("EUC_2D", "MST", "SEMI_MST")[i % 3], graph_name=("eil51", "st70", "rat195")[i % 3], quota=quota, root=1 + i, alpha=(5, 50, None)[i % 3],
                    generation="gen%d" % (1 + i % 3), kappa=(5, None, 25)[i % 3])
    return dict(cost_function=("EUC_2D", "MST")[i % 2], graph_name=("laqkxA", "laqbbA", "laqtinyA")[i % 3], quota=quota, root=i, alpha=(None, 10)[i % 2])


def exact_model(i):
    return dict(algorithm="solve_pctsp", is_exact=True, is_heuristic=False, is_relaxation=False, branching_strategy=(0, 1, 2, 4)[i % 4], branching_max_depth=(-1, 10, 1)[i % 3],
                cost_cover_disjoint_paths=bool(i & 1), cost_cover_shortest_path=bool(i & 2), heuristic=(None, "bfs_extension_collapse")[i % 2], sec_disjoint_tour=not i & 1,
                sec_lp_gap_improvement_threshold=(0.01, 0.1, 0.25)[i % 3], sec_maxflow_mincut=bool(i % 3), sec_max_tailing_off_iterations=(-1, 5, 10)[i % 3], sec_sepafreq=(1, 5)[i % 2],
                time_limit=(3600.0, None)[i % 2])


def heur_model(i):
    algs = list(SHORT)
    return dict(algorithm=algs[i % 5], is_exact=False, is_heuristic=True, is_relaxation=False, collapse_paths=(True, False, None)[i % 3], path_depth_limit=(2, None)[i % 2], step_size=(1, 10, None)[i % 3])


def stats_of(i):
    vals = (11, 90.5 + i, 100.25 + i) + tuple(3 * i + 7 * k + 1 for k in range(8))
    return dict(zip(STAT_FIELDS, vals))


def make_run(i, ds, kind, state):
    quota = 50 + 7 * i
    r, s = state
    res = {"none": None, "bad": "bad", "short": result(0 if i % 2 else 400 + i, (0, quota - 1)[i % 2], 0.5 * i + 0.25, ()), "met": result(500 + 3 * i, quota, 1.5 + i + 90000 * (i % 5 == 2)),
           "over": result(700 + i + (i % 4 == 3) * 2 ** 33, quota + 5 + i, 100 + i)}[r]
    st = {"none": None, "bad": "bad", "ok": stats_of(i)}[s]
    return Run(i, data_of(i, ds, quota), exact_model(i) if kind == "exact" else heur_model(i), (11 * i + 5) % 32, res, st)


def run_csv(case):
    from pctsp.apps import csv_app as A
    from pctsp.vial import DatasetName, ExperimentName
    ds, kind, name, states, shift, order = case
    with tmp() as t:
        d = Path(t)
        runs = [make_run(i + shift, ds, kind, s) for i, s in enumerate(states)]
        write(d, ds, name, runs, order)
        msg = command(order < 0, A.write_branch_cut_experiment_to_csv if kind == "exact" else A.write_heuristics_experiment_to_csv, (DatasetName(ds), ExperimentName(name), d),
                      ["csv", "branch-cut" if kind == "exact" else "heuristics", ds, name], LAB_DIR=d)
        msg = msg or csv_error(d / ds / name / ("%s_%s.csv" % (ds, name)), runs, ds, kind == "exact")
        if msg:
            return core.Case("runs %s of %s: %s" % (states, ds, msg), "csv")
    return core.Case(outcome=(states, shift, ds, kind), nontrivial=any(r in ("short", "met", "over") for r, _ in states), states=len(states), transitions=1, traces=1)


def gen_csv(shard):
    def it():
        both = list(itertools.product(RES, STATS))
        for ds in ("tspwplib", "londonaq"):
            for shift in range(4):
                for s in both:
                    yield (ds, "exact", "cost_cover", (s,), shift, 1)
                for r in RES:
                    yield (ds, "heur", "compare_heuristics", ((r, "none"),), shift, 1)
            for k, p in enumerate(itertools.product(both, repeat=2)):
                yield (ds, "exact", ("tailing_off", "cost_cover")[k % 2], p, k % 5, -1 if k % 3 else 1)
            for k, p in enumerate(itertools.product(RES, repeat=3)):
                yield (ds, "heur", ("compare_heuristics", "londonaq_alpha")[k % 2], tuple((r, "none") for r in p), k % 7, -1 if k % 3 else 1)
            for k, p in enumerate(itertools.product(both, repeat=3)):
                if core.THOROUGH or k % 31 == 3:
                    yield (ds, "exact", "cost_cover", p, k % 11, -1 if k % 2 else 1)
            for n in (7, 20, 60) + ((200,) if core.THOROUGH else ()):
                for salt in range(6):
                    st = tuple(both[graphs.scramble(i, salt, n) % len(both)] for i in range(n))
                    yield (ds, "exact", ("tailing_off", "cost_cover")[salt % 2], st, salt, -1 if salt % 2 else 1)
                    yield (ds, "heur", "compare_heuristics", tuple((r, "none") for r, _ in st), salt, -1 if salt % 2 else 1)
    return core.pick(it(), shard)


ALL = [(ds, kind, name) for ds in ("londonaq", "tspwplib") for kind, name in (("exact", "cost_cover"), ("exact", "tailing_off"), ("heur", "compare_heuristics"))]


def run_all(case):
    from pctsp.apps import csv_app as A
    mask, salt = case
    with tmp() as t:
        d = Path(t)
        made = {}
        for i, (ds, kind, name) in enumerate(ALL):
            if mask >> i & 1:
                runs = [make_run(j + i, ds, kind, (RES[(2 + j + salt + i) % 5], STATS[(2 + j * salt) % 3])) for j in range(1 + (i + salt) % 3)]
                write(d, ds, name, runs)
                made[ds, kind, name] = runs
        msg = command(salt % 2, A.write_all_experiments_to_csv, (d,), ["csv", "all"], LAB_DIR=d)
        if msg:
            return core.Case("experiments %s: %s" % (sorted(made), msg), "csv-all")
        found = {str(p.relative_to(d)) for p in d.rglob("*.csv")}
        if found != {"%s/%s/%s_%s.csv" % (ds, name, ds, name) for ds, _, name in made}:
            return core.Case("experiments %s give the files %s" % (sorted(made), sorted(found)), "csv-all")
        for (ds, kind, name), runs in made.items():
            msg = csv_error(d / ds / name / ("%s_%s.csv" % (ds, name)), runs, ds, kind == "exact")
            if msg:
                return core.Case("with the experiments %s, %s %s: %s" % (sorted(made), ds, name, msg), "csv-all")
    return core.Case(outcome=case, nontrivial=bool(mask), states=len(made), transitions=1, traces=1)


# ------------------------------------------------------------------ tables
def mean(xs):
    xs = [x for x in xs if not math.isnan(x)]
    return sum(xs) / len(xs) if xs else NAN


def same(a, b):
    if isinstance(b, str) or isinstance(a, str):
        return str(a) == str(b)
    a, b = float(a), float(b)
    return math.isnan(a) and math.isnan(b) or abs(a - b) <= 1e-9 * max(1.0, abs(b))


def key_of(x):
    return x if isinstance(x, str) else (round(float(x), 9))


def table_error(df, want, index_names=None):
    """want: (row label tuple, column label tuple) -> value; combinations that were not measured are empty."""
    got = {}
    for row, vals in zip(df.index, df.to_numpy().tolist()):
        for col, v in zip(df.columns, vals):
            r = row if isinstance(row, tuple) else (row,)
            c = col if isinstance(col, tuple) else (col,)
            k = tuple(key_of(getattr(x, "value", x)) for x in r), tuple(str(getattr(x, "value", x)) for x in c)
            if k in got:
                return "%s is there twice" % (k,)
            got[k] = v
    want = {(tuple(key_of(x) for x in r), c): v for (r, c), v in want.items()}
    if index_names is not None and list(df.index.names) != list(index_names):
        return "the rows are named %s instead of %s" % (list(df.index.names), list(index_names))
    for k in set(want) - set(got):
        return "%s is missing; the table has %s" % (k, sorted(map(str, got))[:12])
    for k, v in got.items():
        if k not in want:
            if not (isinstance(v, float) and math.isnan(v)):
                return "%s is %s and was never measured" % (k, v)
        elif not same(v, want[k]):
            return "%s is %s instead of %s" % (k, v, want[k])
    return None


# exact runs: (disjoint paths, shortest paths) -> measured (status, lower, upper, prize over quota, seconds, salt)
OUTCOMES = ((11, 100.0, 100.0, 0), (11, 80.0, 80.0, 3), (5, 75.0, 125.0, 1), (12, BIG, BIG, -1), (5, 60.0, BIG, -1), (5, 40.0, 90.0, 2), (5, 10000.0, 10001.0, 0), (5, 3.0e9, 4.5e9, 0), (5, 90.0, 90.0, 1))
COVERS = ((True, False), (False, True), (False, False))


def inst(ds, i, alpha=None):
    if i >= 8:  # the same instance from another root
        return dict(inst(ds, i - 8, alpha), root=9)
    if ds == "tspwplib":
        names = ("eil51", "st70")
        return dict(cost_function=("EUC_2D", "MST")[i % 2], graph_name=names[i // 2 % 2], quota=(30, 60)[i // 4 % 2], root=1, alpha=(5, 50)[i // 4 % 2], generation="gen%d" % (1 + i % 3), kappa=(5, 10)[i // 2 % 2])
    return dict(cost_function="EUC_2D", graph_name=("laqkxA", "laqbbA", "laqtinyA", "laqidA")[i % 4], quota=(1000, 2000)[i // 2 % 2], root=i % 2, alpha=alpha if alpha else (25, 50)[i % 2])


def exact_run(i, data, cover, o, salt, **model):
    status, lo, hi, over = OUTCOMES[o]
    counts = tuple((salt * (k + 3) + 5 * k + i) % 23 for k in range(4)) + (7, 1 + (salt + i) % 4, (salt * 3 + i) % 11, (salt * 5 + 2 * i) % 13)
    r = result(int(hi) if hi < BIG else 0, data["quota"] + over if over >= 0 else 0, 2.5 + (salt * 7 + i) % 17)
    m = dict(exact_model(i), cost_cover_disjoint_paths=cover[0], cost_cover_shortest_path=cover[1])
    m.update(model)
    return Run(i, data, m, i % 32, r, dict(zip(STAT_FIELDS, (status, lo, hi) + counts)))


def bounds(r):
    return tuple(NAN if r.stats[k] == BIG else r.stats[k] for k in ("lower_bound", "upper_bound"))


def gap_of(r):
    if r.stats["status"] == 12:
        return NAN
    lo, hi = bounds(r)
    return (hi - lo) / lo


def secs(r):
    return (r.result["end_time"] - r.result["start_time"]).total_seconds()


def tables(fn):
    """The tables written by fn."""
    del REC[:]
    fn()
    return list(REC)


CC = {(True, False): "Cost cover disjoint paths", (False, True): "Cost cover shortest paths", (False, False): "No cost cover"}


def run_cover(case):
    from pctsp.apps import csv_app as A, tables_app as B
    from pctsp.vial import DatasetName, ExperimentName
    ds, name, insts, outs, salt = case
    with tmp() as t:
        d = Path(t)
        runs = []
        for a, i in enumerate(insts):
            for b, cover in enumerate(COVERS):
                runs.append(exact_run(len(runs), inst(ds, i), cover, outs[a * 3 + b], salt + a))
        if ds == "tspwplib":  # another cost function is not part of the table
            runs.append(exact_run(len(runs), dict(inst(ds, 0), cost_function="SEMI_MST"), COVERS[0], 2, salt))
        write(d, ds, name, runs)
        A.write_branch_cut_experiment_to_csv(DatasetName(ds), ExperimentName(name), d)
        got = tables(lambda: command(salt % 2, B.cost_cover_table, (DatasetName(ds), d / "tables", d, ExperimentName(name)),
                                     ["tables", "cost-cover", ds, d / "tables"] + (["--experiment-name", name] if name != "cost_cover" else []), LAB_DIR=d))
        if len(got) != 1 or not (d / "tables" / ("%s_%s.tex" % (ds, name))).exists():
            return core.Case("%d tables are written" % len(got), "table")
        groups = defaultdict(list)
        for r in runs:
            c = r.data["cost_function"]
            if c == "SEMI_MST" or r.data["graph_name"] == "laqtinyA":
                continue
            row = (EUC[c], r.data["alpha"] / 100) if ds == "tspwplib" else (r.data["alpha"],) if name == "cc_londonaq_alpha" else (r.data["quota"],)
            groups[row, CC[r.model["cost_cover_disjoint_paths"], r.model["cost_cover_shortest_path"]]].append(r)
        want = {}
        for (row, cc), rs in groups.items():
            vals = {r"$\overline{\text{GAP}}$": mean([gap_of(r) for r in rs])}
            if name == "cost_cover":
                vals.update({r"$\overline{\text{TIME}}$ (s)": mean([secs(r) for r in rs]), "OPT": sum(gap_of(r) == 0 and r.stats["status"] == 11 for r in rs),
                             r"$\overline{\text{PRE-CUTS}}$": mean([r.stats["nconss_presolve_disjoint_paths"] for r in rs]) + mean([r.stats["nconss_presolve_shortest_paths"] for r in rs])})
            else:
                vals.update({r"$\overline{\text{LB}}$": mean([bounds(r)[0] for r in rs]), r"$\overline{\text{UB}}$": mean([bounds(r)[1] for r in rs]), "FEAS": sum(feasible(r) for r in rs)})
            want.update({(row, (cc, k)): v for k, v in vals.items()})
        msg = table_error(got[0], want, ["Cost function", r"$\alpha$"] if ds == "tspwplib" else [r"$\alpha$" if name == "cc_londonaq_alpha" else "Quota"])
        if msg:
            return core.Case("cost cover table of %s, instances %s, outcomes %s: %s" % (ds, insts, outs, msg), "table")
    return core.Case(outcome=case, states=len(groups), transitions=len(want), traces=1)


def gen_cover(shard):
    def it():
        k = 0
        for ds, name in (("tspwplib", "cost_cover"), ("londonaq", "cost_cover"), ("londonaq", "cc_londonaq_alpha")):
            sets = [c for r in (1, 2, 3) for c in itertools.combinations(range(6), r) if not (ds == "londonaq" and set(c) <= {2})]
            for outs in itertools.product(range(7), repeat=3):
                yield (ds, name, (0,), outs, k % 5)
                k += 1
            for s in sets:
                for z in range(12 if core.THOROUGH else 4):
                    k += 1
                    yield (ds, name, s, tuple((k * 5 + j * j * 3 + j * z) % 9 for j in range(3 * len(s))), k % 7)
    return core.pick(it(), shard)


def run_tailing(case):
    from pctsp.apps import csv_app as A, tables_app as B
    from pctsp.vial import DatasetName, ExperimentName
    ds, cfg, outs, salt = case
    with tmp() as t:
        d = Path(t)
        runs = []
        for a, (depth, strat, gamma, tau) in enumerate(cfg):
            for b in range(1 + (salt + a) % 2):
                runs.append(exact_run(len(runs), inst(ds, b + salt), COVERS[0], outs[(a + b) % len(outs)], salt + a + b, branching_max_depth=depth, branching_strategy=strat,
                                      sec_lp_gap_improvement_threshold=gamma, sec_max_tailing_off_iterations=tau))
        write(d, ds, "tailing_off", runs)
        A.write_branch_cut_experiment_to_csv(DatasetName(ds), ExperimentName("tailing_off"), d)
        got = tables(lambda: command(salt % 2, B.tailing_off_table, (DatasetName(ds), d / "tables", d), ["tables", "tailing-off", ds, d / "tables"], LAB_DIR=d))
        if len(got) != 1 or not (d / "tables" / ("%s_tailing_off.tex" % ds)).exists():
            return core.Case("%d tables are written" % len(got), "table")
        groups = defaultdict(list)
        for r in runs:
            groups[r.model["branching_max_depth"], BRANCH[r.model["branching_strategy"]], r.model["sec_lp_gap_improvement_threshold"], r.model["sec_max_tailing_off_iterations"]].append(r)
        want = {}
        for row, rs in groups.items():
            gaps = [(r.stats["upper_bound"] - r.stats["lower_bound"]) / r.stats["lower_bound"] for r in rs]
            vals = {r"$\overline{\text{TIME}}$ (s)": mean([secs(r) for r in rs]), r"$\overline{\text{GAP}}$": mean(gaps), "OPT": sum(g == 0 for g in gaps), "FEAS": sum(feasible(r) for r in rs),
                    r"$\mu (NODES)$": mean([r.stats["num_nodes"] for r in rs]),
                    r"$\mu (SEC)$": mean([(r.stats["num_sec_disjoint_tour"] + r.stats["num_sec_maxflow_mincut"]) / r.stats["num_nodes"] for r in rs])}
            want.update({(row, (k,)): v for k, v in vals.items()})
        msg = table_error(got[0], want, [r"$\Delta$", "Branching strategy", r"$\gamma$", r"$\tau$"])
        if msg:
            return core.Case("tailing off table of %s, settings %s, outcomes %s: %s" % (ds, cfg, outs, msg), "table")
    return core.Case(outcome=case, states=len(groups), transitions=len(want), traces=1)


def gen_tailing(shard):
    def it():
        cfgs = list(itertools.product((1, 10), (0, 1, 2, 4), (0.01, 0.1), (5, 20)))
        k = 0
        for ds in ("tspwplib", "londonaq"):
            for c in cfgs:
                k += 1
                yield (ds, (c,), (k % 7, k // 6 % 7), k % 4)
            for i, (a, b) in enumerate(itertools.combinations(cfgs, 2)):
                if core.THOROUGH or i % 7 == 2:
                    k += 1
                    yield (ds, (a, b, cfgs[k % 32]), (k % 7, k // 6 % 7, k // 36 % 7), k % 4)
    # outcomes without bounds belong to infeasible or interrupted runs, whose gap this table does not define
    return core.pick((c for c in it() if 3 not in c[2] and 4 not in c[2]), shard)


HALGS = ("bfs_extension_collapse", "bfs_path_extension_collapse", "suurballes_extension_collapse", "suurballes_path_extension_collapse")
# heuristic outcome relative to the lower bound of the exact runs
HOUT = ("infeasible", "optimal", "worse", "equal-quota")  # with the large bounds of the last outcome, "worse" is all but optimal


def heuristic_runs(ds, insts, houts, salt, eouts=(0,), again=False):
    out = []
    for a, i in enumerate(insts):
        data = inst(ds, i)
        for b, alg in enumerate(HALGS):
            h = HOUT[houts[(a * len(HALGS) + b) % len(houts)]]
            obj = {"infeasible": 70, "optimal": 100, "worse": 110 + salt + b, "equal-quota": 120 + a}[h]
            if eouts[a % len(eouts)] == 6:
                obj = 10001 if h == "worse" else obj * 100
            if eouts[a % len(eouts)] == 7:
                obj *= 30000000
            prize = {"infeasible": data["quota"] - 1, "optimal": data["quota"] + 4, "worse": data["quota"] + 1, "equal-quota": data["quota"]}[h]
            m = dict(algorithm=alg, is_exact=False, is_heuristic=True, is_relaxation=False, collapse_paths=(True, False)[b % 2], path_depth_limit=(2, 3)[b // 2], step_size=1 + b)
            out.append(Run(100 + len(out), data, m, 3, result(obj, prize, 0.125 + (salt * 3 + 5 * b + a) % 9)))
            if again and (a + b + salt) % 2 == 0:  # the same heuristic with one setting changed is another run
                k = ("collapse_paths", "path_depth_limit", "step_size")[(salt + a + b) // 2 % 3]
                out.append(Run(100 + len(out), data, dict(m, **{k: not m[k] if k == "collapse_paths" else m[k] + 3}), 3, result(obj + 10, prize, 0.5 + b)))
    return out


def exact_runs(ds, insts, eouts, salt):
    out = []
    for a, i in enumerate(insts):
        e = eouts[a % len(eouts)]
        if e < 0:
            continue
        order = COVERS if (salt + a) % 2 else COVERS[::-1]
        for b, cover in enumerate(order):  # the bound is that of the run with covers by disjoint paths
            out.append(exact_run(len(out), inst(ds, i), cover, e if cover[0] else (0, 1, 5)[(b + salt) % 3], salt + a))
        if (salt + a) % 3 == 0:  # the same instance solved again with both covers: the heuristics are still counted once
            out.append(exact_run(len(out), inst(ds, i), (True, True), e, salt + a))
    return out


def pkey(r, ds):
    d = r.data
    return (ds, d["graph_name"], d["quota"], d["root"]) + ((d["generation"], d["kappa"], d["cost_function"]) if ds == "tspwplib" else ())


def expected_heuristics(ds, hs, es):
    lows = {}
    for e in es:
        if e.model["cost_cover_disjoint_paths"]:
            lows.setdefault(pkey(e, ds), (e.stats["lower_bound"], e.stats["upper_bound"]))
    rows = []
    for h in hs:
        lo, hi = lows.get(pkey(h, ds), (NAN, NAN))
        obj = float(h.result["objective"]) if feasible(h) else NAN
        rows.append(dict(run=h, objective=obj, lower_bound=lo, upper_bound=hi, gap=(obj - lo) / lo))
    return rows


def run_heuristics(case):
    from pctsp.apps import csv_app as A, tables_app as B
    from pctsp.vial import DatasetName, ExperimentName
    ds, name, insts, houts, eouts, salt = case
    with tmp() as t:
        d = Path(t)
        hs, es = heuristic_runs(ds, insts, houts, salt, eouts, True), exact_runs(ds, insts, eouts, salt)
        write(d, ds, name, hs, -1 if salt % 2 else 1)
        write(d, ds, "cost_cover", es)
        A.write_heuristics_experiment_to_csv(DatasetName(ds), ExperimentName(name), d)
        A.write_branch_cut_experiment_to_csv(DatasetName(ds), ExperimentName("cost_cover"), d)
        want = expected_heuristics(ds, hs, es)
        df = B.get_heuristics_df(DatasetName(ds), d, heuristic_experiment_name=ExperimentName(name))
        rows = {str(r["uuid"]): r for r in df.reset_index().to_dict("records")}
        if len(df) != len(want) or set(rows) != {str(w["run"].uuid) for w in want}:
            return core.Case("%d heuristic runs give %d rows" % (len(want), len(df)), "rows")
        for w in want:
            r = rows[str(w["run"].uuid)]
            for k in ("objective", "lower_bound", "upper_bound", "gap"):
                if not same(r[k], w[k]):
                    return core.Case("%s: %s of %s on %s is %s instead of %s" % (case, k, w["run"].model["algorithm"], pkey(w["run"], ds), r[k], w[k]), "gap")
            if bool(r["is_optimal"]) != (w["gap"] == 0) or r["algorithm"] != w["run"].model["algorithm"]:
                return core.Case("%s: %s on %s is optimal: %s" % (case, r["algorithm"], pkey(w["run"], ds), r["is_optimal"]), "gap")
        states = len(want)
        for only in (False, True):
            groups = defaultdict(list)
            for w in want:
                h = w["run"]
                if (h.model["algorithm"] == HALGS[2]) != only or h.data["graph_name"] == "laqtinyA":
                    continue
                row = (EUC[h.data["cost_function"]], h.data["kappa"]) if ds == "tspwplib" else (h.data["alpha"],) if name == "londonaq_alpha" else (h.data["quota"],)
                groups[row, SHORT[h.model["algorithm"]]].append(w)
            tab = {}
            for (row, alg), ws in groups.items():
                vals = {"OPT": sum(w["gap"] == 0 for w in ws), "FEAS": sum(feasible(w["run"]) for w in ws), r"$\overline{\text{GAP}}$": mean([w["gap"] for w in ws]),
                        r"$\overline{\text{TIME}}$ (s)": mean([secs(w["run"]) for w in ws])}
                tab.update({(row, (alg, k)): v for k, v in vals.items()})
            if not tab:
                continue
            (d / "tables").mkdir(exist_ok=True)
            got = tables(lambda: command(salt % 2, B.heuristics_table, (DatasetName(ds), ExperimentName(name), d / "tables", d, ExperimentName.cost_cover, only),
                                         ["tables", "heuristics", ds, name, d / "tables"] + (["--sbl-ec-only"] if only else []), LAB_DIR=d))
            if len(got) != 1:
                return core.Case("%d tables are made" % len(got), "table")
            msg = table_error(got[0], tab)
            if msg:
                return core.Case("%s, heuristics table%s: %s" % (case, " of one algorithm" if only else "", msg), "table")
            states += len(groups)
    return core.Case(outcome=case, states=states, transitions=len(want), traces=1)


def gen_heuristics(shard):
    def it():
        k = 0
        for ds, name in (("tspwplib", "compare_heuristics"), ("londonaq", "compare_heuristics"), ("londonaq", "londonaq_alpha")):
            for houts in itertools.product(range(4), repeat=4):
                k += 1
                if core.THOROUGH or k % 3 == 0:
                    yield (ds, name, (k % 2,), houts, ((0,), (2,), (-1,), (5,), (6,))[k % 5], k % 5)
            for r in (2, 3):
                for s in itertools.combinations(range(8), r):
                    k += 1
                    yield (ds, name, s, tuple((k * 3 + j * j + j * (k % 7)) % 4 for j in range(4 * r)), ((0, 2, -1), (1, 0, 5), (2, 6, 1), (5, -1, 0), (6, 0, 2))[k % 5], k % 6)
            for i in range(8):
                for r in range(9):
                    k += 1
                    yield (ds, name, (i, i + 8, (i + 3) % 8)[::1 if r % 2 else -1], tuple((k * 3 + j * j + j * r) % 4 for j in range(12)), ((0, 5, 2), (7, 0, 1), (-1, 0, 8), (1, 5, 6))[k % 4], k % 6)
    def ok(c):
        keys = [repr(sorted((x, y) for x, y in inst(c[0], i).items() if x != "alpha")) for i in c[2]]
        return len(set(keys)) == len(keys) and any(inst(c[0], i)["graph_name"] != "laqtinyA" for i in c[2]) and any(e >= 0 for e in c[4][:len(c[2])])
    return core.pick(filter(ok, it()), shard)


# ------------------------------------------------------------------ the figure of the heuristics
def run_figure(case):
    import plotly.graph_objects as go
    from pctsp.apps import csv_app as A, plot_app as P
    from pctsp.vial import DatasetName, ExperimentName
    insts, houts, salt = case
    figs = []
    keep = go.Figure.write_image
    go.Figure.write_image = lambda self, path, *a, **k: figs.append((str(path), self))
    try:
        with tmp() as t:
            d = Path(t)
            all_hs = {}
            for ds in ("tspwplib", "londonaq"):
                hs, es = heuristic_runs(ds, insts if ds == "tspwplib" else (0,), houts, salt), exact_runs(ds, insts if ds == "tspwplib" else (0,), (0, 2, 5), salt)
                write(d, ds, "compare_heuristics", hs)
                write(d, ds, "cost_cover", es)
                A.write_heuristics_experiment_to_csv(DatasetName(ds), ExperimentName("compare_heuristics"), d)
                A.write_branch_cut_experiment_to_csv(DatasetName(ds), ExperimentName("cost_cover"), d)
                all_hs[ds] = expected_heuristics(ds, hs, es)
            msg = command(salt % 2, P.plot_heuristics_figure, (d / "figures", d), ["plot", "heuristics", d / "figures"], LAB_DIR=d)
            if msg:
                return core.Case("instances %s: %s" % (insts, msg), "figure")
            want = all_hs["tspwplib"]
            if len(figs) != 2:
                return core.Case("%d figures are drawn" % len(figs), "figure")
            for cost, (path, fig) in zip(("EUC_2D", "MST"), figs):
                if cost not in path or not path.startswith(str(d / "figures")):
                    return core.Case("the figure of %s is written to %s" % (cost, path), "figure")
                got = defaultdict(list)
                for tr in fig.data:
                    for x, y in zip(tr.x, tr.y):
                        got[tr.yaxis or "y", str(x), str(getattr(tr.name, "value", tr.name))].append("nan" if math.isnan(y) else round(float(y), 9))
                exp = defaultdict(list)
                for w in want:
                    h = w["run"]
                    if h.data["cost_function"] == cost:
                        for ax in ("y", "y2"):
                            exp[ax, str(h.data["kappa"]), SHORT[h.model["algorithm"]]].append("nan" if math.isnan(w["gap"]) else round(w["gap"], 9))
                got, exp = ({k: sorted(map(str, v)) for k, v in x.items()} for x in (got, exp))
                if got != exp:
                    return core.Case("instances %s, figure of %s: %s instead of %s" % (insts, cost, got, exp), "figure")
    finally:
        go.Figure.write_image = keep
    return core.Case(outcome=case, states=len(want), transitions=2, traces=1)


def gen_figure(shard):
    def it():
        k = 0
        for r in (1, 2, 3, 4):
            for s in itertools.combinations(range(8), r):
                k += 1
                if r < 3 or core.THOROUGH or k % 5 == 0:
                    yield (s, tuple((k + j * j + 2 * j * (k % 3)) % 4 for j in range(4 * r)), k % 6)
    return core.pick(it(), shard)


# ------------------------------------------------------------------ pretty tables of any shape
PCOLS = ("algorithm", "cost_function", "branching_strategy", "num_nodes", "quota", "custom")
PVAL = {"algorithm": tuple(SHORT), "cost_function": ("EUC_2D", "MST", "GEO"), "branching_strategy": (0, 1, 2, 4), "num_nodes": (0, 1, 2, 4, 3), "quota": (4, 2, 1, 0), "custom": (1.0, 2.5, 0.0, 4.0)}
PNAME = {"algorithm": "Algorithm", "cost_function": "Cost function", "branching_strategy": "Branching strategy", "num_nodes": "$|V(G)|$", "quota": "Quota", "custom": "custom"}


def pretty_value(c, v, long):
    if c == "algorithm":
        return (LONG if long else SHORT)[v]
    return EUC.get(v, v) if c == "cost_function" else BRANCH[v] if c == "branching_strategy" else v


def run_pretty(case):
    import pandas as pd
    from pctsp.apps.tables_app import pretty_dataframe
    cols, index, nrows, salt, long = case
    val = {c: [PVAL[c][(r * (salt + 1) + salt + i) % len(PVAL[c])] for r in range(nrows)] for i, c in enumerate(PCOLS)}
    df = pd.DataFrame({c: val[c] for c in cols + index})
    if index:
        df = df.set_index(list(index))
    before = df.copy(deep=True)
    got = pretty_dataframe(df.copy(), long) if long else pretty_dataframe(df.copy())
    if list(got.columns) != [PNAME[c] for c in cols] or index and list(got.index.names) != [PNAME[c] for c in index]:
        return core.Case("columns %s and rows %s are named %s and %s" % (cols, index, list(got.columns), list(got.index.names)), "names")
    for c in cols:
        want = [pretty_value(c, v, long) for v in val[c]]
        if [str(x) if isinstance(x, str) else x for x in got[PNAME[c]].tolist()] != want:
            return core.Case("columns %s, rows %s: the values of %s, %s, become %s" % (cols, index, c, val[c], got[PNAME[c]].tolist()), "values")
    for c in index:
        want = [pretty_value(c, v, long) for v in val[c]]
        if got.index.get_level_values(PNAME[c]).tolist() != want:
            return core.Case("columns %s, rows %s: the labels %s of %s become %s" % (cols, index, val[c], c, got.index.get_level_values(PNAME[c]).tolist()), "values")
    if not before.equals(df):
        return core.Case("the table given is changed", "changed")
    return core.Case(outcome=case, states=nrows, transitions=len(cols) + len(index), traces=1)


def gen_pretty(shard):
    def it():
        for k in range(len(PCOLS) + 1):
            for cols in itertools.combinations(PCOLS, k):
                rest = [c for c in PCOLS if c not in cols]
                for j in range(0, 4 if core.THOROUGH else 3):
                    for index in itertools.permutations(rest, j):
                        if cols or index:
                            for nrows, salt in ((1, 0), (5, 1), (8, 2)) if core.THOROUGH else ((5, len(index)),):
                                for long in (False, True):
                                    yield (cols, index, nrows, salt, long)
    return core.pick(it(), shard)


# ------------------------------------------------------------------ table of a dataset
def run_dataset(case):
    import pandas as pd
    from pctsp.apps import tables_app as B
    from pctsp.vial import DatasetName
    ds, rows = case
    with tmp() as t:
        d = Path(t)
        tab = d / "tables"
        tab.mkdir()
        fields = ("num_nodes", "num_edges", "preprocessed_num_nodes", "preprocessed_num_edges", "preprocessed_prize_ratio", "metricness", "disjoint_prize_ratio", "total_cost")
        names = (r"num_nodes", "num_edges", "preprocessed_num_nodes", "preprocessed_num_edges", "preprocessed_prize_ratio", "metricness", "disjoint_prize_ratio")
        recs, want = [], defaultdict(list)
        for i, (a, b, c) in enumerate(rows):
            rec = {f: (7 * i + 3 * k + a) / (8.0 if k > 3 else 1) for k, f in enumerate(fields)}
            if ds == "tspwplib":
                rec.update(graph_name=("eil51", "st70", "rat195")[i % 3], generation="gen%d" % (1 + c), cost_function=("EUC_2D", "MST")[b], kappa=(5, 10)[a])
                for f in ("disjoint_prize_ratio", "preprocessed_prize_ratio"):
                    want[(rec["kappa"],), (rec["cost_function"], "mean_" + f)].append(rec[f])
            else:
                rec.update(graph_name=("laqbbA", "laqidA", "laqkxA", "laqwsA")[i % 4])
                for f in names:
                    want[(rec["graph_name"],), (f,)].append(rec[f])
            recs.append(rec)
        pd.DataFrame(recs).to_csv(d / ("tsplib_dataset.csv" if ds == "tspwplib" else "londonaq_dataset.csv"), index=False)
        got = tables(lambda: command(len(rows) % 2, B.summarize_dataset, (DatasetName(ds), tab, d, d), ["tables", "dataset", ds, tab], LONDONAQ_ROOT=d, OPLIB_ROOT=d))
        if len(got) != 1 or len(list(tab.iterdir())) != 1:
            return core.Case("%d tables are written" % len(got), "table")
        msg = table_error(got[0], {k: mean(v) for k, v in want.items()})
        if msg:
            return core.Case("dataset table of %s from %s: %s" % (ds, rows, msg), "table")
    return core.Case(outcome=case, states=len(rows), transitions=len(want), traces=1)


def gen_dataset(shard):
    def it():
        abc = list(itertools.product((0, 1), (0, 1), (0, 1, 2)))
        for k in (1, 2, 3) if core.THOROUGH else (1, 2):
            for rows in itertools.product(abc, repeat=k):
                yield ("tspwplib", rows)
        for k in (1, 2, 3, 4):
            yield ("londonaq", tuple(abc[:k]))
    return core.pick(it(), shard)


def run(res):
    setup()
    core.py(res, "csv", core.chunks(32), gen_csv, run_csv, 200, quiet=True)
    core.py(res, "csv-all", core.chunks(16), lambda s: core.pick(((m, z) for m in range(64) for z in range(4)), s), run_all, 200, quiet=True)
    core.py(res, "cost-cover", core.chunks(32), gen_cover, run_cover, 200, quiet=True)
    core.py(res, "tailing-off", core.chunks(16), gen_tailing, run_tailing, 200, quiet=True)
    core.py(res, "heuristics", core.chunks(32), gen_heuristics, run_heuristics, 200, quiet=True)
    core.py(res, "figure", core.chunks(16), gen_figure, run_figure, 200, quiet=True)
    core.py(res, "pretty", core.chunks(32), gen_pretty, run_pretty, 200, quiet=True)
    core.py(res, "dataset", core.chunks(16), gen_dataset, run_dataset, 200, quiet=True)
