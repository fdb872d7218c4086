"""The lab: saved experiments and results, crashes while saving, batches and re-runs."""
import contextlib
import io
import itertools
import json
import logging
import os
import resource
import shutil
import signal
import sys
import tempfile
import uuid
from datetime import datetime, timedelta, timezone
from pathlib import Path

import core
import pyreal
import vbuild
from checks import graphs, synth

# neighbours share the first block, every second one the last block
U = [uuid.UUID("%08x-%04x-4abc-8def-%012x" % (0x1234567 * (i // 2 + 1), 0x10FE + i, 0x123456789 * (i % 2 + 1))) for i in range(64)]
COST = {(0, 1): 3, (1, 2): 4, (0, 2): 5, (0, 3): 1, (2, 3): 9, (3, 4): 2}
PRIZE = {0: 0, 1: 100, 2: 150, 3: 7, 4: 3}


def setup():
    pyreal.with_engine()
    logging.disable(logging.CRITICAL)


@contextlib.contextmanager
def tmp():
    base = os.path.join(vbuild.BUILD, "run")
    os.makedirs(base, exist_ok=True)
    d = tempfile.mkdtemp(dir=base)
    try:
        yield Path(d)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def vial(i, kind="ok", uid=None):
    from pctsp.vial import AlgorithmName, DataConfig, DatasetName, ModelParams, Preprocessing, Vial
    alg = AlgorithmName.bfs_extension_collapse if kind == "ok2" else AlgorithmName.suurballes_heuristic
    return Vial(uuid=uid or U[i], data_config=DataConfig(dataset=DatasetName.londonaq, cost_function="EXPLICIT", graph_name="laqtinyA", quota=10 ** 6 if kind == "infeasible" else 200, root=0),
                model_params=ModelParams(algorithm=alg, is_exact=False, is_heuristic=True, is_relaxation=False),
                preprocessing=Preprocessing(disjoint_path_cutoff=False, remove_leaves=False, remove_disconnected_components=False, remove_one_connected_components=True,
                                            shortest_path_cutoff=kind == "failing"))


def experiment(kinds, name="dryrun", ids=U):
    from pctsp.vial import Experiment
    return Experiment(name=name, vials=[vial(i, k, ids[i]) for i, k in enumerate(kinds)], timestamp=datetime(2024, 2, 3, 4, 5, 6, 789))


def newlab(d):
    from pctsp.lab import Lab
    return Lab(d / "lab", londonaq_root=d / "data")


def dataset(d):
    synth.londonaq(d / "data", "laqtinyA", COST, PRIZE)


def same_result(a, b):
    return (a.vial_uuid, a.objective, a.prize, list(a.edge_list)) == (b.vial_uuid, b.objective, b.prize, list(b.edge_list))


# ------------------------------------------------------------------ C27 round trips
TIMES = [datetime(2024, 1, 2, 3, 4, 5), datetime(1999, 12, 31, 23, 59, 59, 999999), datetime(2024, 2, 29, 0, 0, 0, 1, tzinfo=timezone.utc),
         datetime(2030, 6, 1, 12, tzinfo=timezone(timedelta(hours=-3, minutes=-30)))]
INTS = [0, 1, -7, 2 ** 31, 2 ** 53 + 1, 10 ** 18]
EDGES = [[], [(0, 1), (1, 2), (2, 0)], [(10 ** 9, 3), (3, 10 ** 9)], [(i, i + 1) for i in range(300)] + [(300, 0)]]


def domains():
    from pctsp.vial import AlgorithmName, BranchingStrategy, DatasetName
    from tspwplib import Generation, GraphName, LondonaqGraphName
    from tspwplib.types import EdgeWeightType
    boolean = [None, True, False]
    data = dict(dataset=list(DatasetName), cost_function=list(EdgeWeightType), graph_name=list(GraphName) + list(LondonaqGraphName), quota=INTS, root=INTS,
                alpha=[None, 0, 5, 100], generation=[None] + list(Generation), kappa=[None, 0, 5], triangle=[None, 0, 3])
    model = dict(algorithm=list(AlgorithmName), is_exact=[True, False], is_heuristic=[True, False], is_relaxation=[True, False],
                 branching_strategy=[None] + list(BranchingStrategy), branching_max_depth=[None, -1, 0, 7], collapse_paths=boolean, cost_cover_disjoint_paths=boolean,
                 cost_cover_shortest_path=boolean, heuristic=[None] + list(AlgorithmName), path_depth_limit=[None, 0, 1, 12], sec_disjoint_tour=boolean,
                 sec_lp_gap_improvement_threshold=[None, 0.0, 0.001, 1e-9, 0.1 + 0.2], sec_maxflow_mincut=boolean, sec_max_tailing_off_iterations=[None, -1, 0, 5],
                 sec_sepafreq=[None, -1, 1, 10], step_size=[None, 0, 1, 10], time_limit=[None, 0.0, 14400.0, 1e20, 1 / 3])
    pre = dict(disjoint_path_cutoff=[True, False], remove_leaves=[True, False], remove_disconnected_components=[True, False],
               remove_one_connected_components=[True, False], shortest_path_cutoff=[True, False])
    return data, model, pre


def mkvial(i, data, model, pre):
    from pctsp.vial import DataConfig, ModelParams, Preprocessing, Vial
    return Vial(uuid=U[i % len(U)], data_config=DataConfig(**data), model_params=ModelParams(**model), preprocessing=Preprocessing(**pre))


def base_choice():
    return ({k: v[0] for k, v in d.items()} for d in domains())


def vials_all():
    """Every value of every field (one at a time, the others at first and last value), every pair of boolean flags."""
    out = []
    doms = domains()
    for end in (0, -1):
        base = [{k: v[end] for k, v in d.items()} for d in doms]
        for which, dom in enumerate(doms):
            for k, vs in dom.items():
                for v in vs:
                    m = [dict(b) for b in base]
                    m[which][k] = v
                    out.append(m)
    for flags in itertools.product([None, True, False], repeat=5):
        m = [dict(b) for b in base_choice()]
        m[1].update(zip(("collapse_paths", "cost_cover_disjoint_paths", "cost_cover_shortest_path", "sec_disjoint_tour", "sec_maxflow_mincut"), flags))
        out.append(m)
    for flags in itertools.product([True, False], repeat=5):
        m = [dict(b) for b in base_choice()]
        m[2].update(zip(doms[2], flags))
        out.append(m)
    return out


def run_roundtrip(case):
    from pctsp.vial import Experiment, ExperimentName, Result
    kind = case[0]
    with tmp() as d:
        lab = newlab(d)
        if kind == "result":
            _, i, o, p, e, t0, t1 = case
            r = Result(vial_uuid=U[i], objective=INTS[o], prize=INTS[p], edge_list=EDGES[e], start_time=TIMES[t0], end_time=TIMES[t1])
            path = r.write_to_json_file(d)
            if Path(path) != d / ("%s.json" % U[i]) or not Path(path).exists():
                return core.Case("result written to %s" % path, "path")
            back = Result.read_from_json_file(d, U[i])
            if back != r or back.edge_list != r.edge_list or back.start_time != r.start_time or back.end_time != r.end_time:
                return core.Case("wrote %r, read %r" % (r, back), "result")
            try:
                Result.read_from_json_file(d, U[i + 1])
                return core.Case("reading the result of another vial succeeded", "wrong-vial")
            except FileNotFoundError:
                pass
            return core.Case(outcome=repr(r))
        if kind == "dir":
            r = Result(vial_uuid=U[0], objective=1, prize=1, edge_list=[], start_time=TIMES[0], end_time=TIMES[0])
            for fn in (lambda: r.write_to_json_file(d / "nope"), lambda: Result.read_from_json_file(d / "nope", U[0])):
                try:
                    fn()
                    return core.Case("a missing directory was not reported", "no-error")
                except FileNotFoundError:
                    pass
            return core.Case(outcome="dir")
        if kind == "vials":
            al = vials_all()
            vs = [mkvial(j, *al[j]) for j in range(case[1], min(case[1] + case[2], len(al)))]
            names = list(ExperimentName)
            name = names[case[1] % len(names)]
            other = names[(case[1] + 1) % len(names)]
            ex = Experiment(name=name, vials=vs, timestamp=TIMES[case[1] % len(TIMES)])
            small = Experiment(name=name, vials=vs[:1], timestamp=TIMES[0])
            for ob, first in ((False, True), (True, False)):
                try:
                    lab.read_experiment_from_file(name, only_missing_results=ob)
                    return core.Case("an experiment was read before one was saved", "phantom")
                except FileNotFoundError:
                    pass
            lab.write_experiment_to_file(small)
            lab.write_experiment_to_file(ex)
            try:
                lab.read_experiment_from_file(name, only_missing_results=True)
                return core.Case("the missing-results experiment exists although only the full one was saved", "phantom")
            except FileNotFoundError:
                pass
            lab.write_experiment_to_file(small, only_missing_results=True)
            fresh = newlab(d)
            back = fresh.read_experiment_from_file(name)
            if back != ex:
                bad = [(a, b) for a, b in zip(ex.vials, back.vials) if a != b][:1]
                return core.Case("read back %d of %d vials, first difference %s" % (len(back.vials), len(vs), bad), "experiment")
            if [v.uuid for v in back.vials] != [v.uuid for v in vs] or back.timestamp != ex.timestamp or back.name != name:
                return core.Case("order, name or timestamp changed", "experiment")
            if fresh.read_experiment_from_file(name, only_missing_results=True) != small:
                return core.Case("the missing-results experiment was not read back", "missing-file")
            try:
                fresh.read_experiment_from_file(other)
                return core.Case("an experiment of another name was returned", "wrong-name")
            except FileNotFoundError:
                pass
            return core.Case(outcome=case)
        if kind == "results":
            _, mask = case
            u = [U[j] for j in (7, 2, 11, 0, 5)]
            rs = [Result(vial_uuid=u[i], objective=3 * i, prize=i, edge_list=EDGES[i % 3], start_time=TIMES[0], end_time=TIMES[1]) for i in range(5)]
            ex = experiment(["ok"] * 5, ids=u)
            lab.write_experiment_to_file(ex)
            for i, r in enumerate(rs):
                st = mask // 3 ** i % 3
                if st:
                    r.write_to_json_file(lab.get_vial_dir(ex.name, u[i]))
                if st == 2:
                    p = lab.get_vial_dir(ex.name, u[i]) / ("%s.json" % u[i])
                    p.write_text(p.read_text()[: 5 * i])
            have = [i for i in range(5) if mask // 3 ** i % 3 == 1]
            got = lab.read_results_from_file(ex)
            if got != [rs[i] for i in have]:
                return core.Case("results of vials %s are saved, %s were read" % (have, [u.index(r.vial_uuid) for r in got]), "results")
            miss = [v.uuid for v in lab.missing_vials(ex, ex.vials)]
            if miss != [u[i] for i in range(5) if i not in have]:
                return core.Case("missing vials %s" % miss, "missing")
            inf = [v.uuid for v in lab.infeasible_vials(ex, ex.vials)]
            if inf != [u[i] for i in have]:
                return core.Case("infeasible vials %s, expected those of %s" % (inf, have), "infeasible")
            lab.write_results_to_file(ex.name, [rs[i] for i in have])
            with open(lab.lab_dir / ex.name.value / "results.json", encoding="utf-8") as fh:
                doc = json.load(fh)
            if [Result(**x) for x in doc] != [rs[i] for i in have]:
                return core.Case("results.json does not hold the results in order", "results-file")
            return core.Case(outcome=tuple(have))
        if kind == "feasible":
            _, prize, quota = case
            ex = experiment(["ok"])
            ex.vials[0].data_config.quota = quota
            Result(vial_uuid=U[0], objective=1, prize=prize, edge_list=[], start_time=TIMES[0], end_time=TIMES[0]).write_to_json_file(lab.get_vial_dir(ex.name, U[0]))
            if bool(lab.infeasible_vials(ex, ex.vials)) != (prize < quota):
                return core.Case("prize %d, quota %d: infeasible vials %s" % (prize, quota, lab.infeasible_vials(ex, ex.vials)), "infeasible")
            return core.Case(outcome=case)
    raise core.CheckError(kind)


def gen_roundtrip(shard):
    def it():
        yield ("dir",)
        for c in itertools.product(range(3), range(len(INTS)), range(len(INTS)), range(len(EDGES)), range(4), range(4)):
            if core.THOROUGH or c[0] == 0 or sum(c) % 5 == 0:
                yield ("result",) + c
        n = len(vials_all())
        for s in range(0, n, 7):
            yield ("vials", s, 7)
        yield ("vials", 0, 0)
        yield ("vials", 0, 60)
        for m in range(3 ** 5):
            yield ("results", m)
        for p, q in itertools.product(range(4), repeat=2):
            yield ("feasible", p, q)
    return core.pick(it(), shard)


def roundtrip(res):
    setup()
    core.py(res, "round-trip", core.chunks(32), gen_roundtrip, run_roundtrip, 600, quiet=True)


# ------------------------------------------------------------------ C28 crash points
KINDS3 = ("ok", "infeasible", "ok2")


def workload(d):
    """Set up an experiment, run it, save the results: what the `lab` command does."""
    lab = newlab(d)
    ex = experiment(KINDS3)
    lab.write_experiment_to_file(ex)
    rs = lab.run_experiment(ex)
    lab.write_results_to_file(ex.name, rs)
    miss = lab.missing_vials(ex, ex.vials)
    m = ex.model_copy(update={"vials": miss})
    lab.write_experiment_to_file(m, only_missing_results=True)


def older(d):
    """What an earlier run left: another experiment, longer and shorter results of the same vials, a torn one."""
    from pctsp.vial import Experiment
    ex, rs = _ref["ex"], _ref["rs"]
    lab = newlab(d)
    more = [v.model_copy(update={"uuid": uuid.UUID(int=v.uuid.int ^ (k << 64))}) for v in ex.vials for k in (1, 2)]
    old = Experiment(name=ex.name, vials=ex.vials + more, timestamp=ex.timestamp)
    lab.write_experiment_to_file(old)
    old_rs = [rs[0].model_copy(update={"objective": 10**9, "edge_list": rs[0].edge_list * 3}), rs[1].model_copy(update={"objective": 1, "edge_list": rs[1].edge_list[:1]})]
    for r in old_rs:
        r.write_to_json_file(lab.get_vial_dir(ex.name, r.vial_uuid))
    torn = lab.get_vial_dir(ex.name, rs[2].vial_uuid) / ("%s.json" % rs[2].vial_uuid)
    torn.write_text(rs[2].model_dump_json(indent=4) + "  ]]]}}" * 40)
    lab.write_results_to_file(ex.name, old_rs * 5)
    lab.write_experiment_to_file(old.model_copy(update={"vials": more}), only_missing_results=True)
    return old, old_rs


def crash_child(d, point):
    """Run the workload in a child that dies at the given point; True when it ran to the end."""
    if point[0] == "stale":
        older(d)
        point = point[1:]
    pid = os.fork()
    if pid == 0:
        core.hush()
        signal.alarm(60)
        root = str(d / "lab")
        if point[0] == "event":
            count = [0]

            def hook(ev, args):
                write = ev == "open" and isinstance(args[0], (str, os.PathLike)) and (args[2] & (os.O_WRONLY | os.O_RDWR))
                if write or ev in ("os.mkdir", "os.rename", "os.remove", "os.truncate", "os.link"):
                    if str(args[0]).startswith(root):
                        count[0] += 1
                        if count[0] == point[1]:
                            os._exit(9)
            sys.addaudithook(hook)
        elif point[0] == "bytes":
            # the run dies when the n-th file it writes grows beyond k bytes
            _, nth, k = point
            count = [0]

            def hook(ev, args):
                if ev == "open" and isinstance(args[0], (str, os.PathLike)) and (args[2] & (os.O_WRONLY | os.O_RDWR)) and str(args[0]).startswith(root):
                    count[0] += 1
                    if count[0] == nth:
                        signal.signal(signal.SIGXFSZ, signal.SIG_DFL)
                        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
                        resource.setrlimit(resource.RLIMIT_FSIZE, (k, resource.RLIM_INFINITY))
                    elif count[0] == nth + 1:
                        os._exit(8)
            sys.addaudithook(hook)
        try:
            workload(d)
        except BaseException:  # noqa: BLE001
            os._exit(7)
        os._exit(0)
    _, st = os.waitpid(pid, 0)
    return os.WIFEXITED(st) and os.WEXITSTATUS(st) == 0


def crash_points(stale=()):
    """Every file-system event of the workload and every length of every file it writes."""
    with tmp() as d:
        dataset(d)
        n = 0
        pts = []
        while True:
            n += 1
            shutil.rmtree(d / "lab", ignore_errors=True)
            if crash_child(d, (*stale, "event", n)):
                break
            pts.append((*stale, "event", n))
            if n > 200:
                raise core.CheckError("too many events")
        # sizes of the files, in writing order
        sizes = []
        pid_r, pid_w = os.pipe()
        pid = os.fork()
        if pid == 0:
            core.hush()
            names = []
            root = str(d / "lab")

            def hook(ev, args):
                if ev == "open" and isinstance(args[0], (str, os.PathLike)) and (args[2] & (os.O_WRONLY | os.O_RDWR)) and str(args[0]).startswith(root):
                    names.append(str(args[0]))
            sys.addaudithook(hook)
            shutil.rmtree(d / "lab", ignore_errors=True)
            workload(d)
            out = []
            for x in names:
                # a file renamed after it was written: the largest file of its directory bounds it
                out.append(os.path.getsize(x) if os.path.exists(x) else max([os.path.getsize(p) for p in Path(x).parent.iterdir() if p.is_file()] + [0]))
            os.write(pid_w, json.dumps(out).encode())
            os._exit(0)
        os.close(pid_w)
        os.waitpid(pid, 0)
        sizes = json.loads(os.read(pid_r, 65536).decode())
        os.close(pid_r)
        for i, s in enumerate(sizes):
            step = 1 if (s < 1500 and not stale) or core.THOROUGH else 3 + 4 * len(stale)
            pts += [(*stale, "bytes", i + 1, k) for k in range(0, s, step)]
        return pts


def reference(d):
    from pctsp.vial import Result
    lab = newlab(d)
    ex = experiment(KINDS3)
    rs = lab.run_experiment(ex)
    assert len(rs) == 3 and all(isinstance(r, Result) for r in rs)
    return ex, rs


def run_crash(point):
    with tmp() as d:
        dataset(d)
        ex, rs = _ref["ex"], _ref["rs"]
        order = [v.uuid for v in ex.vials]
        stale = point[0] == "stale"
        done = crash_child(d, point)
        lab = newlab(d)
        # a reader may find what an earlier run saved, if the run died before it replaced it
        old_ex, old_rs = None, []
        if stale and not done:
            with tmp() as e:
                old_ex, old_rs = older(e)
        try:
            back = lab.read_experiment_from_file(ex.name)
            if back != ex and back != old_ex:
                return core.Case("after the crash a different experiment is read: %r" % back, "experiment")
        except (FileNotFoundError, ValueError):
            back = None
        try:
            m = lab.read_experiment_from_file(ex.name, only_missing_results=True)
            if m.vials and not (old_ex and m.vials == old_ex.vials[3:]):
                return core.Case("the missing-results experiment lists %d vials although every result is saved" % len(m.vials), "experiment")
        except (FileNotFoundError, ValueError):
            pass
        got = lab.read_results_from_file(ex)
        ids = [r.vial_uuid for r in got]

        def wrong(results):
            for r in results:
                if not any(same_result(r, x) for x in [rs[order.index(r.vial_uuid)]] + [o for o in old_rs if o.vial_uuid == r.vial_uuid]):
                    return r
        r = wrong(got)
        if r:
            return core.Case("after the crash the result of vial %s reads %r" % (r.vial_uuid, r), "wrong-result")
        miss = [v.uuid for v in lab.missing_vials(ex, ex.vials)]
        if sorted(map(str, miss + ids)) != sorted(map(str, order)):
            return core.Case("complete %s and missing %s do not partition the vials" % (ids, miss), "partition")
        inf = [v.uuid for v in lab.infeasible_vials(ex, ex.vials)]
        if inf != [order[1]] * (order[1] in ids):
            return core.Case("infeasible vials after the crash: %s (complete: %s)" % (inf, ids), "infeasible")
        if done and miss:
            return core.Case("nothing died, but the results of vials %s are missing" % miss, "partition")
        # finishing the missing vials completes the experiment
        lab.write_experiment_to_file(ex)
        lab.run_experiment_from_vial_list(ex, lab.missing_vials(ex, ex.vials))
        fin = lab.read_results_from_file(ex)
        if len(fin) != 3 or wrong(fin) or any(not same_result(a, b) for a, b in zip(fin, rs) if b.vial_uuid in miss):
            return core.Case("finishing the missing vials did not complete the experiment", "recovery")
        if lab.read_experiment_from_file(ex.name) != ex:
            return core.Case("the experiment cannot be saved again after the crash", "recovery")
    return core.Case(outcome=(stale, len(got), back is None, len(miss)), nontrivial=not done)


_ref = {}


def crash(res):
    setup()
    with tmp() as d:
        dataset(d)
        with contextlib.redirect_stderr(io.StringIO()):
            _ref["ex"], _ref["rs"] = reference(d)
        _ref["pts"] = crash_points() + [("event", 0), ("stale", "event", 0)] + crash_points(("stale",))
    core.py(res, "crash-points", core.chunks(64), lambda sh: core.pick(_ref["pts"], sh), run_crash, 600, quiet=True)


# ------------------------------------------------------------------ C29 histories of batches and re-runs
def kinds():
    return ("ok", "infeasible", "failing", "ok2") if core.THOROUGH else ("ok", "infeasible", "failing")


ABSENT, DONE, TORN = 0, 1, 2


def ops(n):
    for s in range(n + 1):
        for b in range(1, n + 2):
            yield ("batch", s, b)
            yield ("batch_cli", s, b)
            yield ("batch_missing_cli", s, b)
            yield ("batch_missing", s, b)
    for i in range(n):
        yield ("vial", i)
    for o in ("missing", "nmissing", "infeasible", "run_all"):
        yield (o,)
    for b in range(1, n + 2):
        yield ("nbatches", b)


def model(state, op, ks):
    """Abstract effect of an operation: (status of every vial, saved list of missing vials or None), vials run."""
    st, miss = list(state[0]), state[1]
    n = len(ks)
    ran = []
    if op[0] in ("batch", "batch_cli"):
        ran = list(range(n))[op[1]:op[1] + op[2]]
    elif op[0] == "batch_missing_cli":
        ran = list(miss)[op[1]:op[1] + op[2]]
    elif op[0] == "batch_missing":
        ran = [i for i in list(range(n))[op[1]:op[1] + op[2]] if st[i] != DONE]
    elif op[0] == "vial":
        ran = [op[1]]
    elif op[0] == "run_all":
        ran = list(range(n))
    for i in ran:
        if ks[i] != "failing":
            st[i] = DONE
    if op[0] == "missing":
        miss = tuple(i for i in range(n) if st[i] != DONE)
    return (tuple(st), miss), ran


def enabled(state, op, ks):
    if op[0] == "batch_missing_cli":
        return state[1] is not None
    return True


def reachable(ks):
    """All abstract states reachable from a fresh experiment, with vial files torn by crashes at any time."""
    n = len(ks)
    init = ((ABSENT,) * n, None)
    seen, todo = {init}, [init]
    while todo:
        s = todo.pop()
        nxt = [model(s, o, ks)[0] for o in ops(n) if enabled(s, o, ks)]
        for i in range(n):  # a crash while saving vial i
            t = list(s[0])
            t[i] = TORN
            nxt.append((tuple(t), s[1]))
        for t in nxt:
            if t not in seen:
                seen.add(t)
                todo.append(t)
    return sorted(seen, key=repr)


def results_of(ks):
    with tmp() as d:
        dataset(d)
        lab = newlab(d)
        ex = experiment(ks)
        out = {r.vial_uuid: r for r in lab.run_experiment(ex)}
    return {k: out[U[i]] for i, k in enumerate(ks) if k != "failing"}


def materialise(lab, ex, state, ks, u):
    ref = _ref["hist"]
    lab.write_experiment_to_file(ex)
    for i, s in enumerate(state[0]):
        vd = lab.get_vial_dir(ex.name, u[i])
        p = vd / ("%s.json" % u[i])
        if s == DONE:  # a failing vial was completed in an earlier life
            ref.get(ks[i], ref["ok"]).model_copy(update={"vial_uuid": u[i]}).write_to_json_file(vd)
        elif s == TORN:
            p.write_text('{"vial_uuid": "')
    if state[1] is not None:
        lab.write_experiment_to_file(ex.model_copy(update={"vials": [ex.vials[i] for i in state[1]]}), only_missing_results=True)


def snapshot(lab, ex, u):
    out = {}
    for i in range(len(ex.vials)):
        p = lab.lab_dir / ex.name.value / str(u[i]) / ("%s.json" % u[i])
        out[i] = p.read_bytes() if p.exists() else None
    return out


def run_history(case):
    state, op = case
    return check_history(state, op, kinds(), U)


def check_history(state, op, ks, u):
    n = len(ks)
    from pctsp.apps import main_app
    from pctsp.vial import DatasetName, ExperimentName
    ref = _ref["hist"]
    (want, wmiss), ran = model(state, op, ks)
    with tmp() as d:
        dataset(d)
        (d / "labs").mkdir()
        from pctsp.lab import Lab
        lab = Lab(d / "labs" / "londonaq", londonaq_root=d / "data")
        ex = experiment(ks, ids=u)
        materialise(lab, ex, state, ks, u)
        before = snapshot(lab, ex, u)
        out = io.StringIO()
        kw = dict(lab_dir=d / "labs", logging_level=50, londonaq_root=d / "data", oplib_root=d / "none")
        args = (DatasetName.londonaq, ExperimentName.dryrun)
        returned = None
        raised = None
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(io.StringIO()):
            try:
                if op[0] == "batch":
                    returned = lab.run_batch(ex, op[1], op[2])
                elif op[0] == "batch_missing":
                    returned = lab.run_batch(ex, op[1], op[2], only_missing_results=True)
                elif op[0] == "batch_cli":
                    main_app.batch(*args, op[1], op[2], only_missing_results=False, **kw)
                elif op[0] == "batch_missing_cli":
                    main_app.batch(*args, op[1], op[2], only_missing_results=True, **kw)
                elif op[0] == "vial":
                    main_app.vial(*args, str(u[op[1]]), **kw)
                elif op[0] == "run_all":
                    returned = lab.run_experiment(ex)
                elif op[0] in ("missing", "nmissing", "infeasible"):
                    getattr(main_app, op[0])(*args, lab_dir=d / "labs")
                elif op[0] == "nbatches":
                    main_app.nbatches(*args, op[1], **kw)
            except Exception as e:  # noqa: BLE001
                raised = e
        if raised is not None and not (op[0] == "vial" and ks[op[1]] == "failing"):
            raise raised
        text = out.getvalue()
        ok_ran = [i for i in ran if ks[i] != "failing"]
        if returned is not None and [r.vial_uuid for r in returned] != [u[i] for i in ok_ran]:
            return core.Case("returned results of %s, expected %s" % ([u.index(r.vial_uuid) for r in returned], ok_ran), "returned")
        # status of every vial afterwards
        after = snapshot(lab, ex, u)
        got = lab.read_results_from_file(ex)
        if [r.vial_uuid for r in got] != [u[i] for i in range(n) if want[i] == DONE]:
            return core.Case("after %s: complete %s, expected %s" % (op, [u.index(r.vial_uuid) for r in got], want), "status")
        for r in got:
            i = u.index(r.vial_uuid)
            if ks[i] != "failing" and not same_result(r, ref[ks[i]].model_copy(update={"vial_uuid": u[i]})):
                return core.Case("result of vial %d is %r" % (i, r), "result")
        for i in range(n):
            if i not in ok_ran and before[i] != after[i]:
                return core.Case("the saved result of vial %d changed although it was not run" % i, "frame")
        if lab.read_experiment_from_file(ex.name) != ex:
            return core.Case("the saved experiment changed", "frame")
        try:
            m = tuple(u.index(v.uuid) for v in lab.read_experiment_from_file(ex.name, only_missing_results=True).vials)
        except FileNotFoundError:
            m = None
        if m != wmiss:
            return core.Case("saved list of missing vials is %s, expected %s" % (m, wmiss), "missing-file")
        # printed answers
        lines = [x for x in text.splitlines() if x.strip()]
        if op[0] == "missing" and [x.split()[0] for x in lines] != [str(u[i]) for i in wmiss]:
            return core.Case("printed %r" % text, "printed")
        if op[0] == "infeasible" and [x.strip() for x in lines] != [str(u[i]) for i in range(n) if state[0][i] == DONE and (ks[i] == "infeasible")]:
            return core.Case("infeasible printed %r in state %s" % (text, state), "printed")
        if op[0] == "nmissing" and [int(x) for x in text.split() if x.isdigit()] != [sum(s != DONE for s in state[0]), n]:
            return core.Case("printed %r" % text, "printed")
        if op[0] == "nbatches" and text.split() != [str(-(-n // op[1]))]:
            return core.Case("printed %r batches of %d for %d vials" % (text, op[1], n), "printed")
    return core.Case(outcome=(state, op), nontrivial=bool(ran) or op[0] in ("missing", "infeasible", "nmissing", "nbatches"), transitions=1, traces=1)


def gen_history(shard):
    ks = kinds()

    def it():
        for s in _ref["states"]:
            for o in ops(len(ks)):
                if enabled(s, o, ks):
                    yield (s, o)
    return core.pick(it(), shard)


def run_wide(case):
    """The same on larger experiments whose vials are not in the order of their ids."""
    n, p, op = case
    ks = [WIDE[graphs.scramble(i, p, 1) % (4 + p % 2)] for i in range(n)]
    st = tuple(graphs.scramble(i, p, 2) % 3 if p else ABSENT for i in range(n))
    miss = (None, tuple(i for i in range(n) if st[i] != DONE), tuple(i for i in range(n) if graphs.scramble(i, p, 3) % 2))[p % 3]
    if op[0] == "batch_missing_cli" and miss is None:
        miss = tuple(range(0, n, 2))
    u = sorted(U[:n], key=lambda x: graphs.scramble(U.index(x), p, 4))
    return check_history((st, miss), op, ks, u)


WIDE = ("ok", "infeasible", "failing", "ok2", "infeasible")


def gen_wide(shard):
    def it():
        for n in (5, 9, 16, 30) + ((50,) if core.THOROUGH else ()):
            for p in range(12 if core.THOROUGH else 4):
                for i, (s, b) in enumerate(itertools.product((0, 1, n // 2, n - 2, n, n + 3), (1, 2, n // 3, n - 1, n, 10 * n))):
                    if i % 3 == p % 3 or b <= 2 or core.THOROUGH:
                        for o in ("batch", "batch_cli", "batch_missing", "batch_missing_cli"):
                            yield (n, p, (o, s, b))
                for i in (0, 1, n // 2, n - 1):
                    yield (n, p, ("vial", i))
                for o in ("missing", "nmissing", "infeasible", "run_all"):
                    yield (n, p, (o,))
                for b in (1, 2, 3, n // 2, n - 1, n, n + 1, 1000):
                    yield (n, p, ("nbatches", b))
    return core.pick(it(), shard)


def run_partition(case):
    from pctsp.lab import get_nbatches
    n = case
    if n > 2000:
        for b in (1, 2, 3, 7, 10, 100, 999, 1000, 1001, n // 7, n // 3, n // 2, n - 1, n, n + 1, 2 * n):
            k = get_nbatches(n, b)
            if k * b < n or (k - 1) * b >= n:
                return core.Case("%d vials in batches of %d: %s batches" % (n, b, k), "partition")
        return core.Case(outcome=n)
    for b in range(1, n + 5):
        k = get_nbatches(n, b)
        got = [i for j in range(k) for i in list(range(n))[j * b:j * b + b]]
        if got != list(range(n)) or (k and (k - 1) * b >= n):
            return core.Case("%d vials in batches of %d: %s batches do not cover every vial exactly once without an empty batch" % (n, b, k), "partition")
    return core.Case(outcome=n)


def histories(res):
    setup()
    with contextlib.redirect_stderr(io.StringIO()):
        _ref["hist"] = results_of(KINDS3)
    _ref["states"] = reachable(kinds())
    res.states += len(_ref["states"])
    core.py(res, "histories", core.chunks(128), gen_history, run_history, 3000 if core.THOROUGH else 500, quiet=True)
    core.py(res, "larger-experiments", core.chunks(128), gen_wide, run_wide, 2000 if core.THOROUGH else 300, quiet=True)
    core.py(res, "partition", core.chunks(16), lambda sh: core.pick([*range(0, 1200 if core.THOROUGH else 300), *range(2001, 10 ** 6, 9973), *range(10 ** 6, 10 ** 9, 10 ** 7 + 19)], sh), run_partition, 300)
