"""Shared machinery of the checks: results, evidence, known findings, replay files."""
import ast
import hashlib
import json
import mmap
import multiprocessing as mp
import multiprocessing.connection
import os
import signal
import subprocess
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import vbuild  # noqa: E402

VERIF = vbuild.VERIF
TIER = os.environ.get("VERIF_TIER", "quick")
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
THOROUGH = TIER == "thorough"
NPROC = min(8, os.cpu_count() or 8)


class CheckError(Exception):
    """The check itself could not run (never a verdict about the code)."""


class Result:
    def __init__(self):
        self.evaluations = 0
        self.nontrivial = 0
        self.outcomes = set()
        self.distinct = 0
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.samples = []
        self.violations = []  # dicts: component, kind, case, describe, detail
        self.components = []
        self.exhaustive = True
        self.assumptions = []
        self.bounds = []

    def sample(self, s, cap=6):
        if len(self.samples) < cap:
            self.samples.append(s)


# ----------------------------------------------------------------- C++ components
def cpp(res, harness, group, cap, flags=("-O1", "-g"), args=(), maxviol=3, env=None, build=None, quick=False):
    """Run every case of one group of a C++ harness against the real sources."""
    name = "%s:%s" % (harness, group) + (":sanitized" if any("sanitize" in f for f in flags) else "")
    if ONLY and ONLY[0] != name:
        return
    exe = vbuild.harness(harness, flags, **(build or {}))
    if ONLY:
        res.evaluations, res.nontrivial = 1, 1
        v = dict(component=name, kind="replay", case=ONLY[1], describe=ONLY[2], detail="see replay", exe=[exe, group] + list(args))
        if confirm(v):
            v["detail"] = v["replay_output"]
            res.violations.append(v)
        return
    cmd = [exe, group] + list(args) + ["--procs", str(NPROC), "--cap", str(cap), "--maxviol", str(maxviol)]
    if THOROUGH and not quick:
        cmd.append("--thorough")
    e = dict(os.environ, MALLOC_PERTURB_="165")  # so that reading uninitialised memory has the same effect in every run
    e.update(env or {})
    e.setdefault("ASAN_OPTIONS", "detect_leaks=0:abort_on_error=1:detect_stack_use_after_return=0")
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, env=e, cwd=scratch())
    stat = None
    for line in p.stdout.splitlines():
        if line.startswith("VIOL "):
            v = json.loads(line[5:])
            v["component"] = name
            v["exe"] = [exe, group] + list(args)
            res.violations.append(v)
        elif line.startswith("SAMPLE "):
            res.sample(json.loads(line[7:])["describe"])
        elif line.startswith("STAT "):
            stat = json.loads(line[5:])
        elif line.startswith("HARNESS-ERROR"):
            raise CheckError(line)
    if stat is None:
        if p.returncode == 0 or not res.violations:
            raise CheckError("harness %s gave no statistics (rc=%s): %s" % (name, p.returncode, p.stderr[-2000:]))
        return
    res.evaluations += stat["evaluations"]
    res.nontrivial += stat["nontrivial"]
    res.distinct += stat["distinct_outcomes"]
    res.states += stat["states"]
    res.transitions += stat["transitions"]
    res.traces += stat["traces"]
    if stat["capped"]:
        res.exhaustive = False
    res.components.append({"component": name, **stat})


def scratch():
    d = os.path.join(vbuild.BUILD, "run")
    os.makedirs(d, exist_ok=True)
    return d


# ----------------------------------------------------------------- Python components
class Case:
    """Outcome of one case of a Python component."""

    def __init__(self, viol=None, kind="violation", outcome=None, nontrivial=True, states=0, transitions=0, traces=0):
        self.viol, self.kind, self.outcome, self.nontrivial = viol, kind, outcome, nontrivial
        self.states, self.transitions, self.traces = states, transitions, traces


class Hang(BaseException):
    pass


def _alarm(_s, _f):
    raise Hang()


def guarded(run, case, limit=60):
    """Run one case; an exception escaping from the code under test is a violation of the case."""
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(limit)
    try:
        out = run(case)
    except Hang:
        out = Case("did not return within %d s" % limit, "hang")
    except CheckError:
        raise
    except Exception as e:  # noqa: BLE001
        tb = traceback.extract_tb(e.__traceback__)
        last = [f for f in tb if f.filename.startswith(vbuild.REPO)]
        if not last and not any("/site-packages/" in f.filename or "/lib/python3" in f.filename for f in tb[-1:]):
            if isinstance(e, (TypeError, ValueError, LookupError, AttributeError, ZeroDivisionError)) and not isinstance(e, UnicodeError):
                signal.alarm(0)  # the oracle cannot even read what the code returned
                f = tb[-1]
                return Case("the result cannot be interpreted: %s: %s (at %s:%d)" % (type(e).__name__, e, os.path.basename(f.filename), f.lineno), "unreadable-result")
            raise
        loc = "%s:%s" % (os.path.relpath(last[-1].filename, vbuild.REPO), last[-1].name) if last else "?"
        out = Case("raised %s: %s (in %s)" % (type(e).__name__, e, loc), "exception:" + type(e).__name__)
    finally:
        signal.alarm(0)
    if out is None:
        out = Case()
    elif isinstance(out, str):
        out = Case(out)
    return out


_G = {}


def hush():
    """Send everything the code under test prints to /dev/null (workers report through pipes)."""
    sys.stdout.flush()
    sys.stderr.flush()
    fd = os.open(os.devnull, os.O_RDWR)
    os.dup2(fd, 1)
    os.dup2(fd, 2)
    os.close(fd)


def _worker(shard):
    gen, run, describe, deadline, stop, limit = _G["gen"], _G["run"], _G["describe"], _G["deadline"], _G["stop"], _G["limit"]
    r = dict(ev=0, nt=0, st=0, tr=0, tc=0, outs=set(), viols=[], samples=[], done=True)
    try:
        for case in gen(shard):
            if stop.value or time.time() > deadline:
                r["done"] = False
                break
            if _G["log"] is not None:
                m = _G["log"]
                b = repr(case).encode()[: len(m) - 8]
                m[:8] = b"%08d" % len(b)
                m[8:8 + len(b)] = b
            c = guarded(run, case, limit)
            r["ev"] += 1
            r["st"] += c.states
            r["tr"] += c.transitions
            r["tc"] += c.traces
            if c.nontrivial:
                r["nt"] += 1
                if c.outcome is not None and len(r["outs"]) < 200000:
                    r["outs"].add(c.outcome if isinstance(c.outcome, int) else hash(repr(c.outcome)))
                if len(r["samples"]) < 1 and r["nt"] % 37 == 1:
                    r["samples"].append(describe(case))
            if c.viol:
                r["viols"].append(dict(kind=c.kind, case=case, describe=describe(case), detail=c.viol))
                if len(r["viols"]) >= 3:
                    stop.value = 1
                    r["done"] = False
                    break
    except Exception:  # noqa: BLE001
        r["error"] = traceback.format_exc()
        stop.value = 1
    return r


def _process(conn, log, nxt, shards):
    """One worker process: takes shards until none is left."""
    if _G["quiet"]:
        hush()
    _G["log"] = log
    while True:
        with nxt.get_lock():
            i = nxt.value
            nxt.value += 1
        if i >= len(shards):
            break
        conn.send(_worker(shards[i]))
    conn.send(None)
    conn.close()
    os._exit(0)


def _run_shards(shards, procs):
    """Run every shard in forked workers; a worker that dies yields a violation of the case it was running."""
    ctx = mp.get_context("fork")
    nxt = ctx.Value("i", 0)
    live = {}
    for _ in range(min(procs, len(shards))):
        a, b = ctx.Pipe(duplex=False)
        log = mmap.mmap(-1, 1 << 16)
        p = ctx.Process(target=_process, args=(b, log, nxt, shards))
        p.start()
        b.close()
        live[a] = (p, log)
    seen = {}
    while live:
        ready = mp.connection.wait(list(live), timeout=5)
        for c, (p, log) in live.items():  # a worker stuck in native code cannot be interrupted by its own alarm
            if c in ready or seen.get(c, (None, 0))[0] != log[:]:
                seen[c] = (log[:], time.time())
            elif time.time() - seen[c][1] > _G["limit"] + 20:
                p.kill()
        for c in ready:
            p, log = live[c]
            try:
                r = c.recv()
            except EOFError:
                p.join()
                case = ast.literal_eval(log[8:8 + int(log[:8] or b"0")].decode())
                _G["stop"].value = 1
                yield dict(ev=1, nt=1, st=0, tr=0, tc=0, outs=set(), samples=[], done=False,
                           viols=[dict(kind="crash", case=case, describe=_G["describe"](case), detail="the process died (exit code %s)" % p.exitcode)])
                r = None
            if r is None:
                p.join()
                c.close()
                del live[c]
            else:
                yield r


def py(res, name, shards, gen, run, cap, describe=str, procs=NPROC, limit=60, maxviol=6, quiet=False):
    """Enumerate every case of every shard, run the real Python code on it (fork per worker)."""
    if ONLY and ONLY[0] != name:
        return
    _REPLAY[name] = (run, describe, quiet)
    if ONLY:
        case = ast.literal_eval(ONLY[1])
        c = guarded(run, case, limit)
        res.evaluations, res.nontrivial = 1, 1
        if c.viol:
            res.violations.append(dict(component=name, kind=c.kind, case=case, describe=describe(case), detail=c.viol))
        return
    ctx = mp.get_context("fork")
    _G.update(gen=gen, run=run, describe=describe, deadline=time.time() + cap, stop=ctx.Value("i", 0), limit=limit, quiet=quiet, log=None)
    shards = list(shards)
    t0 = time.time()
    outs, done, nt, ev = set(), 0, 0, 0
    st0 = (res.states, res.transitions, res.traces)
    for r in _run_shards(shards, procs):
        if "error" in r:
            raise CheckError("component %s: %s" % (name, r["error"]))
        ev += r["ev"]
        nt += r["nt"]
        res.states += r["st"]
        res.transitions += r["tr"]
        res.traces += r["tc"]
        outs |= r["outs"]
        done += r["done"]
        for s in r["samples"]:
            res.sample("%s: %s" % (name, s))
        for v in r["viols"]:
            v["component"] = name
            if len(res.violations) < maxviol:
                res.violations.append(v)
    res.evaluations += ev
    res.nontrivial += nt
    res.distinct += len(outs)
    if done < len(shards):
        res.exhaustive = False
    res.components.append(dict(component=name, evaluations=ev, nontrivial=nt, distinct_outcomes=len(outs), shards=len(shards), shards_done=done,
                               states=res.states - st0[0], transitions=res.transitions - st0[1], wall=round(time.time() - t0, 2)))


_REPLAY = {}
ONLY = None  # (component, case, describe) when one recorded case is replayed


def chunks(n):
    """n shard ids: a generator gen(shard) keeps the cases with index % n == shard."""
    return [(i, n) for i in range(n)]


def pick(it, shard):
    i, n = shard
    for k, c in enumerate(it):
        if k % n == i:
            yield c


# ----------------------------------------------------------------- known findings
def known_findings(pid):
    out = []
    path = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(path):
        with open(path, encoding="utf-8") as fh:
            for line in fh:
                line = line.strip()
                if line.startswith("known: "):
                    d = json.loads(line[len("known: "):])
                    if d["property"] == pid:
                        out.append(d)
    return out


def matches(k, v):
    case = v["case"] if "exe" in v else repr(v["case"])
    if k.get("component") and k["component"] != v["component"]:
        return False
    if k.get("kind") and k["kind"] != v["kind"]:
        return False
    if k.get("case") and k["case"] != case:
        return False
    return True


# ----------------------------------------------------------------- the runner
def confirm(v):
    """Re-run the failing case on its own before it is reported."""
    if "exe" in v:
        e = dict(os.environ, MALLOC_PERTURB_="165")
        e.setdefault("ASAN_OPTIONS", "detect_leaks=0:abort_on_error=1:detect_stack_use_after_return=0")
        for _ in range(20):  # addresses, and so the order of maps keyed by them, differ from run to run
            p = subprocess.run(v["exe"] + ["--replay", v["case"]], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, env=e, cwd=scratch())
            v["replay_output"] = (p.stdout[-1500:] + p.stderr[-1500:])
            if p.returncode != 0:
                return True
        return False
    run, _, quiet = _REPLAY[v["component"]]
    ctx = mp.get_context("fork")
    q = ctx.SimpleQueue()

    def child():
        if quiet:
            hush()
        c = guarded(run, v["case"], 120)
        q.put(c.viol)

    p = ctx.Process(target=child)
    p.start()
    p.join(300)
    if p.is_alive():
        p.kill()
        return True
    if q.empty():
        return True  # the process died: the code under test brought it down
    return bool(q.get())


def main(pid, spec, replay=None):
    global ONLY
    t0 = time.time()
    res = Result()
    try:
        if replay:
            with open(replay, encoding="utf-8") as fh:
                v = json.load(fh)
            ONLY = (v["component"], v["case"], v["describe"])
            spec["run"](res)
        else:
            spec["run"](res)
    except CheckError as e:
        print("CHECK-ERROR %s: %s" % (pid, e))
        return 3
    known = known_findings(pid)
    fresh, old = [], []
    for v in res.violations:
        (old if any(matches(k, v) for k in known) else fresh).append(v)
    reported = []
    for v in fresh:
        if confirm(v):
            reported.append(v)
        else:
            print("CHECK-ERROR %s: violation did not reproduce on replay: %s" % (pid, v["describe"]))
            return 3
    if replay:
        for v in res.violations:
            print("  %s\n    %s" % (v["describe"][:600], v["detail"][:3000]))
        print("REPLAY %s: %s" % (pid, "violated" if res.violations else "held"))
        return 1 if res.violations else 0
    for k in known:
        print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
    wall = time.time() - t0
    cov = {"evaluations": res.evaluations, "distinct_nontrivial": res.distinct,
           "rule": spec["rule"], "samples": res.samples or ["(none)"], "nontrivial_executions": res.nontrivial,
           "exhaustive": res.exhaustive, "components": res.components}
    if spec["level"] == "model_checking":
        cov.update(states=res.states, transitions=res.transitions, traces_validated_against_impl=res.traces)
    ev = {"property": pid, "tier": TIER if TIER in ("quick", "thorough") else "quick", "seed": SEED, "level": spec["level"], "coverage": cov,
          "assumptions": spec.get("assumptions", []), "wall_s": round(wall, 2), "violations": len(reported)}
    os.makedirs(VERIF + "/evidence", exist_ok=True)
    tmp = VERIF + "/evidence/.%s.tmp" % pid
    with open(tmp, "w", encoding="utf-8") as fh:
        json.dump(ev, fh, indent=1, default=str)
    os.replace(tmp, VERIF + "/evidence/%s.json" % pid)
    print("%s %s: %d executions, %d non-trivial, %d distinct outcomes, exhaustive=%s, %.1fs" % (pid, TIER, res.evaluations, res.nontrivial, res.distinct, res.exhaustive, wall))
    if res.evaluations == 0 or (res.nontrivial == 0 and not reported):
        print("CHECK-ERROR %s: nothing was explored" % pid)
        return 3
    if reported:
        os.makedirs(VERIF + "/replays", exist_ok=True)
        for v in reported[:3]:
            h = hashlib.sha256((pid + v["component"] + repr(v["case"])).encode()).hexdigest()[:12]
            path = VERIF + "/replays/%s-%s.json" % (pid, h)
            with open(path, "w", encoding="utf-8") as fh:
                json.dump(dict(v, case=v["case"] if "exe" in v else repr(v["case"]), property=pid), fh, indent=1, default=str)
            print("  %s [%s] %s\n    %s" % (v["component"], v["kind"], v["describe"][:600], v["detail"][:600]))
            print("VIOLATION property=%s replay=%s" % (pid, path))
        return 1
    return 0

