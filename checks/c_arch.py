"""Archiving experiments: every history of zipping, unzipping, changing and removing directories."""
import itertools
import os
import shutil
from pathlib import Path

import core
from checks import c_run
from checks.c_lab import tmp
from checks.c_tab import command

EXPS = ("dryrun", "cost_cover", "onerun")
TREES = (
    {"experiment.json": b"{}"},
    {"experiment.json": b'{"vials": []}', "v1/v1.json": bytes(range(256)), "v1/logs/scip.log": b"", "v2/": None},
    {".hidden/.file": b"h", "experiment.json": bytes(i * i % 251 for i in range(150000)), "x/y/z/": None, "x/w.zip": b"PK", **{"many/%d/f" % i: b"%d" % i for i in range(40)}},
    {"a/b/c/d.txt": b"deep\r\n\x1a", "empty": b"", "name with spaces.json": "\u00e9".encode()},
)


def write(d, tree):
    for k, v in tree.items():
        p = d / k
        if v is None:
            p.mkdir(parents=True, exist_ok=True)
        else:
            p.parent.mkdir(parents=True, exist_ok=True)
            p.write_bytes(v)


def read(d):
    out = {}
    for base, dirs, files in os.walk(d):
        rel = os.path.relpath(base, d)
        for f in files:
            out[os.path.normpath(os.path.join(rel, f))] = (Path(base) / f).read_bytes()
        if not dirs and not files and base != str(d):
            out[rel + "/"] = None
    return out


def clean(tree):
    return dict(tree)


def ops():
    out = []
    for names in ((0,), (1,), (0, 1), (1, 0), (0, 0)):
        out += [("zip", names), ("unzip", names)]
    out += [("change", 0), ("remove", 0), ("remove", 1), ("add", 0)]
    return out


def step(op, arg, dirs, zips):
    """The states after op, or None if a file it needs is not there."""
    dirs, zips = {k: dict(v) for k, v in dirs.items()}, {k: dict(v) for k, v in zips.items()}
    if op == "zip":
        for i in arg:
            if i not in dirs:
                return None
            zips[i] = dict(dirs[i])
    elif op == "unzip":
        for i in arg:
            if i not in zips:
                return None
            cur = dirs.get(i, {})
            cur = {k: v for k, v in cur.items() if not any(k.endswith("/") and z.startswith(k) and z != k for z in zips[i])}
            cur.update({k: v for k, v in zips[i].items() if not (v is None and any(c.startswith(k) for c in cur))})
            dirs[i] = cur
    elif op == "remove":
        if arg not in dirs:
            return None
        dirs.pop(arg)
    elif arg not in dirs:
        return None
    elif op == "change":
        dirs[arg]["experiment.json"] = b"changed %d" % len(dirs[arg].get("experiment.json", b""))
    else:
        dirs[arg]["extra/%d.txt" % len(dirs[arg])] = b"x" * len(dirs[arg])
    return dirs, zips


def run_history(case):
    from pctsp.apps import utils_app as U
    from pctsp.vial import DatasetName, ExperimentName
    ds, t0, t1, hist, cli = case
    other = [x.value for x in DatasetName if x.value != ds][0]
    with tmp() as t:
        lab = Path(t)
        dirs, zips = {0: dict(TREES[t0]), 1: dict(TREES[t1])}, {}
        rest = {"results.json": b"keep"}
        for i, tree in dirs.items():
            write(lab / ds / EXPS[i], tree)
        write(lab / ds / EXPS[2], rest)
        write(lab / other / EXPS[0], rest)
        cwd = os.getcwd()
        for k, (op, arg) in enumerate(hist):
            nxt = step(op, arg, dirs, zips)
            names = [ExperimentName(EXPS[i]) for i in arg] if op in ("zip", "unzip") else None
            if names:
                fn = U.zip_experiments if op == "zip" else U.unzip_experiments
                words = ["utils", op, ds] + [EXPS[i] for i in arg]
            if nxt is None:
                if names:
                    try:
                        if command(cli, fn, (DatasetName(ds), names, lab), words, LAB_DIR=lab):
                            raise RuntimeError("exit code")
                    except Exception:  # a missing directory or archive is an error
                        return core.Case(outcome=("error", op), states=k + 1, transitions=k + 1, traces=1)
                    return core.Case("after %s, %s of something that is not there reports success" % (hist[:k], op), "missing")
                return core.Case(outcome="disabled", nontrivial=False)
            if names:
                msg = command(cli, fn, (DatasetName(ds), names, lab), words, LAB_DIR=lab)
                if msg:
                    return core.Case("after %s, %s %s fails: %s" % (hist[:k], op, arg, msg), "failed")
            elif op == "remove":
                shutil.rmtree(lab / ds / EXPS[arg])
            else:
                write(lab / ds / EXPS[arg], {x: v for x, v in nxt[0][arg].items() if dirs[arg].get(x, 0) != v})
            dirs, zips = nxt
            got = read(lab)
            want = {"%s/%s/%s" % (ds, EXPS[i], x): v for i, tree in dirs.items() for x, v in tree.items()}
            want.update({"%s/%s/results.json" % (ds, EXPS[2]): b"keep", "%s/%s/results.json" % (other, EXPS[0]): b"keep"})
            arch = {x for x in got if x.endswith(".zip") and x.count("/") < 2}
            got = {x: v for x, v in got.items() if x not in arch}
            if got != want:
                diff = sorted(x for x in set(got) | set(want) if got.get(x, 0) != want.get(x, 0))
                return core.Case("after %s the files %s differ from what was archived" % (hist[:k + 1], diff), "files")
            if arch != {"%s/%s.zip" % (ds, EXPS[i]) for i in zips}:
                return core.Case("after %s the archives are %s" % (hist[:k + 1], sorted(arch)), "archives")
            if os.getcwd() != cwd:
                return core.Case("after %s the working directory is another one" % (hist[:k + 1],), "cwd")
    return core.Case(outcome=case, states=len(hist), transitions=len(hist), traces=1)


def gen(shard):
    def it():
        depth = 4 if core.THOROUGH else 3
        for ds in ("tspwplib", "londonaq"):
            for k in range(1, depth + 1):
                for hist in itertools.product(ops(), repeat=k):
                    if k < depth or hist[-1][0] in ("zip", "unzip"):
                        for t0, t1 in ((0, 1), (1, 3)) if k > 2 else itertools.product(range(4), repeat=2):
                            yield (ds, t0, t1, hist, len(hist) < 3 and t0 == t1 or sum(map(len, map(str, hist))) % 7 == 0)
    return core.pick(it(), shard)


def run(res):
    c_run.setup()
    import pctsp.apps.main_app  # noqa: F401
    import pctsp.apps.utils_app  # noqa: F401
    core.py(res, "histories", core.chunks(32), gen, run_history, 250, quiet=True)
