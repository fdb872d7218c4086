"""Build the real C++ sources of /repo (current working tree) with the SCIP/pybind11 shim headers.

Objects are cached in /verif/build keyed by the content of the source, every header of
/repo/include, every shim header and the flags, so nothing stale is ever linked.
"""
import concurrent.futures as cf
import glob
import hashlib
import os
import subprocess
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, "build"))
PY = "/opt/vp/venv/bin/python"
SCIPDIR = "/opt/vp/venv/lib/python3.12/site-packages/pyscipopt.libs"
BASE = ["-std=c++17", "-fPIC", "-w", "-DBOOST_LOG_DYN_LINK", "-D_GLIBCXX_ASSERTIONS",
        "-I/usr/include/python3.12", "-I" + VERIF + "/shim", "-I" + REPO + "/include", "-I" + VERIF + "/harness"]
LIBS = ["-lboost_graph", "-lboost_log", "-lboost_log_setup", "-lboost_thread",
        "-lboost_filesystem", "-lyaml-cpp", "-lpthread"]


def scip_lib():
    c = sorted(glob.glob(SCIPDIR + "/libscip-*.so*"))
    if not c:
        sys.stderr.write("ERROR: no libscip in %s\n" % SCIPDIR)
        sys.exit(3)
    return c[0]


def _digest_tree(root, h, exts=None):
    for d, ds, fs in sorted(os.walk(root)):
        ds.sort()
        for f in sorted(fs):
            if exts and not f.endswith(exts):
                continue
            p = os.path.join(d, f)
            h.update(os.path.relpath(p, root).encode())
            with open(p, "rb") as fh:
                h.update(fh.read())


_HDR = None


def header_digest():
    global _HDR
    if _HDR is None:
        h = hashlib.sha256()
        _digest_tree(REPO + "/include", h)
        _digest_tree(VERIF + "/shim", h)
        _digest_tree(VERIF + "/harness", h, (".hh", ".h"))
        _HDR = h.hexdigest()
    return _HDR


def run(cmd):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        sys.stderr.write(" ".join(cmd)[:1500] + "\n" + r.stdout[:3000] + "\n")
        sys.stderr.write("BUILD-ERROR: compilation failed: %s\n" % cmd[-1])
        sys.stderr.flush()
        os._exit(3)


def compile_one(src, flags):
    h = hashlib.sha256()
    h.update(header_digest().encode())
    h.update("\0".join(flags + BASE).encode())
    with open(src, "rb") as fh:
        h.update(fh.read())
    h.update(src.encode())
    os.makedirs(BUILD + "/obj", exist_ok=True)
    out = "%s/obj/%s-%s.o" % (BUILD, os.path.basename(src), h.hexdigest()[:24])
    if not os.path.exists(out):
        tmp = out + ".%d.tmp" % os.getpid()
        run(["g++"] + BASE + flags + ["-c", src, "-o", tmp])
        os.replace(tmp, out)
    return out


def repo_sources():
    # pygraph.cpp is not part of the library target in src/CMakeLists.txt
    return [s for s in sorted(glob.glob(REPO + "/src/*.cpp")) if not s.endswith("/pygraph.cpp")]


def compile_many(srcs, flags):
    with cf.ThreadPoolExecutor(max_workers=os.cpu_count() or 8) as ex:
        return list(ex.map(lambda s: compile_one(s, flags), srcs))


def link(objs, out_stem, extra, shared=False):
    h = hashlib.sha256("\0".join(objs + extra).encode()).hexdigest()[:24]
    os.makedirs(BUILD + "/bin", exist_ok=True)
    if shared:
        d = "%s/bin/%s-%s" % (BUILD, out_stem, h)
        os.makedirs(d, exist_ok=True)
        out = "%s/%s.so" % (d, out_stem)
    else:
        out = "%s/bin/%s-%s" % (BUILD, out_stem, h)
    if not os.path.exists(out):
        tmp = out + ".%d.tmp" % os.getpid()
        run(["g++"] + (["-shared"] if shared else []) + objs + ["-o", tmp] + extra +
            [scip_lib(), "-Wl,-rpath," + SCIPDIR, "-Wl,--allow-shlib-undefined"] + LIBS)
        os.replace(tmp, out)
    return out


def harness(name, flags=("-O1", "-g"), link_flags=(), only=None, extra_src=()):
    """Executable from /verif/harness/<name>.cpp + every source of the real library."""
    flags = list(flags)
    srcs = repo_sources() if only is None else [REPO + "/src/%s.cpp" % s for s in only]
    srcs = srcs + [VERIF + "/shim/objscip.cpp", VERIF + "/harness/%s.cpp" % name] + list(extra_src)
    objs = compile_many(srcs, flags)
    san = [f for f in flags if f.startswith("-fsanitize")]
    return link(objs, name, san + list(link_flags))


def pymodule(flags=("-O1", "-g")):
    """libpypctsp extension module from the real pctsp/pypctsp.cpp; returns its directory."""
    flags = list(flags)
    srcs = repo_sources() + [VERIF + "/shim/objscip.cpp", REPO + "/pctsp/pypctsp.cpp"]
    so = link(compile_many(srcs, flags), "libpypctsp", [], shared=True)
    return os.path.dirname(so)


def extmodule(name, flags=("-O1", "-g")):
    """Python extension module from /verif/harness/<name>.cpp and the real library; returns its directory."""
    srcs = repo_sources() + [VERIF + "/shim/objscip.cpp", VERIF + "/harness/%s.cpp" % name]
    return os.path.dirname(link(compile_many(srcs, list(flags)), name, [], shared=True))


if __name__ == "__main__":
    print(pymodule())
