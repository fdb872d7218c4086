"""Developer aid (not a check): build and run the repository's own C++ gtests against the shim."""
import glob, os, subprocess, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vbuild
fl = ["-O1", "-g"]
srcs = vbuild.repo_sources() + [vbuild.VERIF + "/shim/objscip.cpp"]
tests = sorted(glob.glob(vbuild.REPO + "/tests/*.cpp"))
tf = fl + ["-I" + vbuild.REPO + "/tests"]
objs = vbuild.compile_many(srcs, fl) + vbuild.compile_many(tests, tf)
exe = vbuild.link(objs, "gtests", ["-lgtest", "-lgtest_main", "-Wl,--no-as-needed"])
print(exe)
