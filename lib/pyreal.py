"""Make the real Python package of /repo importable, with the real C++ engine when asked for."""
import importlib.machinery
import importlib.util
import os
import sys
import types

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vbuild  # noqa: E402

sys.path.insert(0, vbuild.REPO)

CALLS = []  # (function, positional args, keyword args) of every call that crosses into the extension module
REPLACE = {}  # function name -> stand-in called instead of the real one


def with_engine(flags=("-O1", "-g")):
    d = vbuild.pymodule(flags)
    import pctsp
    if d not in pctsp.__path__:
        pctsp.__path__.append(d)
    return pctsp


def recorded(flags=("-O1", "-g")):
    """The real package, with every call into the extension module recorded in CALLS (and delegated to it)."""
    with_engine(flags)
    name = "pctsp.libpypctsp"
    if name in sys.modules and hasattr(sys.modules[name], "__recording__"):
        return sys.modules[name]
    assert "pctsp.algorithms" not in sys.modules
    real = __import__(name, fromlist=["x"])
    fake = types.ModuleType(name)
    fake.__recording__ = real

    def wrap(fn, f):
        def call(*a, **k):
            CALLS.append((fn, a, k))
            return REPLACE[fn](*a, **k) if fn in REPLACE else f(*a, **k)
        return call
    for fn in dir(real):
        if not fn.startswith("__"):
            setattr(fake, fn, wrap(fn, getattr(real, fn)))
    sys.modules[name] = fake
    sys.modules["pctsp"].libpypctsp = fake
    return fake
