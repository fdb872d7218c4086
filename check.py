#!/opt/vp/venv/bin/python
"""check.py <PROPERTY> [--tier quick|thorough] [--replay FILE]: decide one property on /repo's working tree."""
import os
import sys

args = sys.argv[1:]
pid = args[0]
if "--tier" in args:
    os.environ["VERIF_TIER"] = args[args.index("--tier") + 1]
os.environ.setdefault("PYTHONDONTWRITEBYTECODE", "1")
os.environ["PYTHONHASHSEED"] = os.environ.get("PYTHONHASHSEED", "0")
sys.dont_write_bytecode = True
here = os.path.dirname(os.path.abspath(__file__))
if os.environ.get("VERIF_REEXEC") != "1":
    os.environ["VERIF_REEXEC"] = "1"
    os.execv("/opt/vp/venv/bin/python", ["/opt/vp/venv/bin/python", os.path.abspath(__file__)] + args)
sys.path.insert(0, os.path.join(here, "lib"))
sys.path.insert(0, here)
import core  # noqa: E402
from checks import spec  # noqa: E402

replay = args[args.index("--replay") + 1] if "--replay" in args else None
sys.exit(core.main(pid, spec(pid), replay))
