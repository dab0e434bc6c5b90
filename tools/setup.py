"""Offline self-test: the interpreter, Hypothesis and the code under test."""
import os
import subprocess
import sys
import tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, VERIF)
sys.dont_write_bytecode = True
from pbt import core  # noqa: E402

h = core.hypothesis()
print("hypothesis", h.__version__)
with tempfile.TemporaryDirectory() as wd:
    r = subprocess.run(
        [sys.executable, "-c",
         "from pbt import core, shim, lab\n"
         "core.load_property('P06')\n"
         "lab.make_build({})\nshim.say('ready', shim.MODE)"],
        cwd=wd, env=core.env_for("interp", wd), capture_output=True, text=True)
    print(r.stdout.strip() or r.stderr[-2000:])
for d in ("evidence", "replays"):
    os.makedirs(os.path.join(VERIF, d), exist_ok=True)
sys.exit(0)
