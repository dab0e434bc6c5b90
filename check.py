"""python check.py P01 [--tier quick|thorough] [--replay FILE [--jit]]"""
import argparse
import os
import subprocess
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
from pbt import core  # noqa: E402

ap = argparse.ArgumentParser()
ap.add_argument("property")
ap.add_argument("--tier")
ap.add_argument("--replay")
ap.add_argument("--jit", action="store_true")
a = ap.parse_args()
if a.replay:
    import tempfile
    with tempfile.TemporaryDirectory() as wd:
        sys.exit(subprocess.run(
            [sys.executable, "-m", "pbt.core", "replay", a.property,
             os.path.abspath(a.replay)], cwd=wd,
            env=core.env_for("jit" if a.jit else "interp", wd)).returncode)
sys.exit(core.run(a.property, a.tier))
