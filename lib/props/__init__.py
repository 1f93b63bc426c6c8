"""The checks, one function per property."""
import glob
import importlib
import os

CHECKS = {}
for f in sorted(glob.glob(os.path.join(os.path.dirname(__file__), "p_*.py")), key=lambda f: (f.endswith("p_life.py"), f)):
    m = importlib.import_module("props." + os.path.basename(f)[:-3])
    CHECKS.update(m.CHECKS)
