#!/usr/bin/env python3
"""Nothing is installed: check that the tools are there and make the ignored directories."""
import os
import shutil
import sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
for d in (".build", "evidence"):
    os.makedirs(os.path.join(V, d), exist_ok=True)
missing = [t for t in ("java", "/usr/bin/clang++-20") if shutil.which(t) is None]
if not os.path.exists("/opt/veriftools/tla/tla2tools.jar"):
    missing.append("tla2tools.jar")
if missing:
    print("missing tools:", missing)
    sys.exit(1)
print("ok")
