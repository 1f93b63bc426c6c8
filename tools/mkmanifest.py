#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json: every property with a check in lib/props is claimed."""
import json
import os
import sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "lib"))
sys.dont_write_bytecode = True
import props  # noqa: E402
from mkproperties import P  # noqa: E402

NOTES = getattr(props, "LEVEL_NOTES", {})
checks, na = [], []
for d in P:
    pid = d["id"]
    if pid in props.CHECKS:
        checks.append({
            "property": pid,
            "quick_cmd": "python3 bin/check.py %s quick" % pid,
            "thorough_cmd": "python3 bin/check.py %s thorough" % pid,
            "technique": "TLA+ specification model-checked with TLC; TLC-generated behaviours replayed in the real library and recorded traces validated by TLC",
            "level": "model_checking",
            "level_note": NOTES.get(pid, "The specification is model-checked exhaustively within its bounds; the code is bound to it by conformance on the generated and seeded random behaviours counted in the evidence file. Trusted: the driver's projection, TLC, the compiler and sanitizer."),
        })
    else:
        na.append({"property": pid, "reason": "no check yet (specification in progress)"})
m = {"version": 1, "setup_cmd": "python3 bin/setup.py", "checks": checks, "not_applicable": na,
     "notes": "TLA+ checked with TLC. No hooks are needed in /repo: everything is observed through the public interface, with instrumented element types, allocator hooks of the sanitizer runtime and scratch directories."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
