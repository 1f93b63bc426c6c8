#!/usr/bin/env python3
"""Development aid: which lines of the repository the replayed behaviours reach.
usage: tools/coverage.py OUTDIR EPOCH [ID...]   (runs the checks ID..., then lists unreached code)"""
import glob
import os
import re
import subprocess
import sys

out, epoch, ids = sys.argv[1], sys.argv[2], sys.argv[3:]
os.makedirs(out, exist_ok=True)
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
for i in ids:
    p = subprocess.run([sys.executable, root + "/bin/check.py", i], env=dict(os.environ, VERIF_COV=out), stdout=subprocess.PIPE)
    print(p.stdout.decode().strip().split("\n")[-1], file=sys.stderr)
subprocess.run(["llvm-profdata-20", "merge", "-o", out + "/all.profdata"] + glob.glob(out + "/*.profraw"), check=True)
hit, text = {}, {}
for exe in glob.glob(out + "/*.%s.*" % epoch):
    t = subprocess.run(["llvm-cov-20", "show", exe, "-instr-profile=" + out + "/all.profdata", "-show-instantiations=false"],
                       stdout=subprocess.PIPE, stderr=subprocess.DEVNULL).stdout.decode(errors="replace")
    f = None
    for l in t.split("\n"):
        m = re.match(r"^(/\S+):$", l)
        if m:
            f = m.group(1)
        m = re.match(r"^\s*(\d+)\|\s*(\S*)\|(.*)$", l)
        if m and f and epoch in os.path.basename(f) and "tables" not in f:
            k = (os.path.basename(f), int(m.group(1)))
            text[k] = m.group(3)
            if m.group(2):
                hit[k] = hit.get(k, False) or m.group(2) != "0"
for k in sorted(text):
    s = text[k].strip()
    if hit.get(k) is False:
        print("unreached", k[0], k[1], text[k][:110])
    elif k not in hit and not s.startswith(("//", "template", "concept")) and re.search(r"\) (const |noexcept )*(\{|:)|return .*;", s):
        print("uninstantiated", k[0], k[1], text[k][:110])
