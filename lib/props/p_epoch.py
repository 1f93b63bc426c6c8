"""F05 editions side by side, and the edition the release script makes."""
import concurrent.futures as cf
import json
import os
import re
import shutil
import subprocess
import vlib
from props import CHECKS as ALL
from props.p_life import Collect

TEXTS = [b"", b"abc", "é".encode(), "aé".encode(), "Straße".encode(), "ßé".encode(), b"Z z"]


def copy_repo(c):
    d = os.path.join(c.work, "edition")
    for s in ("include", "src", "devtools"):
        shutil.copytree(os.path.join(vlib.REPO, s), os.path.join(d, s), ignore=shutil.ignore_patterns("__pycache__"))
    os.mkdir(os.path.join(d, "test"))
    before = {f: open(f, "rb").read() for f in files(d)}
    r = subprocess.run(["python3", "-B", "-c", "import sys; sys.path.insert(0, 'devtools'); import new_epoch; new_epoch.create_epoch('2026', '2027')"],
                       cwd=d, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=120)
    why = "" if r.returncode == 0 else r.stdout.decode(errors="replace")[-300:]
    for f, t in before.items():
        if not os.path.exists(f) or open(f, "rb").read() != t:
            why = why or "changed " + os.path.relpath(f, d)
    # The drivers, for the new edition.
    h = os.path.join(c.work, "harness27")
    os.mkdir(h)
    for f in os.listdir(vlib.HARNESS):
        t = open(os.path.join(vlib.HARNESS, f)).read()
        with open(os.path.join(h, f), "w") as o:
            o.write(t if f == "epochs.cpp" else t.replace("pystd2026", "pystd2027").replace("EPOCH == 2026", "EPOCH == 2027"))
    return d, h, why


def files(d):
    return [os.path.join(p, f) for p, _, fs in os.walk(d) for f in fs]


class Editions(vlib.Builder):
    """Compiles against the copy; programs are linked with all three editions."""
    editions = (2025, 2026, 2027)

    def lib(self, epoch, san):
        res = []
        for e in self.editions:
            o = vlib.Builder.lib(self, e, san)
            res += o if not res else o[1:]
        return res


def f05(c):
    # That the current edition builds is not in question here.
    with cf.ThreadPoolExecutor(1) as ex:
        base = ex.submit(lambda: [x.result() for e in (2025, 2026) for x in c.builder.lib(e, "address")])
        d, h, why = copy_repo(c)
        w = os.path.join(c.work, "b27")
        os.mkdir(w)
        vlib.SOURCES[2027] = [s.replace("2026", "2027") for s in vlib.SOURCES[2026]]
        b = Editions(w)
        b.repo, b.harness = d, h
        base.result()
    with open(os.path.join(w, "pystd_config.hpp"), "a") as f:
        f.write("#define PYSTD2027_HAS_REGEX\n")
    try:
        b.driver("epochs", 2027, defs=("THIRD",))
        b.driver("vec", 2027)
    except vlib.CheckError as ex:
        # Only if the same programs can be made with the editions there are is it the new one that fails.
        w2 = os.path.join(c.work, "b26")
        os.mkdir(w2)
        b2 = Editions(w2)
        b2.editions = (2025, 2026)
        b2.driver("epochs", 2026)
        b2.driver("vec", 2026)
        why = why or str(ex)
    if why:
        print(why[:1500])
    mark = {"o": "made", "a": [], "x": 1 if why else 0, "r": [], "p": []}
    line = json.dumps({"id": 1, "w": 0, "ev": [mark]}, separators=(",", ":"))
    c.judge_lines(lambda s: [line], "EpochTrace", [(1, (0, [("made", [])]))], label="release script " + why)
    if why:
        return
    c.builder = b
    sc = [(0, x) for x in c.gen("EpochGen", consts={"Depth": 3}, limit=c.pick(6000, None))]
    rng = c.rng
    for i in range(c.pick(200, 4000)):
        ops = []
        n = [0] * 3
        for _ in range(rng.choice([10, 40, 100])):
            e = rng.randrange(3)
            g = rng.choice([x for x in range(3) if x != e])
            o = rng.choice(["push", "push", "push", "pop", "sort", "take", "put", "put", "text", "taketext", "upper", "fail"])
            if o == "push":
                n[e] += 1
                ops.append((o, [e, rng.randint(-50, 50)]))
            elif o == "pop" and n[e]:
                n[e] -= 1
                ops.append((o, [e]))
            elif o == "sort" or o == "upper":
                ops.append((o, [e]))
            elif o == "take" and n[g] < 60 and n[e] < 60:
                n[e] += n[g]
                ops.append((o, [e, g]))
            elif o == "put":
                ops.append((o, [e, rng.randrange(12), rng.randrange(100)]))
            elif o == "text":
                ops.append((o, [e, list(rng.choice(TEXTS))]))
            elif o == "taketext":
                ops.append((o, [e, g]))
            elif o == "fail":
                ops.append((o, [e, rng.randrange(2)]))
        sc.append((0, ops))
    c.conform("epochs", "EpochTrace", sc, epoch=2027, defs=("THIRD",), label="editions side by side")
    # The new edition by the specifications of the one it was made from.
    def one(pid):
        k = Collect(c, pid)
        ALL[pid](k)
        return k.got

    with cf.ThreadPoolExecutor(6) as ex:
        got = sum(ex.map(one, ["C01", "C12", "C05", "C18", "C20", "C21"]), [])
    for driver, sc, label, kw, module in got:
        n = c.pick(250, 4000)
        if len(sc) > n:
            sc = rng.sample(sc, n)
        c.conform(driver, module, sc, label="2027 " + label, **dict(kw, epoch=2027))


CHECKS = {"F05": f05}
