"""C29 the programs in tools/."""
import concurrent.futures as cf
import json
import os
import shutil
import struct
import subprocess
import vlib
from props import p_args, p_frozen, p_fs

SORTS = ["sorttest", "stablesorttest", "radixsorttest"]


class Runner:
    def __init__(self, c):
        self.c = c
        self.exe = {n: c.builder.tool(n) for n in SORTS + ["wordsort", "wordcount", "globber", "argparse"]}
        self.env = dict(os.environ, ASAN_OPTIONS=vlib.ASAN, LC_ALL="C.UTF-8", MALLOC_PERTURB_="165")

    def call(self, tool, args, cwd, most=20000):
        try:
            r = subprocess.run([self.exe[tool]] + args, cwd=cwd, env=self.env, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE,
                               stderr=subprocess.PIPE, timeout=30)
        except subprocess.TimeoutExpired:
            return 4, [1027]
        if r.returncode < 0 and b"terminate called" not in r.stderr or b"Sanitizer" in r.stderr:
            return 2, [1000 - r.returncode if r.returncode < 0 else r.returncode]
        return 0, [abs(r.returncode)] + list(r.stdout[:most])

    def scenario(self, item):
        sid, (w, ops) = item
        d = os.path.join(self.c.work, "tools_%d" % sid)
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d + "/t")
        ev = []
        for o, a in ops:
            x, r = 0, []
            if o in ("wordsort", "wordcount"):
                with open(d + "/in", "wb") as f:
                    f.write(bytes(a[0]))
                x, r = self.call(o, [d + "/in"], d)
            elif o == "wordcountn":
                ws = [bytes(w) for w, n in zip(a[0], a[1]) for _ in range(n)]
                __import__("random").Random(a[2]).shuffle(ws)
                with open(d + "/in", "wb") as f:
                    f.write(b" ".join(ws) + b"\n")
                x, r = self.call("wordcount", [d + "/in"], d)
            elif o == "wordsn":
                ws = [b"%x" % (n * 7919) for n in range(a[1])]
                __import__("random").Random(a[2]).shuffle(ws)
                with open(d + "/in", "wb") as f:
                    f.write(b"\n".join(ws))
                x, r = self.call(["wordsort", "wordcount"][a[0]], [d + "/in"], d, 1 << 30)
                if not x:
                    l = bytes(r[1:]).split(b"\n")[:-1]
                    k = l if a[0] == 0 else [-len(t) for t in l]
                    r = [r[0], len(l), len(set(l) & set(ws if a[0] == 0 else [b"1 " + w for w in ws])), int(k == sorted(k))]
            elif o == "missing":
                x, r = self.call(["wordsort", "wordcount"][a[0]], [d + "/nothing"], d)
            elif o in ("sort", "sortn"):
                v = a[1]
                if o == "sortn":
                    v = list(range(a[1]))
                    __import__("random").Random(a[2]).shuffle(v)
                with open(d + "/random.dat", "wb") as f:
                    f.write(struct.pack("%dQ" % len(v), *v))
                x, r = self.call(SORTS[a[0]], [], d)
            elif o == "args":
                x, r = self.call("argparse", [os.fsdecode(t) for t in bytes(a[0]).split(b"\0")[:-1]], d)
            elif o == "tree":
                for k, n in entries(a[0]):
                    p = os.fsencode(d + "/t/") + n
                    if k == 2:
                        os.mkdir(p)
                    elif k == 3:
                        os.symlink("nowhere", p)
                    else:
                        open(p, "wb").close()
            elif o == "globber":
                x, r = self.call("globber", [os.fsdecode(bytes(a[0]))], d + "/t")
            ev.append({"o": o, "a": a, "x": x, "r": r, "p": []})
            if x:
                break
        shutil.rmtree(d, ignore_errors=True)
        return json.dumps({"id": sid, "w": w, "ev": ev}, separators=(",", ":"))

    def run(self, sc):
        with cf.ThreadPoolExecutor(8) as ex:
            return list(ex.map(self.scenario, sc))


def entries(t):
    i = 0
    while i < len(t):
        k = t.index(0, i + 1)
        yield t[i], bytes(t[i + 1:k])
        i = k + 1


def text(rng, k):
    al = rng.choice([["a", "b", "ab", "ba", "aa"], ["x%d" % i for i in range(12)], ["a", "A", "é", "€uro", "z" * 40, "zz", "~"]])
    return "".join(rng.choice(al) + rng.choice([" ", " ", "\n", "  ", "\t", " \r\n", "", "\n\n"]) for _ in range(k)).encode()


def tokens(rng):
    ts = []
    for _ in range(rng.choice([0, 1, 1, 2, 3, 5])):
        v = rng.choice(["1", "9", "0", "10", "-1", "x", "", "a=b", "long value", "-v"])
        o = rng.choice(["--foo", "--bar", "--size", "--include", "-I", "-v", "--zzz", "word", "--", "-h"]) if rng.random() < .3 else \
            rng.choice(["--foo", "--bar", "--size", "--include", "-I", "-v"])
        if o in ("--foo", "--bar", "--size", "--include", "-I"):
            v = rng.choice(["1", "5", "9", v]) if o == "--size" else v
            ts += rng.choice([[o, v], [o + "=" + v] if o[1] == "-" else [o + v], [o, v], [o]])
        else:
            ts.append(o)
    return p_args.flat(ts)


def c29(c):
    rng = c.rng
    sc = [(0, x) for x in group(c.gen("ToolGen", consts={"MaxT": c.pick(3, 4), "MaxN": c.pick(3, 4)}), 20)]
    for i in range(c.pick(20, 400)):
        ops = []
        for _ in range(12):
            r = rng.random()
            if r < .4:
                t = text(rng, rng.choice([1, 3, 10, 30]))
                if rng.random() < .15:
                    t = t[:3] + bytes([rng.choice([0xff, 0x80, 0xc3, 0xed])]) + t[3:]
                ops.append((rng.choice(["wordsort", "wordcount"]), [list(t)]))
            elif r < .43:
                ops.append(("missing", [rng.randrange(2)]))
            elif r < .6:
                v = list(range(rng.choice([1, 2, 5, 17, 40, 100])))
                rng.shuffle(v)
                if rng.random() < .2:
                    v[rng.randrange(len(v))] = rng.choice([0, 1, 1000])
                ops.append(("sort", [rng.randrange(3), v]))
            elif r < .65:
                ops.append(("sortn", [rng.randrange(3), rng.choice([300, 5000, 70000]), rng.randrange(1000)]))
            else:
                ops.append(("args", [tokens(rng)]))
        sc.append((0, ops))
    for i in range(c.pick(3, 30)):
        big = text(rng, rng.choice([200, 600]))
        sc.append((0, [("wordsort", [list(big)]), ("wordcount", [list(big)])]))
    for i in range(c.pick(12, 100)):
        # numbers of occurrences around the limits of small integers
        ws = [list(w) for w in rng.sample([b"a", b"b", b"ab", b"ba", b"often", b"rare", b"x" * 40, "é".encode()], rng.randint(1, 6))]
        base = [1, 2, 127, 128, 255, 256, 257, 32767, 32768, 65535, 65536, 65537, 70000][i % 13]
        ns = [base] + [rng.choice([1, 2, 100, 127, 128, 129, 130, 255, 256, 257, 300, base, base + 1, base + 128, base + 256]) for _ in ws[1:]]
        sc.append((0, [("wordcountn", [ws, ns, i])]))
    for i, n in enumerate([1000, 70000] + c.pick([], [3, 100, 65535, 65536, 65537, 300000])):
        sc += [(0, [("wordsn", [k, n, i])]) for k in (0, 1)]
    n = 0
    while n < c.pick(25, 400):
        ops = p_frozen.globs([(o, a[:2] + [0] if o == "glob" and not a[0] else a) for o, a in p_fs.glob_scn(rng, 40) if o == "tree" or not a[0]])
        ops = [ops[0]] + [("globber", [a[1]]) for o, a in ops[1:] if bytes(a[1])][:12]
        if len(ops) > 1:
            sc.append((0, ops))
            n += 1
    sc = list(enumerate(sc, 1))
    run = Runner(c)
    c.judge_lines(run.run, "ToolTrace", sc, label="bundled programs")


def group(g, k):
    g = [op for x in g for op in x]
    return [g[i:i + k] for i in range(0, len(g), k)]


CHECKS = {"C29": c29}
