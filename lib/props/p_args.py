"""C20 command line parsing."""


def b(s):
    return list(s.encode())


def flat(ts):
    res = []
    for t in ts:
        res += (b(t) if isinstance(t, str) else t) + [0]
    return res


NUMS = ["0", "1", "-1", "7", "10", "11", "-5", "007", "-0", "+3", " 4", "4 ", "", "x", "1x", "0x10", "1e3", "--1", "-", "2147483648", "-2147483649", "9223372036854775807",
        "9223372036854775808", "-9223372036854775808", "-9223372036854775809", "99999999999999999999", "1.5", "1 2"]
WORDS = ["x", "file.txt", "", "a=b", "=", "-", "--", "-x", "--all", "é", "long" * 30, "10", "h", "--help", "-h"]


def declare(rng):
    opts = []
    kinds = [(0, 0), (3, 0), (1, 0), (1, 3), (2, 1), (2, 2)]
    for k in range(rng.choice([0, 1, 2, 4, 6, 9])):
        ty, act = rng.choice(kinds)
        short = rng.choice([0, ord(rng.choice("abcdeiOsx1")), ord(rng.choice("abcd"))])
        long = rng.choice(["", "--" + rng.choice(["all", "alpha", "al", "b", "sort", "int", "file-name"])])
        if not short and not long:
            long = "--opt%d" % k
        d = []
        if rng.random() < .4:
            d = {0: [0] + b(rng.choice(["", "dflt", "x"])), 3: [3] + b(rng.choice(["0", "-7", "42", "9223372036854775807"])),
                 1: [1] + flat(rng.choice([[], ["p"], ["p", "q"]])), 2: [2, rng.randrange(2)]}[ty]
        mn, mx = (b(rng.choice(["", "", "0", "-5", "3"])), b(rng.choice(["", "", "10", "0", "9223372036854775807"]))) if ty == 3 else ([], [])
        opts.append([b(rng.choice(["n%d" % k] * 6 + ["n0"])), short, b(long), ty, act, d, mn, mx])
    return opts


def line(rng, opts):
    ts = []
    for _ in range(rng.choice([0, 1, 1, 2, 3, 4, 6, 12])):
        r = rng.random()
        if opts and r < .8:
            o = rng.choice(opts)
            needs = o[4] in (0, 3)
            val = rng.choice(["1", "5", "3", rng.choice(NUMS)]) if o[3] == 3 else rng.choice(WORDS)
            name = bytes(o[2]).decode() if o[2] and (not o[1] or rng.random() < .5) else "-" + chr(o[1])
            if not needs:
                ts.append(name + rng.choice([""] * 12 + ["=1", "x", "="]))
            elif rng.random() < .5:
                ts += [name, val]
            elif name.startswith("--"):
                ts.append(name + "=" + val)
            else:
                ts.append(name + rng.choice(["", "", "="]) + val)
            if rng.random() < .03:
                ts[-1] = ts[-1][:-1]
        elif r < .87:
            ts.append(rng.choice(["file", "x", "10", "other"]))
        elif r < .9:
            ts.append(rng.choice(["--", "-", "", "-z", "--zzz", "--help", "-h", "--=x", "-=", "---", "-ab"]))
    if rng.random() < .15:
        ts += ["--"] + [rng.choice(WORDS + ["-q"]) for _ in range(3)]
    return flat(ts)


def scenario(rng, n):
    opts = declare(rng)
    ops = [("add", o) for o in opts]
    # what was refused does not count
    ok = []
    for o in opts:
        if not any(o[0] == p[0] or (o[2] and o[2] == p[2]) or (o[1] and o[1] == p[1]) for p in ok):
            ok.append(o)
    for i in range(n):
        if i == n // 2 or (i == 0 and rng.random() < .5):
            ops.append(("permit", []))
        if rng.random() < .1:
            ops.append(("again", [line(rng, ok), line(rng, ok)]))
        else:
            ops.append(("parse", [line(rng, ok)]))
    return ops


def c20(c):
    c.mc("ArgMC", consts={"MaxLen": c.pick(3, 4), "Small": "TRUE"})
    c.mc("ArgMC", consts={"MaxLen": c.pick(2, 3), "Small": "FALSE"})
    by = {}
    for g in c.gen("ArgGen", consts={"MaxT": c.pick(2, 3)}):
        by.setdefault(str(g[:5]), list(g[:5])).append(g[5])
    sc = []
    for ops in by.values():
        for i in range(5, len(ops), 40):
            sc.append((0, ops[:5] + ops[i:i + 40]))
    for i in range(c.pick(250, 5000)):
        sc.append((0, scenario(c.rng, 25)))
    c.conform("args", "ArgTrace", sc, label="command lines")


CHECKS = {"C20": c20}
