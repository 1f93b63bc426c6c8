"""C24 ranges and loop views, C25 formatting and numbers, C27 hashing, C28 spans."""
from props.p_view import group

LIM = 10**9
NAN, NEGZ = 999999999, 888888888
NEAR, HUGE = 500000000, 600000000  # neighbouring numbers, the largest numbers


def range_ops(rng, k):
    ops = []
    while len(ops) < k:
        small = rng.random() < .7
        if small:
            b, e, t = rng.randint(-40, 40), rng.randint(-40, 40), rng.choice([1, 1, 2, 3, 7, 40, 100, -1, -2, -3, -7, -100, 0])
        else:
            v = [LIM, LIM - 1, LIM - 5, -LIM, -LIM + 1, -LIM + 4, 0, 3, -3]
            b, e, t = rng.choice(v), rng.choice(v), rng.choice(v + [1, 2, 5, -1, -4])
        form = rng.choice([1, 2, 3, 3, 3])
        ops.append(("mk", [b, e, t, form]))
        for _ in range(rng.randint(1, 6)):
            ops.append((rng.choice(["next", "next", "copy"]), []))
        if small and (t or form != 3):
            ops.append((rng.choice(["loop", "loopsume"]), []))
            ops.append(("next", []))
        if rng.random() < .3:
            ops.append(("enum", [[rng.randint(0, 50) for _ in range(rng.choice([0, 1, 2, 5, 30]))]]))
    return ops


def steps_ok(ops):
    """The 64 bit limits are modelled by +-10^9; keep the steps from crossing the gap in between, where the
    encoding does not commute with the addition."""
    res, keep = [], True
    for o, a in ops:
        if o == "mk":
            b, e, t = a[:3]
            if a[3] != 3:
                b, t = (0 if a[3] == 1 else b), 1
            big = [abs(x) > LIM // 2 for x in (b, e, t)]
            # From a value near one limit towards the other side of the gap, or a small value with a huge
            # end: only with few steps (never enumerated), which stays exact as long as values do not jump
            # between the neighbourhoods; a huge step jumps there by definition.
            keep = not big[2] or (not big[0]) or (b > 0) == (t > 0)
        if keep:
            res.append((o, a))
    return res


def c24(c):
    sc = [(0, b) for b in c.gen("RangeGen", consts={"Depth": c.pick(3, 5)})]
    sc = [(w, ops) for w, ops in ((w, steps_ok(b)) for w, b in sc) if ops]
    for i in range(c.pick(400, 8000)):
        ops = steps_ok(range_ops(c.rng, 40))
        if ops:
            sc.append((0, ops))
    for n in range(0, 6):
        for k in range(n + 1):
            sc.append((0, [("enum2", [[i * 3 % 7 for i in range(n)], k])]))
    for n in [*range(0, 40), 100, 1000]:
        sc.append((0, [("enum", [[(i * 7) % 50 for i in range(n)]])]))
    for n in (255, 256, 32768, 65535, 65536, 65537, 70000, 200000):
        sc.append((0, [("enumbig", [n]), ("loopbig", [n])]))
    c.conform("misc", "RangeTrace", sc, label="ranges and views")


def fmt_ops(rng, k):
    ops = []
    while len(ops) < k:
        ln = rng.choice([0, 1, 2, 7, 23, 24, 50, 255, 256])
        if rng.random() < .12:
            ln = rng.choice([1000, 1015, 1020, 1021, 1022, 1023, 1024, 1025, 1030, 2047, 2048, 2500])
        t = rng.randrange(10)
        n = rng.choice([0, 1, -1, 9, 10, -10, 99, 100, 12345, 2**31 - 1, -2**31 + 1, rng.randint(-10**6, 10**6)])
        m = rng.choice([0, 1, 2, 5, 10, 11, 12, 40])
        if t == 3 and rng.random() < .2:
            m = rng.choice([340, 341, 342, 511, 512, 1022, 1023, 1024, 3000])
        if t == 4:
            n = rng.choice([0, 1, 65, 255, 128, 37, 10])
        if t == 5 and rng.random() < .3:
            m = rng.choice([1022, 1023, 1024, 1025])
        if t == 6:
            n = abs(n)
        if t == 8:
            ln = min(ln, 1100)
        s = [rng.choice([97, 37, 98, 46, 200, 255, 10, 100]) for _ in range(ln)]
        pre = [rng.choice([65, 66, 37]) for _ in range(rng.choice([0, 0, 1, 5, 30]))]
        ops.append(("fmt", [t, rng.randrange(5), pre, s, n, m]))
    return ops


def c25(c):
    rng = c.rng
    sc = []
    for i in range(c.pick(150, 3000)):
        sc.append((0, fmt_ops(rng, 40)))
    # every output length around the internal buffer, every target
    for tgt in range(5):
        lens = [*range(0, 4), *range(c.pick(1018, 990), c.pick(1030, 1060)), 2046, 2047, 2048, 4095, 4096, 5000]
        sc += [(0, [("fmt", [t, tgt, [65], [97 + i % 23 for i in range(n)], 7, n])]) for n in lens for t in (0, 5)]
    v = [LIM, LIM - 1, -LIM, -LIM + 1, 0, 1, 2, 3, -1, -2, 100]
    box = [(x, lo, hi) for x in v for lo in v for hi in v if lo <= hi]
    sc += group([[("iclamp", t)] for t in box], 60)
    f = [NAN, LIM, -LIM, NEGZ, 0, 1, 2, 3, 4, -1, -3, 40, NEAR, NEAR + 1, NEAR + 2, HUGE, HUGE + 10, -NEAR - 1]
    num = {NAN: None, NEGZ: 0}
    fl = [(x, lo, hi) for x in f for lo in f for hi in f
          if NAN in (lo, hi) or num.get(lo, lo) <= num.get(hi, hi)]
    sc += group([[("fclamp", t)] for t in fl], 60)
    ops = []
    for ty in (0, 1):
        for cmp in (0, 1):
            g = [x for x in f if not (cmp and x == NAN)]
            ops += [[("fcmp", [cmp, ty, a, b])] for a in g for b in g]
    for i in range(c.pick(600, 8000)):
        cmp = rng.randrange(2)
        g = [x for x in f if not (cmp and x == NAN)]
        n = rng.choice([0, 1, 2, 3, 5, 9, 17, 40])
        ops.append([("fsort", [rng.randrange(5), cmp, rng.randrange(2), [rng.choice(g) for _ in range(n)]])])
    sc += group(ops, 60)
    c.conform("misc", "FmtTrace", sc, label="formatting and numbers")


def c27(c):
    c.mc("HashFnMC", consts={"MaxLen": c.pick(5, 7)})
    rng = c.rng
    ops = []
    alpha = [0, 1, 2, 97, 98, 127, 128, 200, 255]
    for a in range(256):
        ops.append([("bytes", [[a], []])])
    for i in range(c.pick(1500, 15000)):
        n = rng.choice([0, 1, 2, 3, 8, 15, 16, 17, 50])
        d = [rng.choice(alpha) for _ in range(n)]
        ops.append([("bytes", [d, sorted(rng.randint(0, n) for _ in range(rng.choice([0, 1, 2, 5])))])])
        if i % 4 == 0:
            ops.append([("reset", [[rng.choice(alpha) for _ in range(rng.randint(0, 9))], d])])
    vals = [0, 1, -1, 2, 127, 128, 255, 256, -128, -129, 32767, 32768, 65535, -32768, 65536, 2**31 - 1, -2**31 + 1, 12345678, -9999999]
    for v in vals + [rng.randint(-2**31 + 1, 2**31 - 1) for _ in range(c.pick(60, 600))]:
        for w in (1, 2, 4, 8):
            if w == 1 and not -128 <= v <= 255 or w == 2 and not -32768 <= v <= 65535:
                continue
            ops.append([("prim", [w, v, [rng.choice(alpha) for _ in range(rng.choice([0, 1, 5]))]])])
    texts = [[], [97], [97, 98], [97] * 30] + [[rng.choice([97, 98, 65]) for _ in range(rng.randint(0, 40))] for _ in range(c.pick(60, 600))]
    for s in texts:
        for k in range(9):
            ops.append([("obj", [k, s, [rng.choice([97, 98]) for _ in range(rng.choice([0, 1, 5, 30]))]])])
        for k in (0, 1, 5, 6, 7, 8):  # zero bytes and arbitrary bytes
            t = [rng.choice(alpha) if k >= 5 or rng.random() < .5 else x for x in s]
            if k in (5, 8):
                ops.append([("obj", [k, t, [1, 255]])])
    c.conform("misc", "HashFnTrace", group(ops, 40), label="hashing")


def span_ops(rng, k):
    ops = []
    for _ in range(k):
        n = rng.choice([0, 1, 2, 5, 16, 40])
        T = [rng.randint(1, 90) for _ in range(n)]
        b = rng.randint(0, n)
        e = rng.randint(b, n)
        m = e - b
        i = rng.choice([0, m - 1, m, m + 1, rng.randint(0, m), n - b, -1, -2, -1000])
        if i == -1 and m == 0:
            i = 0
        z = rng.choice([-1, 0, 1, m, m - i if 0 <= i <= m else 0, m - i + 1 if 0 <= i <= m else 0, -2, -3, -1000, max(-999, -i) if i > 0 else 1])
        o = rng.choice(["idx", "idx", "set", "sub1", "sub", "sub", "sub", "all", "size", "assign"])
        a = [T, b, e]
        ops.append((o, a + {"idx": [i, rng.randrange(3)], "set": [i, 99], "sub1": [i], "sub": [i, z]}.get(o, [])))
    return ops


def c28(c):
    sc = group(c.gen("SpanGen", consts={"MaxT": c.pick(3, 5)}))
    for i in range(c.pick(300, 6000)):
        sc.append((0, span_ops(c.rng, 40)))
    ops = []
    for n in (1, 7, 255, 256, 257, 32768, 65535, 65536, 70000, 200000):
        for w in (1, 2, 3, 5, 8, 24):
            at = c.rng.choice([0, n // 2, n - 1, c.rng.randrange(n)])
            m = c.rng.choice([n - at, c.rng.randint(1, n - at)])
            ops.append([("wide", [w, n, c.rng.choice([0, n - 1, n, n, c.rng.randrange(n)]), at, m + (c.rng.random() < .1)])])
    sc += group(ops, 20)
    c.conform("misc", "SpanTrace", sc, label="Span")


CHECKS = {"C24": c24, "C25": c25, "C27": c27, "C28": c28}
