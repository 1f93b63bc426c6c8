"""C14 sorting, C15 stability, C16 selection, search and rearrangement."""
from props.p_view import group

W = 32768


def keys(rng, n, top=60000):
    r = rng.random()
    if r < .16:
        return [rng.randint(0, top) for _ in range(n)]
    if r < .36:
        # two values: the side and the number of ties decide which partition is empty
        k = rng.choice([0, 1, 2, n // 8, n // 2, n - 2, n - 1, n])
        lo, hi = sorted(rng.sample(range(50), 2))
        ks = [hi if i < k else lo for i in range(n)]
        rng.shuffle(ks)
        return ks
    if r < .46:
        d = rng.choice([3, 5, 9])
        return [rng.randrange(d) for _ in range(n)]
    if r < .54:
        return sorted(rng.randint(0, rng.choice([10, top])) for _ in range(n))
    if r < .62:
        return sorted((rng.randint(0, rng.choice([10, top])) for _ in range(n)), reverse=True)
    if r < .70:
        ks = sorted(rng.randint(0, top) for _ in range(n))
        for _ in range(rng.choice([1, 2, 5])):
            if n > 1:
                i, j = rng.randrange(n), rng.randrange(n)
                ks[i], ks[j] = ks[j], ks[i]
        return ks
    if r < .78:
        return [min(i, n - i) for i in range(n)]
    if r < .86:
        m = rng.choice([2, 3, 7, 16, 17, 32])
        return [i % m for i in range(n)]
    if r < .93:
        # sorted runs
        m = rng.choice([15, 16, 17, 31, 32, 33, 64])
        return [((i // m) * 37 % 5) * 100 + i % m for i in range(n)]
    ks = sorted(rng.randint(0, top) for _ in range(n))
    if n:
        ks[-1:] = [0]
        ks[:1] = [top] if n > 1 else ks[:1]
    return ks


def tagged(ks):
    return [k * W + i for i, k in enumerate(ks)]


def dup(rng, ks):
    """Often with elements that are equal in every respect."""
    return [k * W for k in ks] if rng.random() < .5 else tagged(ks)


SMALL = [0, 1, 2, 3, 4, 5, 6, 7, 10, 11, 15, 16, 17, 18, 19, 24, 31, 32, 33, 34, 35, 36, 47, 48, 49, 50, 63, 64, 65, 66, 67, 80, 95,
         97, 99, 100, 101, 127, 128, 129, 131]
LARGE = [132, 133, 160, 200, 255, 256, 257, 258, 301, 302, 400, 512, 513, 701, 702, 999, 1000, 1001]
HUGE = [1577, 1578, 2000, 3549, 4100, 10001, 20000]


def size(c):
    r = c.rng.random()
    if r < c.pick(.93, .8):
        return c.rng.choice(SMALL)
    if r < c.pick(.997, .99):
        return c.rng.choice(LARGE)
    return c.rng.choice(HUGE)


def span(rng, n):
    r = rng.random()
    if r < .5 or n < 3:
        return 0, n
    if r < .75:
        return rng.choice([1, 2]), n
    return rng.choice([0, 1]), n - 1


def around(rng, ks, lo, hi):
    """Extreme values outside the range make a step over its border visible."""
    for i in list(range(lo)) + list(range(hi, len(ks))):
        ks[i] = rng.choice([0, 60001, ks[i]])
    return ks


def limbs(v):
    return [v >> 48 & 0xffff, v >> 32 & 0xffff, v >> 16 & 0xffff, v & 0xffff]


def isort_op(c):
    rng = c.rng
    bits = rng.choice([8, 16, 32, 64])
    n = rng.choice([0, 1, 5, 31, 32, 33, 34, 40, 60, 100, 255, 256, 257, 300] if rng.random() < .9 else [600, 1000])
    m = (1 << bits) - 1
    r = rng.random()
    if r < .2:
        # only some bits vary, and one bit is set, or missing, in a single element
        base, mask = rng.randint(0, m), rng.randint(0, m) & rng.randint(0, m)
        odd = 1 << rng.randrange(bits)
        vs = [base ^ (rng.randint(0, m) & mask & ~odd) for _ in range(n)]
        if n:
            vs[rng.choice([0, 0, n - 1, n - 1, rng.randrange(n)])] ^= odd
    elif r < .32:
        vs = [rng.randint(0, m) for _ in range(n)]
    elif r < .45:
        pool = [rng.randint(0, m) for _ in range(rng.choice([1, 1, 2, 3]))]
        vs = [rng.choice(pool) for _ in range(n)]
    elif r < .6:
        base = rng.randint(0, m)
        vs = [(base ^ (1 << rng.randrange(bits))) & m for _ in range(n)]
    elif r < .7:
        vs = [(m - i) & m for i in range(n)]
    elif r < .8:
        vs = [i & m for i in range(n)]
    elif r < .9:
        sh = rng.randrange(bits)
        vs = [(rng.randint(0, 7) << sh) & m for _ in range(n)]
    else:
        vs = [rng.choice([0, m, 1 << (bits - 1), (1 << (bits - 1)) - 1, 1, 1 << (bits // 2)]) for _ in range(n)]
    lo, hi = span(rng, n)
    for i in list(range(lo)) + list(range(hi, n)):
        vs[i] = rng.choice([0, m])
    return ("isort", [rng.choice([0, 1]), rng.choice([0, 1]), bits, lo, hi, sum((limbs(v) for v in vs), [])])


def bysize(ops, budget=6000):
    """Scenarios of operations; large arrays get scenarios of their own."""
    sc, cur, used = [], [], 0
    for op in ops:
        k = sum(len(x) for x in op[1] if isinstance(x, list)) + 20
        if cur and used + k > budget:
            sc.append((0, cur))
            cur, used = [], 0
        cur.append(op)
        used += k
    if cur:
        sc.append((0, cur))
    return sc


def sort_op(c, algs, cmps, types=(0, 0, 1, 1, 2, 3)):
    rng = c.rng
    n = size(c)
    lo, hi = span(rng, n)
    ty = rng.choice(types)
    if ty == 3 and n > 1100:
        ty = 0
    alg = rng.choice(algs)
    if alg == 0 and n > 2500:
        alg = 3
    return ("sort", [alg, rng.choice([0, 1]), ty, rng.choice(cmps), lo, hi, tagged(around(rng, keys(rng, n), lo, hi))])


def big(c, algs, sizes, patterns):
    """Every size class of the algorithms' internal thresholds, far above what is worth printing."""
    rng = c.rng
    ops = []
    for alg in algs:
        for n in sizes:
            for p in patterns:
                if p == 0 and alg in (7, 8, 9, 10):
                    continue
                if alg == 9 and n > 40000 or n > 400000 and p == 0:
                    continue
                m = n + rng.randrange(n // 3)
                ops.append(("bigsort", [alg, p, m, rng.choice([0, m // 2, m - 1, rng.randrange(m)]), rng.randrange(1 << 30)]))
    return ops


def nearly(c, algs, sizes, count):
    """Nearly ordered inputs: what a bad choice of pivots and samples depends on."""
    ops = []
    for alg in algs:
        for n in sizes:
            for _ in range(count):
                m = n + c.rng.randrange(n // 3)
                ops.append(("bigsort", [alg, c.rng.choice([9, 9, 10, 11]), m, c.rng.choice([0, m // 2, m - 1, c.rng.randrange(m)]), c.rng.randrange(1 << 30)]))
    return ops


def c14(c):
    for m, cfg in (("QuickImpl", c.pick({}, {"N": 7})), ("MergeImpl", c.pick({}, {"N": 10})), ("HeapImpl", c.pick({}, {"N": 7}))):
        c.mc(m, consts=cfg, workers=8)
    ops = [op for b in c.gen("AlgoGen", consts={"MaxLen": c.pick(4, 6), "What": 1}) for op in b]
    for i in range(c.pick(2500, 60000)):
        r = c.rng.random()
        if r < .62:
            ops.append(sort_op(c, [0, 1, 1, 2, 2, 2, 3, 3, 4, 4], [0, 1, 2, 3, 4, 5, 6]))
        elif r < .76:
            n = size(c)
            lo, hi = span(c.rng, n)
            vs = [v % 30000 for v in keys(c.rng, n, 20000)]
            ops.append(("dsort", [c.rng.choice([0, 1, 2, 2, 3, 4]) if n < 2500 else 2, c.rng.choice([0, 1]), c.rng.choice([0, 0, 2, 3]), lo, hi, vs]))
        elif r < .9:
            ops.append(isort_op(c))
        elif r < .97:
            n = size(c)
            ops.append(("indirect", [c.rng.choice([0, 1]), c.rng.choice([0, 1, 2]), c.rng.choice([0, 1, 2, 3, 5]), tagged(keys(c.rng, n))]))
        else:
            ops.append(("adversary", [c.rng.choice([1, 2, 2, 2, 2, 3, 4]), c.rng.choice([33, 40, 64, 100, 200, 500, 1100]), 0]))
    ops += big(c, [1, 2, 3, 4, 7, 8], [1100, 11000, 70000, 110000] + c.pick([], [1000000]), c.pick([0, 1, 2, 5, 8], range(9)))
    ops += nearly(c, [2], [110, 1100, 11000, 45000], c.pick(60, 1500))
    ops += nearly(c, [1, 3, 4, 7], [110, 1100, 11000], c.pick(5, 100))
    c.conform("algo", "AlgoTrace", bysize(ops), label="sorting")


def c15(c):
    c.mc("MergeImpl", consts=c.pick({}, {"N": 10}), workers=8)
    ops = [op for b in c.gen("AlgoGen", consts={"MaxLen": c.pick(4, 6), "What": 1}) for op in b if op[1][0] in (0, 3)]
    ops += [op for b in c.gen("AlgoGen", consts={"MaxLen": c.pick(4, 6), "What": 2}) for op in b]
    for i in range(c.pick(2500, 60000)):
        r = c.rng.random()
        n = size(c)
        lo, hi = span(c.rng, n)
        if r < .65:
            ops.append(sort_op(c, [0, 3, 3, 3], [2, 2, 3, 4, 5]))
        elif r < .85:
            n = min(n, 1100)
            lo, hi = span(c.rng, n)
            ty = c.rng.choice([0, 1, 3])
            ks = [k % 50 for k in keys(c.rng, n)]
            ops.append(("stablepart", [c.rng.choice([0, 1]), ty, c.rng.choice([0, 1, 10, 25, 49, 50, 1000]), lo, hi, tagged(ks)]))
        else:
            ops.append(("indirect", [1, c.rng.choice([0, 1]), c.rng.choice([2, 3, 4, 5]), tagged([k % 40 for k in keys(c.rng, n)])]))
    ops += big(c, [3, 9, 10], [1100, 11000, 30000] + c.pick([], [1000000]), c.pick([2, 6, 8], range(9)))
    c.conform("algo", "AlgoTrace", bysize(ops), label="stability")


def c16(c):
    rng = c.rng
    c.mc("QuickImpl", consts=c.pick({}, {"N": 7}), workers=8)
    ops = [op for b in c.gen("AlgoGen", consts={"MaxLen": c.pick(3, 4), "What": 3}) for op in b]
    for i in range(c.pick(4000, 60000)):
        r = rng.random()
        n = size(c)
        lo, hi = span(rng, n)
        ks = around(rng, keys(rng, n), lo, hi)
        vs = tagged(ks)
        ty = rng.choice([0, 0, 1, 2, 3]) if n < 1100 else rng.choice([0, 1])
        form = rng.choice([0, 1])
        cmpk = rng.choice([0, 1, 2, 3, 4, 5, 6])
        pred = rng.choice([1000, 1000, 0, 60002, ks[n // 2] if n else 1])
        m = hi - lo
        if pred < 1000 or pred == 60002:
            pred = min(pred, 999)
        if r < .16:
            ops.append((rng.choice(["partition", "partition", "stablepart"]) if n < 1100 else "partition", [form, ty, pred, lo, hi, vs]))
        elif r < .26:
            mid = rng.choice([lo, hi, rng.randint(lo, hi), min(lo + 1, hi), max(hi - 1, lo), (lo + hi) // 2])
            ops.append(("rotate", [form, ty, lo, mid, hi, vs]))
        elif r < .30:
            if hi > lo and n < 200 and rng.random() < .5:
                cc = rng.choice([2, 3, 5])
                m = [v // W for v in vs]
                m[lo:hi - 1] = sorted(m[lo:hi - 1], reverse=cc == 3)
                ops.append(("insert1", [ty, cc, lo, hi, tagged(m)]))
                continue
            ops.append((rng.choice(["rotlast", "rotfirst"]), [ty, lo, hi, vs]))
        elif r < .66:
            k = rng.choice([0, max(m - 1, 0), m // 2, rng.randint(0, max(m - 1, 0)), m, m + 1, -1])
            if rng.random() < .7:
                ops.append(("nth", [form, ty, cmpk, lo, hi, k, vs]))
            else:
                ops.append(("psort", [0, ty, cmpk, lo, hi, k, vs]))
        elif r < .76:
            cc = rng.choice([0, 2, 6])
            n = min(n, 300)
            lo, hi = span(rng, n)
            vs = sorted(dup(rng, ks[:n])) if cc != 2 else tagged(sorted(ks[:n]))
            q = rng.choice(vs) if vs else 5
            q += rng.choice([0, 0, 1, -1, W, -W])
            ops.append(("lower", [ty, cc, lo, hi, max(0, min(q, 2**31 - 1)), vs]))
        elif r < .84:
            n = min(n, 300)
            lo, hi = span(rng, n)
            ks = [k % rng.choice([3, 50]) for k in ks[:n]] if rng.random() < .6 else ks[:n]
            ops.append((rng.choice(["min", "max"]), [ty, rng.choice([0, 0, 1, 2, 3, 5]), lo, hi, dup(rng, ks)]))
        elif r < .88:
            vs = sorted(vs)
            if rng.random() < .5 and n > 1:
                j = rng.choice([0, n - 2, rng.randrange(n - 1)])
                vs[j], vs[j + 1] = vs[j + 1], vs[j]
            ops.append(("issorted", [ty, rng.choice([2, 6, 6, 5]), lo, hi, vs]))
        elif r < .92:
            vs = dup(rng, ks)
            ops.append(("find", [ty if ty != 1 else 0, lo, hi, rng.choice(vs) if vs else 0, vs]))
        elif r < .96:
            ops.append(("findif", [ty, rng.choice([0, 1]), pred, lo, hi, vs]))
        elif r < .98:
            ops.append(("minmax", [rng.randint(-1000, 1000), rng.randint(-1000, 1000), rng.choice([0, 10, 30, 40])]))
        else:
            n = rng.choice([20, 40, 64, 100, 300, 700])
            ops.append(("adversary", [rng.choice([5, 5, 6]), n, rng.choice([0, n // 2, n - 1, rng.randrange(n)])]))
    for n in (100000, 1000001):
        for mid in (1, n // 3, n // 2, n - 1, rng.randint(1, n - 1)):
            ops.append(("bigrotate", [n, mid, [0, n - 1, mid, n - mid, n - mid - 1] + [rng.randrange(n) for _ in range(40)]]))
    ops += big(c, [5, 6], [1100, 11000, 30000, 110000] + c.pick([], [1000000]), c.pick([0, 1, 2, 3, 4, 8], range(9)))
    ops += nearly(c, [5, 6], [110, 1100, 11000], c.pick(40, 1000))
    c.conform("algo", "AlgoTrace", bysize(ops), label="selection and rearrangement")


CHECKS = {"C14": c14, "C15": c15, "C16": c16}
