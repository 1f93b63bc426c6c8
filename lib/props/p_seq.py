"""C01 Vector / Stack, C02 FixedVector."""


class Sizes:
    """Rough sizes of the two handles, so that generated indices are mostly meaningful."""

    def __init__(self):
        self.n = [0, 0]


def vec_walk(rng, length, values=(0, 99), big=False, self_ops=True, epoch=2026):
    s = Sizes()
    ops = []
    targets = [0, 1, 15, 16, 17, 31, 32, 33, 40]

    def val():
        return rng.randint(*values)

    def idx(h):
        n = s.n[h]
        return rng.choice([0, max(0, n - 1), n, n + 1, rng.randint(0, max(0, n)), rng.choice([n + 100, 2**31 - 2, -1, -2, -1000, -1000 - n // 2]) if rng.random() < .5 else 0])

    for _ in range(length):
        h = rng.choice([0, 0, 1])
        n = s.n[h]
        r = rng.random()
        if r < .30:
            ops.append((rng.choice(["push", "pushm", "emplace"]), [h, val()]))
            s.n[h] += 1
        elif r < .36 and self_ops and n:
            ops.append((rng.choice(["pushself", "emplself", "pushmself"]), [h, rng.randrange(n)]))
            s.n[h] += 1
        elif r < .46:
            ops.append(("pop", [h]))
            s.n[h] = max(0, n - 1)
        elif r < .50:
            k = rng.choice(targets)
            ops.append(("reserve", [h, k]))
        elif r < .56:
            l = [val() for _ in range(rng.choice([0, 1, 2, 5, 14, 17]))]
            o = rng.choice(["append", "assign", "ctor"])
            ops.append((o, [h, l]))
            s.n[h] = len(l) + (n if o == "append" else 0)
        elif r < .60:
            o = rng.choice(["appendv", "assignv", "copy", "move", "movector"])
            g = 1 - h if o == "movector" or rng.random() < .8 else h
            if n + s.n[g] > 200:
                continue
            ops.append((o, [h, g]))
            if o == "appendv":
                s.n[h] += s.n[g] if g != h else 0
            elif g != h:
                s.n[h] = s.n[g]
                if o in ("move", "movector"):
                    s.n[g] = 0
        elif r < .62:
            g = 1 - h
            m = s.n[g]
            b = rng.randint(0, m)
            e = rng.randint(b, m)
            if n + e - b > 200:
                continue
            ops.append(("appendsub", [h, g, b, e]))
            s.n[h] += e - b if m else 0
        elif r < .65:
            k = rng.choice(targets)
            if k > n and k - n < 60:
                ops.append(("fill", [h, k - n, rng.randrange(100)]))
                s.n[h] = k
        elif r < .67:
            k = rng.choice([1, 3, n, n + 2])
            ops.append(("popn", [h, k]))
            s.n[h] = max(0, n - k)
        elif r < .69:
            ops.append(("clear", [h]))
            s.n[h] = 0
        elif r < .71 and epoch == 2026:
            k = rng.choice([0, 1, 3, 16, 17])
            if n + k < 200:
                ops.append(("appdef", [h, k]))
                s.n[h] += k
        elif r < .83:
            ops.append((rng.choice(["get", "cget", "at", "uat"]), [h, idx(h)]))
        elif r < .89:
            ops.append(("set", [h, idx(h), val()]))
        elif r < .93:
            ops.append((rng.choice(["front", "back", "size", "iter", "span"]), [h]))
        else:
            ops.append(("eq", [h, rng.randrange(2)]))
    return ops


def big_vec(rng):
    """Grow far, then read back: capacity growth at every power of two."""
    k = rng.choice([1000, 5000, 20000, 70000])
    seed = rng.randrange(100)
    ops = [("quiet", [1]), ("fill", [0, k, seed])]
    for _ in range(6):
        ops.append(("get", [0, rng.choice([0, k - 1, k, rng.randrange(k)])]))
    ops += [("copy", [1, 0]), ("eq", [0, 1]), ("popn", [0, k - rng.choice([0, 1, 16, 17])]), ("eq", [0, 1]),
            ("appendv", [0, 1]), ("size", [0]), ("quiet", [0]), ("popn", [0, k]), ("move", [1, 0])]
    return ops


def c01(c):
    c.assume("element types exercised: int, a heap-owning type, a 64-byte aligned padded type, unsigned char")
    g = c.gen("VectorGen", consts={"Depth": c.pick(2, 3)})
    sim = c.gen("VectorGen", sim=(c.pick(300, 4000), 12))
    sc = []
    for i, b in enumerate(g + sim):
        sc.append((i % 4, b) if i % 3 else (1, b))
    for i in range(c.pick(600, 12000)):
        sc.append((c.rng.choice([0, 1, 1, 2, 3]), vec_walk(c.rng, c.rng.choice([20, 40, 80]))))
    for i in range(c.pick(6, 40)):
        sc.append((i % 4, big_vec(c.rng)))
    c.conform("vec", "VectorTrace", sc, label="Vector")
    sc = []
    for i, b in enumerate(c.gen("StackGen", consts={"Depth": c.pick(3, 4)})):
        sc.append((4 + i % 2, b))
    for i in range(c.pick(100, 2000)):
        ops = []
        for _ in range(60):
            h = c.rng.choice([0, 0, 0, 1])
            o = c.rng.choice(["push"] * 6 + ["pop"] * 3 + ["pushself", "pushself", "top", "set", "fill", "popn", "clear", "move", "movector"])
            a = {"push": [h, c.rng.randrange(100)], "set": [h, c.rng.randrange(100)], "fill": [h, c.rng.choice([3, 15, 16, 17]), 5],
                 "popn": [h, c.rng.choice([2, 9, 20])], "move": [h, c.rng.randrange(2)], "movector": [h, 1 - h]}.get(o, [h])
            ops.append((o, a))
        sc.append((4 + i % 2, ops))
    c.conform("vec", "StackTrace", sc, label="Stack")


CAPS = [1, 2, 3, 4, 5, 16, 300]


def fix_walk(rng, world, length):
    cap = CAPS[world]
    n = [0, 0]
    ops = []
    for _ in range(length):
        h = rng.choice([0, 0, 1])
        m = n[h]
        r = rng.random()
        v = rng.randrange(100)
        i = rng.choice([0, max(0, m - 1), m, m + 1, rng.randint(0, m), cap, rng.choice([-1, -1000 - m // 2, 2**31 - 2])])
        if r < .25:
            ops.append((rng.choice(["push", "pushm", "emplace", "trypush", "trypushm", "tryemplace"]), [h, v]))
            n[h] = min(cap, m + 1)
        elif r < .30 and m:
            ops.append((rng.choice(["pushself", "emplself"]), [h, rng.randrange(m)]))
            n[h] = min(cap, m + 1)
        elif r < .45:
            ops.append(("insert", [h, i, v]))
            if m < cap and 0 <= i <= m:
                n[h] += 1
        elif r < .55:
            ops.append(("delete", [h, i]))
            if 0 <= i < m:
                n[h] -= 1
        elif r < .65:
            ops.append((rng.choice(["pop", "popfront"]), [h]))
            n[h] = max(0, m - 1)
        elif r < .68:
            k = rng.choice([1, 3, cap])
            ops.append(("fill", [h, k, v]))
            n[h] = min(cap, m + k)
        elif r < .70:
            ops.append(("clear", [h]))
            n[h] = 0
        elif r < .78:
            o = rng.choice(["move", "movector", "moveappend"])
            g = 1 - h if o == "movector" or rng.random() < .8 else h
            ops.append((o, [h, g]))
            if g != h and o != "moveappend":
                n[h], n[g] = n[g], 0
            elif g != h and n[h] + n[g] <= cap:
                n[h], n[g] = n[h] + n[g], 0
        elif r < .88:
            ops.append((rng.choice(["get", "cget"]), [h, i]))
        elif r < .92:
            ops.append(("set", [h, i, v]))
        else:
            ops.append((rng.choice(["front", "back", "size", "iter", "span"]), [h]))
    return ops


def c02(c):
    sc = []
    for w, cap, d in ((0, 1, 3), (1, 2, 3), (2, 3, c.pick(2, 3))):
        sc += [(w, b) for b in c.gen("FixedVectorGen", consts={"Cap": cap, "Depth": d}, limit=c.pick(5000, 60000))]
    for w, cap in ((1, 2), (2, 3), (3, 4), (4, 5)):
        sc += [(w, b) for b in c.gen("FixedVectorGen", consts={"Cap": cap}, sim=(c.pick(150, 3000), 14))]
    for i in range(c.pick(700, 15000)):
        w = i % 7
        if w == 6 and i % 21:
            w = 5
        sc.append((w, fix_walk(c.rng, w, c.rng.choice([20, 40, 60]))))
    # Sizes around the limits of small counters, alone and together.
    sizes = [0, 1, 44, 127, 128, 150, 200, 255, 256, 257, 299, 300]
    for a in sizes:
        for b in sizes if c.thorough else c.rng.sample(sizes, 4):
            sc.append((6, [("fill", [0, a, 3]), ("fill", [1, b, 5]), ("size", [0]), ("moveappend", [0, 1]), ("insert", [0, a // 2, 9]),
                           ("insert", [0, 0, 8]), ("get", [0, a]), ("get", [0, 255]), ("delete", [0, 0]), ("move", [1, 0]), ("back", [1]), ("span", [1])]))
    c.conform("fixvec", "FixedVectorTrace", sc, label="FixedVector")


BYTEVALS = [0, 1, 10, 32, 65, 97, 98, 127, 128, 200, 254, 255]


def bytes_walk(rng, length, maxlen=150):
    n = [0, 0]
    ops = []
    sizes = [0, 1, 7, 8, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129]

    def text(k):
        return [rng.choice(BYTEVALS) if rng.random() < .7 else rng.randrange(256) for _ in range(k)]

    for _ in range(length):
        h = rng.choice([0, 0, 1])
        m = n[h]
        r = rng.random()
        i = rng.choice([0, max(0, m - 1), m, m + 1, rng.randint(0, m), rng.randint(0, m), rng.choice([-1, -1000 - m // 2, 2**31 - 2])])
        if r < .16:
            ops.append((rng.choice(["push", "append1"]), [h, rng.choice(BYTEVALS)]))
            n[h] += 1
        elif r < .24:
            t = text(rng.choice([0, 1, 2, 3, 5, 8, 17]))
            if m + len(t) <= maxlen:
                ops.append(("append", [h, t]))
                n[h] += len(t)
        elif r < .32 and m:
            b = rng.randint(0, m)
            e = rng.randint(b, m)
            if rng.random() < .7:
                if m + e - b <= maxlen:
                    ops.append(("appendself", [h, b, e]))
                    n[h] += e - b
            else:
                ops.append(("assignself", [h, b, e]))
                n[h] = e - b
        elif r < .37:
            g = rng.randrange(2)
            if m + n[g] <= maxlen:
                ops.append(("pluseq", [h, g]))
                n[h] += n[g]
        elif r < .42:
            k = rng.choice(sizes)
            if k > m:
                ops.append(("fill", [h, k - m, rng.randrange(256)]))
                n[h] = k
        elif r < .48:
            t = text(rng.choice([0, 1, 3, 15, 16, 17, 33]))
            ops.append((rng.choice(["assign", "ctor", "ctor2"]), [h, t]))
            n[h] = len(t)
        elif r < .50:
            k = rng.choice(sizes)
            if rng.random() < .6:
                ops.append(("ctorfill", [h, k, rng.choice(BYTEVALS)]))
                n[h] = k
            else:
                ops.append(("ctorsize", [h, k]))
                n[h] = 0
        elif r < .60:
            t = text(rng.choice([0, 1, 2, 5, 16]))
            if m + len(t) <= maxlen:
                ops.append(("insert", [h, i, t]))
                if 0 <= i < m:
                    n[h] += len(t)
        elif r < .68:
            j = rng.choice([i, m, m + 1, rng.randint(0, m), 0])
            ops.append(("remove", [h, i, j]))
            if 0 <= i <= j <= m:
                n[h] -= j - i
        elif r < .76:
            k = rng.choice([0, 1, 1, 2, max(0, m - 1), m, m + 1, -1, rng.randint(0, m)])
            ops.append((rng.choice(["popback", "popfront", "shrink"]), [h, k]))
            n[h] = 0 if k < 0 else max(0, m - k)
        elif r < .81:
            k = rng.choice(sizes)
            o = rng.choice(["extend", "resize", "reserve"])
            if o == "extend" and m + k > maxlen:
                continue
            ops.append((o, [h, k]))
            if o == "extend":
                n[h] += k
            elif o == "resize":
                n[h] = k
        elif r < .83:
            ops.append(("clear", [h]))
            n[h] = 0
        elif r < .89:
            o = rng.choice(["copy", "copyctor", "move", "movector"])
            g = 1 - h if o.endswith("ctor") or rng.random() < .8 else h
            ops.append((o, [h, g]))
            if g != h:
                n[h] = n[g]
                if o.startswith("move"):
                    n[g] = 0
        elif r < .95:
            ops.append((rng.choice(["get", "get", "within", "ctorrev"]), [h, i]) if rng.random() < .6 else
                       (rng.choice(["front", "back", "size", "iter", "span"]), [h]))
            if ops[-1][0] == "within":
                ops[-1] = ("within", [h, rng.choice([-1, 0, m, m - 1])])
        else:
            ops.append(("cmp", [h, rng.randrange(2)]))
    return ops


def bytes_cmp(rng):
    """Pairs that differ in one place: the comparisons."""
    k = rng.choice([0, 1, 2, 3, 8])
    s = [rng.choice(BYTEVALS) for _ in range(k)]
    t = list(s)
    for _ in range(rng.choice([0, 1, 1, 2])):
        if t and rng.random() < .7:
            t[rng.randrange(len(t))] = rng.choice(BYTEVALS)
        elif rng.random() < .5:
            t.append(rng.choice(BYTEVALS))
        elif t:
            t.pop()
    return [("assign", [0, s]), ("assign", [1, t]), ("cmp", [0, 1]), ("cmp", [1, 0]), ("cmp", [0, 0])]


def bytes_big(rng):
    k = rng.choice([250, 1000, 4100, 30000, 70000])
    return [("quiet", [1]), ("fill", [0, k, rng.randrange(256)]), ("copyctor", [1, 0]), ("cmp", [0, 1]), ("pluseq", [0, 1]),
            ("get", [0, k]), ("get", [0, 2 * k - 1]), ("get", [0, 2 * k]), ("insert", [0, k - 1, [1, 2, 3]]), ("get", [0, k + 2]),
            ("back", [0]), ("appendself", [0, 1, k]), ("back", [0]), ("cmp", [0, 1]), ("remove", [0, 1, k]), ("get", [0, 1]),
            ("popfront", [0, k - 3]), ("size", [0]), ("get", [0, 2]), ("resize", [0, 20]), ("clear", [1]), ("quiet", [0]), ("size", [0])]


def c04(c):
    sc = [(0, b) for b in c.gen("BytesGen", consts={"Depth": 2})]
    if c.thorough:
        sc += [(0, b) for b in c.gen("BytesGen", consts={"Depth": 3}, limit=60000)]
    sc += [(0, b) for b in c.gen("BytesGen", sim=(c.pick(300, 5000), 12))]
    for i in range(c.pick(900, 15000)):
        sc.append((0, bytes_walk(c.rng, c.rng.choice([15, 30, 60]))))
    for i in range(c.pick(300, 5000)):
        sc.append((0, bytes_cmp(c.rng)))
    for i in range(c.pick(10, 60)):
        sc.append((0, bytes_big(c.rng)))
    c.conform("bytes", "BytesTrace", sc, label="Bytes")


CHECKS = {"C01": c01, "C02": c02, "C04": c04}
