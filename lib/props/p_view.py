"""C09 views, C10 split/join/strip, C11 natural order."""
from props.p_str import CH, text


def group(behaviours, k=40):
    """Stateless operations: put many of them into one scenario."""
    ops = [op for b in behaviours for op in b]
    return [(0, ops[i:i + k]) for i in range(0, len(ops), k)]


def view_ops(rng, k):
    ops = []
    while len(ops) < k:
        alpha = rng.choice([CH, [97, 98], [97, 0], [65, 97, 90, 122, 64, 91, 96, 123, 193, 225]])
        n = rng.choice([0, 1, 2, 3, 5, 9, 20])
        T = [rng.choice(alpha) for _ in range(n)]
        b = rng.randint(0, n)
        e = rng.randint(b, n)
        V = T[b:e]
        m = len(V)
        i = rng.choice([0, m - 1, m, m + 1, rng.randint(0, m), -1, -1000, 2**31 - 2])
        if i == -1 and m == 0:
            i = 0
        r = rng.random()
        p = rng.randint(0, m)
        q = rng.randint(p, m)
        u = rng.choice([V, V[p:q], V[:p], T[b:], T[:e], V[:-1], V + [rng.choice(alpha)], [rng.choice(alpha) for _ in range(3)], V[p:]])
        u = list(u)
        if u and rng.random() < .3:
            u[rng.randrange(len(u))] = rng.choice(alpha + [255, 1])
        if r < .5:
            o = rng.choice(["eqz", "eqv", "startsz", "startsv", "findv", "findv", "less", "zeq"])
            if o == "zeq":
                T = [x or 1 for x in T]
            if o in ("eqz", "startsz", "zeq"):
                u = [x or 1 for x in u]
            ops.append((o, [T, b, e, u]))
        elif r < .6:
            ops.append((rng.choice(["idx", "at"]), [T, b, e, i]))
        elif r < .75:
            ops.append(("substr", [T, b, e, i, rng.choice([-1, -2, -3, 0, 1, m, m - 1 if m else 0, m + 1, 2**31 - 2])]))
        elif r < .8:
            ops.append(("findc", [T, b, e, rng.choice(alpha + [0])]))
        elif r < .85:
            p = rng.randint(0, n)
            ops.append(("overlaps", [T, b, e, p, rng.randint(p, n)]))
        elif r < .95:
            ops.append((rng.choice(["upper", "lower", "tocstr", "text", "size", "front", "iter"]), [T, b, e]))
        elif r < .97:
            ops.append(("range", [T, e, b] if rng.random() < .5 else [T, b, e]))
        else:
            T = [x or 1 for x in T]
            ops.append(("zsub", [T, rng.choice([0, n, n + 1, b, -1])]) if rng.random() < .6 else ("zsize", [T, b]))
    return ops


def c09(c):
    sc = group(c.gen("ViewGen", consts={"MaxT": c.pick(2, 4), "MaxZ": c.pick(2, 3)}))
    for i in range(c.pick(600, 12000)):
        sc.append((0, view_ops(c.rng, 50)))
    c.conform("view", "ViewTrace", sc, label="CStringView")


def nat_text(rng):
    t = []
    for _ in range(rng.choice([0, 1, 2, 3, 4])):
        r = rng.random()
        if r < .55:
            t += [48] * rng.choice([0, 0, 0, 1, 2, 12])
            t += [rng.choice([48, 49, 50, 57]) for _ in range(rng.choice([1, 1, 2, 3, 9, 10, 11, 18, 19, 20, 21, 40]))]
        else:
            t += [rng.choice([97, 98, 47, 58, 32, 45, 46, 255, 128, 1, 65]) for _ in range(rng.choice([1, 1, 2]))]
    return t


def nat_op(rng):
    t = nat_text(rng)
    r = rng.random()
    if r < .2:
        u = nat_text(rng)
    else:
        u = list(t)
        for _ in range(rng.choice([0, 1, 1, 2])):
            k = rng.random()
            if u and k < .4:
                i = rng.randrange(len(u))
                u[i] = rng.choice([48, 49, 57, 97, u[i]])
            elif k < .6:
                u.insert(rng.randint(0, len(u)), rng.choice([48, 49, 57, 97, 47, 200]))
            elif k < .75 and u:
                del u[rng.randrange(len(u))]
            elif k < .85:
                u = u[:rng.randint(0, len(u))]
            elif u:
                u = u[rng.randrange(len(u)):]
    pre, post = [rng.choice([48, 57, 97]) for _ in range(rng.choice([0, 0, 2]))], [rng.choice([48, 57, 97]) for _ in range(rng.choice([0, 0, 3]))]
    return ("nat", [pre + t + post, len(pre), len(pre) + len(t), u])


def c11(c):
    c.mc("NatMC", consts={"MaxLen": c.pick(2, 3)}, workers=8)
    sc = group(c.gen("NatGen", consts={"MaxT": c.pick(2, 3)}))
    for i in range(c.pick(500, 12000)):
        sc.append((0, [nat_op(c.rng) for _ in range(60)]))
    c.conform("view", "NatTrace", sc, label="natural_order")


CPS = [97, 98, 32, 10, 44, 9, 13, 127, 11, 12, 0x80, 0xA0, 0x85, 0xE4, 0x7FF, 0x800, 0x20AC, 0x2028, 0x3000, 0xFFFD, 0xFFFF, 0x10000,
       0x1F600, 0x10FFFF, 0xD7FF, 0xE000, 0x120, 0x10D, 0x10A, 0x2020]


def u8text(rng, k, alpha=CPS):
    s = []
    for _ in range(k):
        s.append(rng.choice(alpha) if rng.random() < .9 else rng.choice([rng.randint(1, 127), rng.randint(128, 0x7FF), rng.randint(0x800, 0xD7FF),
                                                                       rng.randint(0xE000, 0xFFFF), rng.randint(0x10000, 0x10FFFF)]))
    return s


def enc8(cps):
    return list("".join(map(chr, cps)).encode())


def split_op(rng):
    r = rng.random()
    k = rng.choice([0, 1, 2, 4, 8, 20, 40])
    if r < .5:
        alpha = rng.choice([[32, 97], [32, 9, 10, 13, 97, 98, 11, 12, 160, 133], CH])
        t = [rng.choice(alpha) for _ in range(k)]
        o = rng.choice(["ws", "wsv", "wscb", "by", "bycb", "strip", "strip"])
        if o == "wsv":
            b = rng.randint(0, k)
            return (o, [t, b, rng.randint(b, k), rng.choice([-1, -1, 1, 2, 5])])
        if o == "wscb":
            return (o, [t, rng.choice([-1, 1, 2, 3])])
        if o in ("by", "bycb"):
            a = [t, rng.choice(t or [97]) if rng.random() < .8 else rng.choice([44, 44, 0])]
            return (o, a + ([rng.choice([-1, 1, 2, 3])] if o == "bycb" else []))
        return (o, [t])
    alpha = rng.choice([[32, 97, 0x2020, 0x10A], CPS, [32, 0x120, 0x10A0D, 0xE4]])
    cps = u8text(rng, k, alpha)
    t = enc8(cps)
    if r < .6:
        return ("u8ws", [t])
    if r < .7:
        b = rng.randint(0, k)
        e = rng.randint(b, k)
        x = len(enc8(cps[:b]))
        return ("u8cls", [t, x, x + len(enc8(cps[b:e]))])
    if r < .85:
        return ("u8by", [t, rng.choice(cps or [97]) if rng.random() < .8 else 44, rng.choice([-1, -1, 1, 2, 3])])
    if r < .92:
        return ("rejoin", [t, rng.choice([32, 97, 44])])
    f = []
    for _ in range(rng.choice([0, 1, 2, 3, 5])):
        f += enc8(u8text(rng, rng.choice([0, 0, 1, 3, 10]))) + [0]
    return ("join", [t, f])


def c10(c):
    c.mc("SplitMC", consts={"MaxLen": c.pick(6, 8)}, workers=8)
    sc = group(c.gen("SplitGen", consts={"MaxT": c.pick(4, 5)}))
    for i in range(c.pick(500, 10000)):
        sc.append((0, [split_op(c.rng) for _ in range(50)]))
    c.conform("split", "SplitTrace", sc, label="split/join/strip")


CHECKS = {"C10": c10, "C11": c11, "C09": c09}
