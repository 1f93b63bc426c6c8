"""C05 character strings."""
CH = [97, 98, 99, 65, 32, 9, 10, 13, 11, 12, 46, 48, 57, 127, 128, 200, 255, 1]


def text(rng, k, nul=0.0, alpha=CH):
    t = [rng.choice(alpha) if rng.random() < .85 else rng.randint(1, 255) for _ in range(k)]
    if t and rng.random() < nul:
        t[rng.randrange(len(t))] = 0
    return t


def cstr_walk(rng, length, maxlen=140):
    n = [0, 0]
    ops = []
    sizes = [0, 1, 2, 14, 15, 16, 17, 30, 31, 32, 33, 62, 63, 64, 65]
    for _ in range(length):
        h = rng.choice([0, 0, 1])
        m = n[h]
        r = rng.random()
        i = rng.choice([0, max(0, m - 1), m, m + 1, rng.randint(0, m), rng.randint(0, m), m + 2, rng.choice([-1, -1000, 2**31 - 2])])
        if r < .14:
            ch = rng.choice(CH) if rng.random() < .92 else 0
            ops.append((rng.choice(["append1", "push", "plusc"]), [h, ch]))
            n[h] += 1 if ch else 0
        elif r < .28:
            o = rng.choice(["appendn", "appendr", "appendv", "appendz", "plusz"])
            t = text(rng, rng.choice([0, 1, 2, 3, 7, 16]), nul=0 if o.endswith("z") else .12)
            if m + len(t) > maxlen:
                continue
            ops.append((o, [h, t]))
            n[h] += 0 if 0 in t else len(t)
        elif r < .33:
            g = rng.randrange(2)
            if m + n[g] <= maxlen:
                ops.append(("pluss", [h, g]))
                n[h] += n[g]
        elif r < .41:
            b = rng.randint(0, m)
            e = rng.randint(b, m)
            o = rng.choice(["appendself", "plusself", "setself", "insself"])
            if m + e - b > maxlen or m + m > maxlen:
                continue
            if o == "appendself":
                ops.append((o, [h, b, e]))
                n[h] += e - b
            elif o == "insself":
                ops.append((o, [h, b, e, i]))
                n[h] += e - b if 0 <= i <= m else 0
            else:
                ops.append((o, [h, b]))
                n[h] = m - b + (m if o == "plusself" else 0)
        elif r < .44:
            k = rng.choice(sizes)
            if k > m:
                ops.append(("fill", [h, k - m, rng.randrange(255)]))
                n[h] = k
        elif r < .50:
            o = rng.choice(["ctorn", "ctorb", "ctorv", "ctorz", "setz"])
            t = text(rng, rng.choice([0, 1, 3, 15, 16, 17]), nul=0 if o.endswith("z") else .15)
            ops.append((o, [h, t]))
            n[h] = n[h] if 0 in t else len(t)
        elif r < .58:
            t = text(rng, rng.choice([0, 1, 2, 5, 16]), nul=.12)
            if m + len(t) <= maxlen:
                ops.append(("insert", [h, i, t]))
                if 0 <= i <= m and 0 not in t:
                    n[h] += len(t)
        elif r < .64:
            j = rng.choice([i, m, m + 1, rng.randint(0, m)])
            ops.append(("remove", [h, i, j]))
            if 0 <= i <= j <= m:
                n[h] -= j - i
        elif r < .69:
            ops.append(("substr", [h, i, rng.choice([-1, 0, 1, m, m - i if 0 <= i <= m else 3, m + 5, 2])]))
        elif r < .75:
            o = rng.choice(["pop", "pop", "clear", "strip", "strip"])
            ops.append((o, [h]))
            n[h] = 0 if o == "clear" else max(0, m - 1)
        elif r < .78:
            k = rng.choice(sizes)
            o = rng.choice(["resize", "reserve"])
            ops.append((o, [h, k]))
            n[h] = k if o == "resize" else m
        elif r < .86:
            o = rng.choice(["copy", "copyctor", "move", "movector"])
            g = 1 - h if o.endswith("ctor") or rng.random() < .8 else h
            ops.append((o, [h, g]))
            if g != h:
                n[h] = n[g]
                if o.startswith("move"):
                    n[g] = 0
        elif r < .91:
            ops.append(("get", [h, i]) if rng.random() < .5 else (rng.choice(["front", "back", "view", "zview", "upper", "lower"]), [h]))
        elif r < .95:
            ops.append(("cmp", [h, rng.randrange(2)]))
        else:
            o = rng.choice(["eqz", "eqv", "find", "rfind"])
            ops.append((o, [h, rng.choice(CH + [0]) if o == "rfind" else text(rng, rng.choice([1, 1, 2, 3]))]))
    return ops


def cstr_pair(rng):
    t = text(rng, rng.choice([0, 1, 2, 3, 6]))
    u = list(t)
    for _ in range(rng.choice([0, 1, 1, 2])):
        if u and rng.random() < .6:
            u[rng.randrange(len(u))] = rng.choice(CH)
        elif rng.random() < .5:
            u.append(rng.choice(CH))
        elif u:
            u.pop()
    return [("ctorn", [0, t]), ("setz", [1, u]), ("cmp", [0, 1]), ("cmp", [1, 0]), ("eqz", [0, u]), ("eqv", [1, t]),
            ("strip", [0]), ("pluss", [0, 1]), ("pluss", [0, 0]), ("strip", [0]), ("substr", [0, 1, 2])]


def fixcstr_walk(rng, cap, length):
    ops = []
    for _ in range(length):
        h = rng.choice([0, 0, 1, 2])
        r = rng.random()
        mycap = cap + 5 if h == 2 else cap
        if r < .45:
            k = rng.choice([0, 1, mycap - 1, mycap, mycap + 1, rng.randint(0, mycap), mycap + 7])
            ops.append((rng.choice(["ctorz", "ctorn", "setv"]), [h, text(rng, k)]))
        elif r < .55:
            ops.append(("pop", [h]))
        elif r < .62:
            b = rng.choice([0, 0, 0, 1, 2])
            ops.append(("setself", [h, b, b + rng.choice([0, 1, 2])]))
        elif r < .78 and h < 2:
            o = rng.choice(["copy", "copyctor", "move", "movector"])
            g = 1 - h if o.endswith("ctor") or rng.random() < .8 else h
            ops.append((o, [h, g]))
        elif r < .86:
            ops.append(("cross", [2, rng.randrange(2)]) if rng.random() < .5 else ("cross", [rng.randrange(2), 2]))
        elif r < .92:
            ops.append((rng.choice(["get"]), [h, rng.choice([0, 1, mycap, mycap + 1, 2**31 - 2])]))
        elif r < .95:
            ops.append(("set", [h, rng.choice([0, 1, mycap + 1]), rng.choice(CH)]))
        else:
            ops.append((rng.choice(["eqz", "eqv"]), [h, text(rng, rng.choice([0, 1, 2, mycap]), alpha=[97])]))
    return ops


def c05(c):
    sc = [(0, b) for b in c.gen("CStrGen", consts={"Depth": 2})]
    if c.thorough:
        sc += [(0, b) for b in c.gen("CStrGen", consts={"Depth": 3}, limit=60000)]
    sc += [(0, b) for b in c.gen("CStrGen", sim=(c.pick(250, 5000), 12))]
    for i in range(c.pick(900, 15000)):
        sc.append((0, cstr_walk(c.rng, c.rng.choice([15, 30, 60]))))
    for i in range(c.pick(250, 5000)):
        sc.append((0, cstr_pair(c.rng)))
    for i in range(c.pick(6, 40)):
        k = c.rng.choice([250, 1023, 5000, 20000])
        sc.append((0, [("quiet", [1]), ("fill", [0, k, i]), ("copyctor", [1, 0]), ("cmp", [0, 1]), ("pluss", [0, 1]), ("plusself", [0, 3]),
                       ("back", [0]), ("get", [0, 2 * k - 1]), ("insert", [0, k, [97]]), ("get", [0, k]), ("remove", [0, 5, k]),
                       ("get", [0, 5]), ("quiet", [0]), ("resize", [0, 9]), ("clear", [1])]))
    c.conform("cstr", "CStrTrace", sc, label="CString")
    sc = [(11, b) for b in c.gen("FixedCStrGen", consts={"Cap": 3, "Depth": c.pick(2, 3)})]
    sc += [(10, b) for b in c.gen("FixedCStrGen", consts={"Cap": 1, "Depth": 2})]
    for i in range(c.pick(500, 8000)):
        w = 10 + i % 4
        sc.append((w, fixcstr_walk(c.rng, [1, 3, 8, 40][i % 4], c.rng.choice([10, 25]))))
    c.conform("fixcstr", "FixedCStrTrace", sc, label="FixedCString")


CHECKS = {"C05": c05}
