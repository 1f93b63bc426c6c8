"""C17 Variant, C18 Optional, Expected, unique_ptr, unique_arr."""

ALTS = {0: 5, 1: 30, 2: 1, 3: 7}


def var_walk(rng, w, k):
    ops = []
    n = ALTS[w]
    alts = rng.sample(range(n), min(n, rng.choice([1, 2, 3, 30])))
    for _ in range(k):
        h, g = rng.randrange(3), rng.randrange(3)
        a = rng.choice(alts) if rng.random() < .9 else rng.randrange(n)
        v = rng.choice([0, 1, 2, 7, 13, 99])
        r = rng.random()
        if r < .3:
            ops.append((rng.choice(["ctor", "set", "insert"]), [h, a, v, rng.randrange(3)]))
        elif r < .6:
            o = rng.choice(["copyctor", "copyctor", "copy", "copy", "movector", "move", "swap", "setmoved"])
            if o == "swap" and g == h:
                continue
            ops.append((o, [h, g] + ([1] if o == "copyctor" and rng.random() < .5 else [])))
        elif r < .65:
            ops.append((rng.choice(["dctor", "insertself"]), [h]))
        elif r < .75:
            ops.append(("get", [h, a, rng.randrange(2)]))
        elif r < .85:
            ops.append((rng.choice(["getif", "contains"]), [h, a]))
        elif r < .92:
            ops.append(("mutate", [h, a, rng.choice([1, 3, 8, 13])]))
        else:
            ops.append(("eq", [h, g]))
    return ops


def c17(c):
    sc = []
    for w in (0, 2, 3):
        sc += [(w, b) for b in c.gen("VariantGen", consts={"World": w, "Depth": 2})]
    if c.thorough:
        sc += [(0, b) for b in c.gen("VariantGen", consts={"World": 2, "Depth": 3})]
    # every pair of alternatives: each way of storing over each other one
    n = ALTS[1]
    for a in range(n):
        for b in (range(n) if c.thorough else sorted({0, n - 1, (a + 1) % n, (a * 7 + 3) % n, c.rng.randrange(n)})):
            ops = []
            for how in ("insert", "set", "copy", "move", "copyctor", "movector", "swap", "setmoved"):
                ops += [("insert", [0, a, 5, 0]), ("insert", [1, b, 6, 0]), ("insert", [2, b, 6, 0])]
                ops.append((how, [0, b, 7, 0] if how in ("insert", "set") else [0, 1]))
                ops += [("get", [0, b, 0]), ("get", [0, a, 1]), ("eq", [0, 2]), ("eq", [1, 0])]
            sc.append((1, ops))
    for i in range(c.pick(500, 20000)):
        w = c.rng.choice([0, 1, 1, 2, 3])
        sc.append((w, var_walk(c.rng, w, c.rng.choice([20, 60]))))
    c.conform("variant", "VariantTrace", sc, label="Variant")


def opt_walk(rng, w, k):
    ops = []
    for _ in range(k):
        h, g, v = rng.randrange(3), rng.randrange(3), rng.randint(1, 60)
        r = rng.random()
        if r < .3:
            ops.append((rng.choice(["ctor", "assign"]), [h, v, rng.randrange(3)]))
        elif r < .6:
            o = rng.choice(["copyctor", "copy", "movector", "move", "swap", "assignother"])
            if o in ("swap", "assignother") and g == h:
                continue
            ops.append((o, [h, g]))
        elif r < .7:
            ops.append((rng.choice(["reset", "dctor", "bool"]), [h]))
        elif r < .75 and w != 4:
            ops.append(("assignown", [h, rng.randrange(2)]))
        elif r < .92:
            ops.append(("get", [h, rng.randrange(6)]))
        else:
            ops.append(("mutate", [h, v]))
    return ops


def exp_walk(rng, k):
    ops, st = [], [0, 0, 0]
    for _ in range(k):
        h, g, v = rng.randrange(3), rng.randrange(3), rng.randint(1, 60)
        r = rng.random()
        if r < .5:
            o = rng.choice(["val", "err", "setval", "seterr", "unexp"])
            ops.append((o, [h, v, rng.randrange(4 if o == "unexp" else 2)]))
            st[h] = 1 if o.endswith("val") else 2
        elif r < .75:
            o = rng.choice(["movector", "move"])
            ops.append((o, [h, g]))
            if h != g:
                st[h], st[g] = st[g], 0
        elif r < .8:
            ops.append(("dctor", [h]))
            st[h] = 0
        elif r < .85:
            ops.append(("bool", [h]))
        else:
            # A refused access may end the process, so it is rare.
            o = rng.choice(["value", "error", "mutate"])
            if rng.random() < .97:
                o = {1: rng.choice(["value", "mutate"]), 2: "error", 0: "bool"}[st[h]]
            ops.append((o, [h, v] if o == "mutate" else [h]))
    return ops


def own_walk(rng, w, k):
    ops, nid = [], 1
    for _ in range(k):
        h, g = rng.randrange(3), rng.randrange(3)
        r = rng.random()
        if r < .3:
            o = rng.choice(["movector", "move", "move", "swap"])
            if o == "swap" and g == h:
                continue
            ops.append((o, [h, g]))
        elif r < .37:
            ops.append(("drop", [h]))
        elif w < 22:
            o = rng.choice(["new", "reset", "reset", "resetnull", "release", "adopt", "get"])
            if o in ("new", "reset"):
                ops.append((o, [h, nid]))
                nid += 1
            else:
                ops.append((o, [h]))
        elif r < .6:
            ops.append(("newarr", [h, rng.choice([0, 1, 2, 5, 20]), rng.randrange(2)]))
        elif r < .9:
            i = rng.choice([0, 1, 2, 4, 5, 19, 20, -1, -1000])
            ops.append(("idx", [h, i, rng.randrange(2)]) if rng.random() < .6 else ("set", [h, i, rng.randint(200, 300)]))
        else:
            ops.append(("size", [h]))
    return ops


def c18(c):
    sc = []
    for w in (0, 4):
        sc += [(w, b) for b in c.gen("OptGen", consts={"World": w, "Depth": 2})]
    for i in range(c.pick(250, 8000)):
        w = c.rng.choice([0, 0, 1, 2, 3, 4])
        sc.append((w, opt_walk(c.rng, w, 40)))
    c.conform("own", "OptTrace", sc, label="Optional")
    sc = [(10, b) for b in c.gen("ExpGen", consts={"Depth": c.pick(3, 4)})]
    for i in range(c.pick(250, 8000)):
        sc.append((c.rng.choice([10, 11]), exp_walk(c.rng, 40)))
    c.conform("own", "ExpTrace", sc, label="Expected")
    sc = []
    for w in (20, 21, 22, 23):
        sc += [(w, b) for b in c.gen("OwnGen", consts={"World": w - 20, "Depth": 2})]
    for i in range(c.pick(300, 8000)):
        w = c.rng.choice([20, 21, 22, 23])
        sc.append((w, own_walk(c.rng, w, 40)))
    c.conform("own", "OwnTrace", sc, label="owning pointers")


CHECKS = {"C17": c17, "C18": c18}
