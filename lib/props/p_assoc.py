"""C12 hash map / hash set, C13 ordered set / ordered map."""


def map_walk(rng, length, nkeys, is_set=False, base=None):
    ops = []
    for _ in range(length):
        h = 0 if rng.random() < .85 else 1
        k = rng.randrange(nkeys)
        r = rng.random()
        if r < .36:
            ops.append(("sins", [h, k]) if is_set else (rng.choice(["ins", "ins", "idxset"]), [h, k, rng.randint(0, 900)]))
        elif r < .66:
            ops.append(("rem" if rng.random() < .9 else "remown", [h, k]))
        elif r < .72:
            ops.append(("has", [h, k]) if is_set or rng.random() < .3 else (rng.choice(["look", "at"]), [h, k]))
        elif r < .76:
            if not is_set:
                ops.append(rng.choice([("idx", [h, k]), ("insown", [h, k, rng.randint(0, 900)])]))
        elif r < .82:
            c = rng.choice([1, 3, 8, 12, 13, 14, 25, 40])
            b, s = rng.choice([0, 0, 5, 64, 1000]), rng.choice([1, 1, 2, 4, 16, 64])
            ops.append(("sfill", [h, b, s, c]) if is_set else ("fill", [h, b, s, c, rng.randrange(50)]))
            if rng.random() < .7:
                ops.append(("cut", [h, b, s, rng.choice([c, c - 1, c // 2])]))
        elif r < .88:
            ops.append(("churn", [h, rng.choice([0, 100, 2000]), rng.choice([1, 5, 20, 60])]))
        elif r < .91:
            ops.append(("clear", [h]))
        elif r < .96:
            g = 1 - h
            ops.append((rng.choice(["move", "movector"]), [h, g]))
        elif r < .97:
            ops.append(("move", [h, h]))
        elif r < .98:
            i = rng.choice([0, 1, 2, 5, nkeys])
            ops.append(("iteq", [h, i, rng.choice([i, i + 1, max(i - 1, 0), 0, nkeys])]))
        elif r < .985:
            ops.append(("bump", [h]))
        else:
            ops.append(("has", [h, k]))
    return ops


def c12(c):
    c.mc("HashImpl", consts={"Keys": "{1, 2, 3, 4, 5}"} if c.thorough else {}, workers=8)
    g = c.gen("MapGen", consts={"Depth": 3})
    if c.thorough:
        g += c.gen("MapGen", consts={"Depth": 4})
    sc = []
    for i, b in enumerate(g):
        if c.thorough:
            sc += [(w, b) for w in (1, 3, 4)]
        else:
            sc.append(((1, 4, 2)[i % 3], b))
    worlds = [0, 1, 2, 3, 4, 5, 6, 7, 8, 20, 21]
    for i in range(c.pick(500, 12000)):
        w = worlds[i % len(worlds)]
        sc.append((w, map_walk(c.rng, c.rng.choice([25, 60, 60]), c.rng.choice([3, 6, 12, 20]))))
    for i in range(c.pick(250, 5000)):
        w = 10 + i % 9
        sc.append((w, map_walk(c.rng, c.rng.choice([25, 60]), c.rng.choice([3, 6, 12, 20]), is_set=True)))
    for i in range(c.pick(12, 60)):
        w = (0, 7, 3, 5)[i % 4]
        n = c.rng.choice([100, 400, 1000])
        sc.append((w, [("fill", [0, 0, 1, n, i]), ("quiet", [1]), ("cut", [0, 0, 2, n // 2]), ("churn", [0, 5000, 3 * n]), ("fill", [0, 1, 3, n // 3, i + 1]),
                       ("quiet", [0]), ("move", [1, 0]), ("cut", [1, 1, 1, n - 3]), ("rem", [1, 0])]))
    for n in (66000, 133000)[:c.pick(1, 2)]:
        sc.append((0, [("quiet", [1]), ("fill", [0, 0, 1, n, 1]), ("look", [0, 0]), ("look", [0, n - 1]), ("look", [0, n]), ("count", [0])]))
    c.conform("hash", "MapTrace", sc, label="HashMap/HashSet")


def tree_walk(rng, length, nkeys, is_set):
    ops = []
    # Phases of growth and shrinking, so that all heights are visited in both directions.
    grow = .7
    for i in range(length):
        if i % 40 == 0:
            grow = rng.choice([.85, .6, .5, .3, .15])
        h = 0 if rng.random() < .93 else 1
        k = rng.randrange(nkeys)
        r = rng.random()
        if r < .8:
            if rng.random() < grow:
                ops.append(("sins", [h, k]) if is_set else ("ins", [h, k, rng.randint(0, 900)]))
            else:
                ops.append((rng.choice(["rem", "rem", "rem", "remown"]), [h, k]))
        elif r < .86:
            ops.append(("has", [h, k]) if is_set else ("look", [h, k]))
        elif r < .91:
            n = rng.choice([3, 7, 15, 40])
            b, st = rng.choice([(0, 1), (n, -1), (5, 2), (3 * n, -3), (100, 1)])
            ops.append(("sfill", [h, b, st, n]) if is_set else ("fill", [h, b, st, n, rng.randrange(50)]))
        elif r < .95:
            n = rng.choice([3, 7, 15, 40])
            b, st = rng.choice([(0, 1), (n, -1), (5, 2), (3 * n, -3), (100, 1)])
            ops.append(("cut", [h, b, st, n]))
        elif r < .96:
            ops.append((rng.choice(["move", "movector"]), [h, 1 - h]))
        elif r < .965:
            ops.append(("move", [h, h]))
        elif r < .97:
            ops.append(("reserve", [h, rng.choice([0, 1, 40, 500])]))
        elif r < .975:
            ops.append(("itersame", [h, rng.choice([h, 1 - h])]))
        elif r < .978:
            ops.append(("walk", [h, rng.choice([0, 1, 2, 5, 100])]))
        elif r < .979:
            ops.append(("bump", [h]))
        elif r < .981:
            i = rng.randrange(nkeys + 1)
            ops.append(("iteq", [h, i, rng.choice([i, i + 1, rng.randrange(nkeys + 1), 0, nkeys])]))
        elif r < .985:
            if not is_set:
                ops.append(("lookset", [h, k, rng.randint(0, 900)]))
        else:
            ops.append(("churn", [h, rng.choice([0, 50, 2000]), rng.choice([5, 20])]))
    return ops


def c13(c):
    """Worlds: 100 * kind + entries per node; kind 0 tree of keys with a payload, 1 set, 2 map."""
    sc = []
    for e, n in c.pick([(3, 8), (5, 9)], [(3, 11), (5, 12), (7, 12)]):
        for i, t in enumerate(c.tours("BTreeImpl", consts={"E": e, "N": n}, length=50)):
            kind = (0, 1, 2)[i % 3] if not c.thorough else (0, 0, 1, 2)[i % 4]
            if kind != 1:
                t = [("ins", [0, a[1], (a[1] * 7 + j) % 50]) if o == "sins" else (o, a) for j, (o, a) in enumerate(t)]
            sc.append((100 * kind + e, t))
    for i in range(c.pick(200, 6000)):
        kind = i % 3
        e = (3, 5, 7, 9)[(i // 3) % 4]
        nk = c.rng.choice([8, 20, 60, 200])
        sc.append((100 * kind + e, tree_walk(c.rng, c.rng.choice([60, 200]), nk, kind == 1)))
    for i in range(c.pick(70, 4000)):
        # Build up, tear down completely, build up again.
        kind = (0, 0, 1, 2)[i % 4]
        e = (3, 3, 3, 5, 7)[i % 5]
        n = c.rng.choice([12, 20, 35, 60, 90])
        put = (lambda k: ("sins", [0, k])) if kind == 1 else (lambda k: ("ins", [0, k, c.rng.randint(0, 900)]))
        keys = list(range(n))
        ops = [("quiet", [1])]
        for _ in range(2):
            shape = c.rng.random()
            if shape < .6:
                c.rng.shuffle(keys)
            else:
                keys.sort(reverse=shape < .8)
            ops += [put(k) for k in keys]
            shape = c.rng.random()
            if shape < .7:
                c.rng.shuffle(keys)
            else:
                keys.sort(reverse=shape < .85)
            for j, k in enumerate(keys):
                if j % 7 == 0 or j >= n - 3:
                    ops.append(("quiet", [0]))
                ops.append(("rem", [0, k]))
                ops.append(("quiet", [1]))
        sc.append((100 * kind + e, ops))
    for i in range(c.pick(9, 60)):
        e = (3, 5, 7)[i % 3]
        n = c.rng.choice([200, 500, 1000])
        ops = [("quiet", [1])]
        m = c.rng.choice([7, 11, 13, 1])
        for j in range(m):
            ops.append(("fill", [0, j, m, n // m, j]))
        ops += [("quiet", [0]), ("look", [0, 5]), ("quiet", [1])]
        m = c.rng.choice([3, 5, 1])
        for j in range(m - 1):
            ops.append(("cut", [0, j, m, n // m]))
        ops += [("quiet", [0]), ("cut", [0, n, -1, n + 1]), ("ins", [0, 3, 4]), ("rem", [0, 3]), ("ins", [0, 4, 4])]
        sc.append((e, ops))
    c.conform("btree", "MapTrace", sc, label="ordered tree, set and map")


CHECKS = {"C12": c12, "C13": c13}
