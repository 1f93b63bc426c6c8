"""C06 UTF-8 validity, C07 iteration, C08 casing."""
from props.p_view import CPS, u8text, enc8, group
from props.p_str import CH

LEAD = [0, 1, 65, 127, 128, 143, 144, 159, 160, 191, 192, 193, 194, 195, 223, 224, 225, 236, 237, 238, 239, 240, 241, 243, 244, 245,
        247, 248, 252, 254, 255]


def broken(rng):
    t = enc8(u8text(rng, rng.choice([1, 2, 4])))
    i = rng.randrange(len(t))
    r = rng.random()
    if r < .35:
        t[i] = rng.choice(LEAD)
    elif r < .6:
        del t[i]
    elif r < .75:
        t.insert(i, rng.choice([128, 191, 192, 237, 244, 0, 255]))
    elif r < .85:
        t = t[:i]
    else:
        t[i:i] = rng.choice([[0xC0, 0x80], [0xED, 0xA0, 0x80], [0xED, 0xBF, 0xBF], [0xE0, 0x80, 0x80], [0xE0, 0x9F, 0xBF], [0xF0, 0x8F, 0xBF, 0xBF],
                             [0xF4, 0x90, 0x80, 0x80], [0xF5, 0x80, 0x80, 0x80], [0xC1, 0xBF], [0xF8, 0x88, 0x80, 0x80, 0x80], [0]])
    return t


def ustr_walk(rng, length, iter_weight=0.12):
    ops = []
    size = [0, 0]
    for _ in range(length):
        h = rng.choice([0, 0, 1])
        r = rng.random()
        R = lambda: rng.randrange(30)
        if r < iter_weight:
            ops.append(("walk", [h, [rng.choice([1, 1, 1, 2, 3, 3]) for _ in range(rng.choice([3, 8, 20]))]]) if rng.random() < .5
                       else ("cut", [h, R(), R()]))
        elif r < .3:
            t = broken(rng) if rng.random() < .35 else enc8(u8text(rng, rng.choice([0, 1, 2, 5, 9])))
            o = rng.choice(["ctorn", "ctorb", "ctorv", "setv", "ctorz", "ctorvz"])
            if o.endswith("z"):
                t = [x or 1 for x in t]
            ops.append((o, [h, t]))
            size[h] = max(size[h], len(t))
        elif r < .45:
            ops.append(("cp", [h, rng.choice(CPS + [0, 0xD800, 0xDFFF, 0xDBFF, 0x110000, 0x1FFFFF, 2**31 - 1])]))
            size[h] += 4
        elif r < .5:
            g = rng.randrange(2)
            if size[h] + size[g] < 160:
                ops.append(("pluss", [h, g]))
                size[h] += size[g]
        elif r < .62:
            if size[h] > 160:
                ops.append(("rem", [h, 1, 25]))
                continue
            t = broken(rng) if rng.random() < .25 else enc8(u8text(rng, rng.choice([0, 1, 2, 4])))
            ops.append(("ins", [h, R(), t]))
            size[h] += len(t)
        elif r < .66:
            if size[h] < 100:
                ops.append(("insself", [h, R(), R(), R()]))
                size[h] *= 2
        elif r < .73:
            ops.append(("rem", [h, R(), R() % 4]))
        elif r < .8:
            ops.append((rng.choice(["popf", "popb"]), [h]))
        elif r < .83:
            ops.append((rng.choice(["setself", "setself", "remother"]), [h, R(), R()][:3]) if rng.random() < .8 else ("remother", [h]))
        elif r < .87:
            ops.append(("substr", [h, rng.choice([0, 1, 2, 3, 5, 8, 200, -1]), rng.choice([0, 1, 2, 3, 4, 100, -1])]))
        elif r < .93:
            o = rng.choice(["copy", "copyctor", "move", "movector"])
            g = 1 - h if o.endswith("ctor") or rng.random() < .8 else h
            ops.append((o, [h, g]))
            size[h] = size[g]
        elif r < .96:
            ops.append(("cmp", [h]) if rng.random() < .6 else ("eqz", [h, enc8(u8text(rng, rng.choice([0, 1])))]))
        elif r < .99:
            ops.append(("has", [h, R(), R(), R(), R()]))
        else:
            ops.append(rng.choice([("exc", [h, [rng.choice(CH) for _ in range(5)]]), ("reserve", [h, rng.choice([0, 1, 40, 100])])]))
    return ops


def c06(c):
    c.mc("Utf8MC", consts={"MaxLen": c.pick(3, 4)}, workers=8)
    # Every last byte after every lead pair, with suffixes.
    acc = [("acc", [[], []])]
    for b in range(256):
        acc.append(("acc", [[b], []]))
    for b in LEAD:
        for x in (LEAD if not c.thorough else range(256)):
            acc.append(("acc", [[b, x], []]))
            if c.thorough or b > 223:
                acc.append(("acc", [[b], [x]]))
    lead4 = [237, 239, 240, 241, 243, 244, 245, 247, 248]
    for b in lead4:
        for x in LEAD:
            for y in LEAD if c.thorough else [128, 191]:
                acc.append(("acc", [[b, x, y], []]))
                acc.append(("acc", [[b, x], [y]]))
                acc.append(("acc", [[b], [x, y]]))
    for pre in ([195], [97, 226, 130], [240, 159, 152], [228, 184, 173]):
        for suf in ([97], [128], [195, 164]):
            acc.append(("acc", [pre, suf]))
    enc = [("enc", [k]) for k in list(range(0, 0x112000, 256)) + [0x1FFF00, 0x200000, 0x7FFFFE00]]
    sc = [(1, acc[i:i + 60]) for i in range(0, len(acc), 60)] + [(1, enc[i:i + 100]) for i in range(0, len(enc), 100)]
    c.conform("ustr", "UBlkTrace", sc, label="UTF-8 acceptance and encoding")
    ustr(c, .06, 1)


def ustr(c, w, n):
    sc = [(0, b) for b in c.gen("UStrGen", consts={"Depth": 2}, limit=c.pick(5000, None))]
    if c.thorough:
        sc += [(0, b) for b in c.gen("UStrGen", consts={"Depth": 3}, limit=40000)]
    sc += [(0, b) for b in c.gen("UStrGen", sim=(c.pick(150, 4000), 10))]
    for i in range(c.pick(350, 8000) * n):
        sc.append((0, ustr_walk(c.rng, c.rng.choice([12, 30]), w)))
    c.conform("ustr", "UStrTrace", sc, label="U8String")


def c07(c):
    sc = []
    for i in range(c.pick(1200, 20000)):
        t = enc8(u8text(c.rng, c.rng.choice([0, 1, 2, 3, 6, 12, 30])))
        if c.rng.random() < .15:
            t = [c.rng.choice([65, 127])] * c.rng.choice([15, 16, 31, 32, 33])
        ops = [("ctorn", [0, t])]
        for _ in range(c.rng.choice([1, 3, 6])):
            R = lambda: c.rng.randrange(40)
            ops.append(c.rng.choice([("walk", [0, [c.rng.choice([1, 1, 1, 2, 3, 3]) for _ in range(c.rng.choice([3, 8, 20, 60]))]]),
                                     ("cut", [0, R(), R()]), ("has", [0, R(), R(), R(), R()]), ("popf", [0]), ("popb", [0]),
                                     ("rem", [0, R(), R() % 3])]))
        sc.append((0, ops))
    # Long texts: every code point class next to every other, and full walks.
    for a in CPS:
        t = []
        for b in CPS:
            t += [a, b]
        k = len(t)
        sc.append((0, [("ctorn", [0, enc8(t)]), ("walk", [0, [1] * k + [2] * (k + 1)]), ("walk", [0, [3] * (k + 1)])]))
    c.conform("ustr", "UStrTrace", sc, label="iteration")
    enc = [("enc", [k]) for k in list(range(0, 0x11000, 256)) + list(range(0x11000, 0x110000, c.pick(4096, 256)))]
    c.conform("ustr", "UBlkTrace", [(1, enc[i:i + 50]) for i in range(0, len(enc), 50)], label="every code point both ways")


def c08(c):
    ev = [("case", [k]) for k in range(0, 0x110000, 256)]
    cased = [0xDF, 0x149, 0x1F0, 0x130, 0x131, 0x3A3, 0x3C2, 0x1E9E, 0xFB00, 0xFB03, 0x1C4, 0x1C5, 0x1C6, 0x10400, 0x10428, 0x390, 0x1FB4, 0x1FE4,
             0xE4, 0xC4, 0xFF, 0x178, 0x2C2F, 0xA64A, 0x1D7D, 0xAB70, 0x1E922, 65, 97, 90, 122, 48, 0x2160, 0x24B6, 0x345, 0xB5, 0x212A]
    for i in range(c.pick(1500, 30000)):
        ev.append(("casestr", [enc8(u8text(c.rng, c.rng.choice([0, 1, 2, 5, 12, 30]), cased + CPS))]))
    sc = [(1, ev[i:i + 40]) for i in range(0, len(ev), 40)]
    c.conform("ustr", "CaseTrace", sc, label="casing")
    asc = []
    for b in range(1, 256):
        asc += [("upper", [[b, 97], 0, 1]), ("lower", [[b, 65], 0, 1])]
    for i in range(c.pick(600, 8000)):
        t = [c.rng.choice(CH + [65, 90, 64, 91, 97, 122, 96, 123, 228, 196]) for _ in range(c.rng.choice([0, 1, 5, 20, 40]))]
        b = c.rng.randint(0, len(t))
        asc.append((c.rng.choice(["upper", "lower"]), [t, b, c.rng.randint(b, len(t))]))
    c.conform("view", "ViewTrace", group([[x] for x in asc]), label="ASCII casing")


CHECKS = {"C06": c06, "C07": c07, "C08": c08}
