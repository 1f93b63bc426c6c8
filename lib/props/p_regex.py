"""C23 regular expressions."""
from props.p_view import group

ALNUM = set(range(48, 58)) | set(range(65, 91)) | set(range(97, 123))


def ch(c):
    if c < 128 and c not in ALNUM:
        return [92, 110] if c == 10 else [92, c]
    return list(chr(c).encode())


def wrap(s):
    return [40, 63, 58] + s + [41]


def num(k):
    return list(str(k).encode())


def render(n):
    c = n[0]

    def q(a):
        return render(a) if a[0] in (1, 2, 11, 15, 16, 22) else wrap(render(a))

    def s(a):
        return wrap(render(a)) if a[0] == 4 else render(a)

    def lz(r):
        return r + [63] if c in (8, 9, 10, 18) else r
    if c == 0:
        return []
    if c == 1:
        return ch(n[1])
    if c == 2:
        return [46]
    if c == 3:
        return s(n[1]) + s(n[2])
    if c == 4:
        return render(n[1]) + [124] + render(n[2])
    if c in (5, 8):
        return lz(q(n[1]) + [42])
    if c in (6, 9):
        return lz(q(n[1]) + [43])
    if c in (7, 10):
        return lz(q(n[1]) + [63])
    if c == 11:
        return [40] + render(n[1]) + [41]
    if c == 13:
        return [94]
    if c == 14:
        return [36]
    if c in (15, 16):
        return [91] + ([94] if c == 16 else []) + [x for k in n[1] for x in ch(k)] + [93]
    if c in (17, 18):
        lim = [] if n[2] == n[3] else [44] + ([] if n[3] == -1 else num(n[3]))
        return lz(q(n[1]) + [123] + num(n[2]) + lim + [125])
    if c in (19, 20, 21):
        return [40, 63, {19: 61, 20: 33, 21: 62}[c]] + render(n[1]) + [41]
    if c == 22:
        return [92, 103, 123] + num(n[1]) + [125]
    return [92, 98]


def prefix(n):
    c = n[0]
    if c in (15, 16):
        return [c, len(n[1])] + n[1]
    if c in (17, 18):
        return [c, n[2], n[3]] + prefix(n[1])
    if c in (1, 22):
        return [c, n[1]]
    return [c] + [x for a in n[1:] for x in prefix(a)]


def count(n):
    return (n[0] == 11) + sum(count(a) for a in n[1:] if isinstance(a, tuple))


def pattern(rng, size, al):
    if size <= 1:
        r = rng.random()
        if r < .65:
            return (1, rng.choice(al))
        return rng.choice([(2,), (13,), (14,), (0,), (23,), (15, [rng.choice(al), rng.choice(al)]), (16, [rng.choice(al)]), (16, [rng.choice(al), 46]), (22, -1)])
    r = rng.random()
    if r < .5 and size > 2:
        k = rng.randint(1, size - 2)
        return (rng.choice([3, 3, 3, 4]), pattern(rng, k, al), pattern(rng, size - 1 - k, al))
    a = pattern(rng, size - 1, al)
    if r < .75:
        return (11, a)
    if r < .93:
        return (rng.choice([5, 5, 6, 6, 7, 7, 8, 9, 10]), a)
    if r < .96:
        m = rng.randint(0, 2)
        return (rng.choice([17, 18]), a, m, rng.choice([-1, m, m + 1, m + 2]) if m else rng.choice([-1, 1, 2]))
    return (rng.choice([19, 20, 21]), a)


def backrefs(rng, n, total):
    if n[0] == 22:
        return (22, rng.randint(1, total)) if total else (0,)
    return tuple(backrefs(rng, a, total) if isinstance(a, tuple) else a for a in n)


BAD = ["(", ")", "a)", "(a", "[a", "[", "*a", "+", "?", "a{2,1}", "(?", "(?<", "(?P<n", "\\", "[b-a]", "(?:a", "a**b{3,2}", "\\g{9}", "(a\\2)", "(?<n>a)(?<n>b)", "[[:foo:]]", "\\x{110000}", "(?z)"]


def c23(c):
    c.mc("RegexMC", consts={"Size": 3, "MaxLen": c.pick(2, 4)})
    if c.tier == "thorough":
        c.mc("RegexMC", consts={"Size": 4, "MaxLen": 2})
    sc = group(c.gen("RegexGen", consts={"Size": 3}, limit=c.pick(9000, 100000)), 60)
    rng = c.rng
    ops = []
    for i in range(c.pick(9000, 150000)):
        al = rng.choice([[97, 98], [97, 98, 99], [97, 233, 8364], [97, 10, 98], [95, 97, 32], [0x10348, 97]])
        n = pattern(rng, rng.choice([3, 4, 5, 6, 7, 8, 10]), al)
        n = backrefs(rng, n, count(n))
        s = [rng.choice(al) for _ in range(rng.choice([0, 1, 2, 3, 4, 5, 6, 8]))]
        ops.append([("search", [render(n), prefix(n), list("".join(map(chr, s)).encode()), rng.choice([0, 0, 2])])])
    sc += group(ops, 60)
    sc += [(0, [("bad", [list(x.encode())]) for x in BAD])]
    c.conform("regex", "RegexTrace", sc, label="regular expressions")


CHECKS = {"C23": c23}
