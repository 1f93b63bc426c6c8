"""C21 paths and directory entries, C22 globbing, C26 reading files."""
from props.p_view import group


def b(s):
    return list(s.encode() if isinstance(s, str) else s)


def text(rng):
    n = rng.choice([0, 1, 2, 3, 5, 8, 20, 60])
    return [rng.choice([47, 46, 97, 98, 32, 200, 47, 46]) for _ in range(n)]


def path(rng):
    n = rng.randint(1, 5)
    cs = [rng.choice(["usr", "a.b", "x", "a.tar.gz", "..", ".", ".git", "b.", "lib.so.1", "dir.d"]) for _ in range(n)]
    return b(rng.choice(["", "", "/", "./", "//"]) + rng.choice(["/", "/", "//"]).join(cs) + rng.choice(["", "", "/", "//"]))


def lexical(rng, k):
    ops = []
    while len(ops) < k:
        t, u = (path(rng) if rng.random() < .6 else text(rng) for _ in range(2))
        r = rng.random()
        if r < .4:
            ops.append((rng.choice(["ext", "name", "split"]), [t]))
        elif r < .5:
            ops.append(("text", [t, rng.randrange(2)]))
        elif r < .75:
            ops.append(("repl", [t, b(rng.choice(["", ".c", ".cpp", ".tar.xz", "x", ".longer_extension"])), rng.randrange(2)]))
        else:
            ops.append(("join", [t, u, rng.randrange(3)]))
    return ops


def directory(rng, k):
    kind = [0] * 5
    ops = []
    for _ in range(k):
        i, j = rng.randint(1, 4), rng.randint(1, 4)
        r = rng.random()
        if r < .3 and not kind[i]:
            kind[i] = rng.randint(1, 7)
            ops.append(("mk", [i, kind[i], [rng.randrange(256) for _ in range(rng.choice([0, 1, 5, 300]))] if kind[i] in (1, 5) else []]))
        elif r < .4:
            ops.append(("rm", [i]))
            kind[i] = 0
        elif r < .6:
            ops.append(("query", [i, rng.randrange(2)]))
        elif r < .8:
            if kind[i] != 4:
                ops.append(("load", [i, 0]))
        else:
            ops.append(("rename", [i, j]))
            if kind[i] and kind[j] not in (2, 6) and not (kind[i] == 2 and kind[j]) and i != j:
                kind[i], kind[j] = 0, kind[i]
    return ops


def c21(c):
    sc = group(c.gen("PathGen", consts={"MaxT": c.pick(4, 6)}))
    g = c.gen("PathGen", consts={"MaxT": 2, "What": 2, "Depth": c.pick(3, 4)})
    # A fifo must not be loaded: that waits for somebody to write.
    def waits(ops):
        fifo = set()
        for o, a in ops:
            if o == "mk" and a[1] == 4:
                fifo.add(a[0])
            if o == "rename" and a[0] in fifo:
                fifo.add(a[1])
            if o == "load" and a[0] in fifo:
                return True
        return False
    g = [x for x in g if not waits(x)]
    if len(g) > c.pick(4000, 60000):
        g = c.rng.sample(g, c.pick(4000, 60000))
    sc += [(0, x) for x in g]
    for n in (0, 1, 511, 512, 4095, 4096, 4097, 8192, 65536):
        sc.append((0, [("mk", [1, 1 + 4 * (n % 2), [(7 * k) % 251 for k in range(n)]]), ("load", [1, 0]), ("rename", [1, 2]), ("load", [2, 0])]))
    for i in range(c.pick(150, 4000)):
        sc.append((0, lexical(c.rng, 60)))
    for i in range(c.pick(150, 4000)):
        sc.append((0, directory(c.rng, 60)))
    c.conform("fs", "PathTrace", sc, label="paths")


NAMES = ["a", "b", "ab", "ba", "aba", "abc", "a.c", "b.c", ".a", ".git", ".ab", "x.tar.gz", "makefile", "aab", "c"]
PARTS = ["*", "**", "a", "b", "?", "??", "a*", "*a", "*b*", "*.c", "*.*", ".*", ".a", "?a", "a?", "*a*b*", "a*c", "**", "*", "??*", "*?", ".?", "ab"]


def tree(rng):
    dirs = [[]]
    out = []
    seen = set()
    for _ in range(rng.choice([1, 3, 8, 20, 50])):
        d = rng.choice(dirs[-6:] if rng.random() < .5 else dirs)
        p = d + [rng.choice(NAMES)]
        t = "/".join(p)
        if t in seen or len(p) > 7:
            continue
        seen.add(t)
        k = rng.choice([1, 1, 2, 2, 2, 3])
        if k == 2:
            dirs.append(p)
        out.append((k, t))
    return out, dirs


def enct(t):
    res = []
    for k, n in t:
        res += [k] + b(n) + [0]
    return res


def glob_scn(rng, n):
    t, dirs = tree(rng)
    ops = [("tree", [enct(t)])]
    for _ in range(n):
        k = rng.choice([1, 1, 2, 2, 3, 3, 4])
        ps = [rng.choice(PARTS) for _ in range(k)]
        if rng.random() < .3:
            ps[rng.randrange(k)] = "**"
        if rng.random() < .3 and t:     # along an entry there is
            ps = [rng.choice([x, x, "*", x[:1] + "*", "?" + x[1:], "**"]) for x in rng.choice(t)[1].split("/")]
        p = "/".join(ps)
        if rng.random() < .03:
            p = rng.choice(["", "**", "a/**", "**/**/a", "a**", "**a/b", "**/a/**/b"])
        if rng.random() < .05:
            p = p.replace("/", "//")
        r = "/".join(rng.choice(dirs))
        if rng.random() < .1:
            r = rng.choice([".", "./" + r if r else ".", "a", "missing", r + "/" if r else ".", "a/b"])
        form = rng.choice([0, 0, 0, 1, 2, 3, 4])
        if form == 3 and r.startswith("."):
            form = 0
        ops.append(("glob", [b(r), b(p), form]))
    return ops


def all_names(al, n):
    res = [""]
    for k in range(n):
        res += [x + ch for x in res if len(x) == k for ch in al]
    return res


def c22(c):
    c.mc("GlobWalk", consts={"MaxP": c.pick(2, 3)})
    g = c.gen("GlobGen", consts={"MaxP": c.pick(2, 3)}, limit=c.pick(40000, 400000))
    # the patterns of one tree share a scenario
    by = {}
    for tr, gl in g:
        by.setdefault(str(tr), [tr]).append(gl)
    sc = []
    for ops in by.values():
        for i in range(1, len(ops), 60):
            sc.append((0, [ops[0]] + ops[i:i + 60]))
    # every short pattern against every short name
    al = "ab."
    names = [x for x in all_names(al, c.pick(3, 4)) if x not in ("", ".", "..")]
    pats = [x for x in all_names("ab*?.", c.pick(3, 4)) if x and "**" not in x and x not in (".", "..")]
    c.rng.shuffle(pats)
    for i in range(0, len(pats), 50):
        sc.append((0, [("tree", [enct([(1, x) for x in names])])] + [("glob", [[], b(p), 0]) for p in pats[i:i + 50]]))
    for i in range(c.pick(250, 6000)):
        sc.append((0, glob_scn(c.rng, 25)))
    # deep and wide
    deep = [(2, "/".join(["d"] * k)) for k in range(1, 30)] + [(1, "/".join(["d"] * 29 + ["f"]))]
    wide = [(2, "w%d" % k) for k in range(c.pick(300, 1500))] + [(1, "w%d/f" % k) for k in range(0, c.pick(300, 1500), 3)]
    # directories full of directories, below the root
    crowd = [(2, "s"), (2, "s/t")] + [(2, "s/a directory with a long name %d" % k) for k in range(c.pick(60, 300))]
    crowd += [(1, x + "/f") for k, x in crowd[2::5]] + [(2, "s/t/%d" % k) for k in range(40)]
    for t in (deep, wide, crowd):
        sc.append((0, [("tree", [enct(t)])] + [("glob", [[], b(p), 0]) for p in ("**/f", "*/f", "*", "**/d/f", "w*/*", "**/*1/f", "s/**/f")]))
    c.conform("fs", "GlobTrace", sc, label="globbing")


def content(rng):
    n = rng.choice([0, 1, 2, 3, 5, 10, 50, 158, 159, 160, 161, 162, 320, 1000])
    return [rng.choice([10, 10, 97, 0, 13, 255, 98]) if rng.random() < .5 else rng.choice([97, 98, 195]) for _ in range(n)]


def utext(rng):
    s = "".join(rng.choice(["a", "\n", "é", "€", "𐍈", "z", "\x7f"]) for _ in range(rng.choice([0, 1, 3, 10, 100])))
    t = list(s.encode())
    if rng.random() < .5 and t:
        t[rng.randrange(len(t))] = rng.choice([0, 128, 255, 192, 10, 65])
    return t


def lines_of(s):
    n = s.count(10)
    return n + (1 if s and s[-1] != 10 else 0)


def c26(c):
    c.mc("LineImpl", consts={"MaxLen": c.pick(6, 8)})
    rng = c.rng
    ops = []
    texts = [list(x.encode()) for x in all_names("a\n\0", c.pick(4, 6))]
    for i in range(c.pick(500, 12000)):
        texts.append(content(rng))
    texts += [[97] * n + e for n in (4094, 4095, 4096, 4097, 8191, 8192) for e in ([], [10], [10, 98])]
    texts += [[10] * n for n in (100, 4096)]
    for s in texts:
        for o in ("lines", "readline", "peek", "skip"):
            ops.append([(o, [s])])
        if rng.random() < .3:
            ops.append([("load", [s])])
            ops.append([("mmap", [s, rng.randrange(3)])])
        n = lines_of(s)
        if n < 10:
            ops += [[("eof", [s, k])] for k in range(n + 1)]
        elif rng.random() < .2:
            ops += [[("eof", [s, rng.choice([n, n - 1, 1])])]]
    for i in range(c.pick(400, 6000)):
        ops.append([("loadtext", [utext(rng)])])
    for k in range(5):
        for d in (0, 1):
            ops.append([("absent", [k, d])])
    c.conform("fs", "FileTrace", group(ops, 30), label="files")


CHECKS = {"C21": c21, "C22": c22, "C26": c26}
