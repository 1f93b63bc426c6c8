"""C19 mutexes, guards and threads."""


def c19(c):
    for rounds in range(1, c.pick(2, 4) + 1):
        c.mc("ThreadMC", consts={"Rounds": rounds})
    c.assume("the operating system's threads are not controlled inside a single call: the interleavings of free running threads are the ones that occur")
    sc = []
    for g in c.gen("ThreadGen", consts={"Depth": c.pick(4, 5)}, limit=c.pick(4000, 40000)):
        sc.append((0, g + [("fin", [])]))
    for g in c.gen("ThreadGen", sim=(c.pick(150, 2000), 30)):
        sc.append((0, g + [("fin", []), ("probe", [])]))
    # Whoever waits goes on waiting, however long it takes.
    for k, rel in ((1, 2), (4, 5), (4, 6)):
        for w in (1, 4):
            sc.append((0, [("do", [2, k, 1]), ("do", [3, w, 1]), ("nap", [c.pick(2500, 30000)]), ("do", [2, rel, 1]), ("do", [2, 3, 1]), ("fin", [])]))
    c.conform("threads", "ThreadTrace", sc, san=None, label="controlled schedules")
    sc = []
    for i in range(c.pick(3, 20)):
        sc.append((0, [("life", [v, 0]) for v in range(7)] + [("probe", [])]))
    for v in (0, 1, 6):
        sc.append((0, [("life", [v, c.pick(2500, 30000)])]))
    for i in range(c.pick(200, 4000)):
        sc.append((0, [("free", [c.rng.choice([2, 2, 3, 4]), c.rng.choice([3, 6, 10]), c.rng.randrange(1 << 30)]) for _ in range(3)]))
    c.conform("threads", "ThreadTrace", sc, san=None, label="free running threads and lives of threads")


CHECKS = {"C19": c19}
