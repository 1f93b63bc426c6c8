"""C03 lifetimes: the scenarios of the other components, run with instrumented elements and allocation accounting."""
import concurrent.futures as cf
import random

from props import CHECKS as ALL


class Collect:
    """Takes the place of a check and keeps its scenarios."""
    def __init__(self, c, pid):
        self.c = c
        self.pid = pid
        self.got = []
        self.rng = random.Random("%s %s" % (pid, c.seed))
        self.work, self.stats, self.seed = c.work, c.stats, c.seed
        self.builder = c.builder
        self.thorough = False
        self.tier = "quick"

    def pick(self, quick, thorough):
        return quick

    def mc(self, *a, **k):
        pass

    def assume(self, s):
        pass

    def gen(self, module, **kw):
        return self.c.gen(module, **kw)

    def tours(self, module, length=60, **kw):
        import vlib
        return vlib.tours(vlib.edges(module, self.work, self.stats, **kw), self.rng, length)

    def conform(self, driver, module, sc, label="", **kw):
        self.got.append((driver, sc, label, kw, module))


# Scenarios of these run on the worlds whose elements are instrumented, where there is a choice.
WORLDS = {"Vector": [1, 1, 1, 2, 0], "Stack": [5, 5, 4], "FixedVector": [1, 2, 5], "Variant": None}
FROM = ["C01", "C02", "C04", "C05", "C06", "C07", "C08", "C10", "C11", "C12", "C13", "C14", "C15", "C16", "C17", "C18", "C21", "C22", "C23", "C25", "C26"]


def c03(c):
    c.mc("LifeMC", consts={"Depth": c.pick(7, 9)})
    n = c.pick(600, 20000)

    def one(pid):
        k = Collect(c, pid)
        ALL[pid](k)
        return k.got

    # The drivers are compiled in the meantime.
    pre = cf.ThreadPoolExecutor(20)
    for d in ("algo", "ustr", "fs", "own", "variant", "hash", "btree", "vec", "misc", "bytes", "cstr", "fixcstr", "fixvec", "regex", "split", "view"):
        pre.submit(c.builder.driver, d)
    with cf.ThreadPoolExecutor(6) as ex:
        got = sum(ex.map(one, FROM), [])
    by = {}
    for driver, sc, label, kw, _ in got:
        # Very large numbers of instrumented objects only cost time.
        sc = [x for x in sc if not any(o in ("fill", "sfill", "bigsort", "popn", "churn", "cut") and max(a) > 250 for o, a in x[1])] if driver in ("vec", "hash", "btree", "algo") else sc
        sc = sc if len(sc) <= n else c.rng.sample(sc, n)
        w = WORLDS.get(label)
        if w:
            sc = [(c.rng.choice(w), ops) for _, ops in sc]
        key = (driver, tuple(sorted(kw.items())))
        by.setdefault(key, []).append((label, sc))
    for (driver, kw), parts in sorted(by.items()):
        sc = sum((p[1] for p in parts), [])
        env = dict(dict(kw).get("env") or {}, DRV_LEAK="1")
        c.conform(driver, "LifeTrace", sc, env=env, label=driver + ": " + ", ".join(p[0] for p in parts))


CHECKS = {"C03": c03}
