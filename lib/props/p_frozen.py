"""F01-F04: the frozen earlier edition, judged by the specifications of the current one.

The scenarios are those of the current edition's checks; operations the earlier edition lacks, or whose outcome was
undefined when it was frozen, are left out by the drivers (unknown(), UNDEFINED_2025).  The defects it was frozen with
are run one by one as probes and reported as known findings."""
import concurrent.futures as cf

from props import CHECKS as ALL
from props.p_fs import enct
from props.p_life import Collect

# Worlds the earlier edition does not have (driver -> worlds).
NOT = {
    "hash": lambda w: w == 20,
    "btree": lambda w: w >= 100,
    "own": lambda w: w in (2, 4, 23),
}

# Operations it has, where most are missing: a sample is worth taking only from these.
ALGO = {"partition": 0, "lower": 1, "min": 1, "find": None, "findif": None, "minmax": None}
KEEP = {
    "algo": lambda o, a: (o in ("sort", "dsort") and a[0] == 0 and a[2] != 3 and (o == "dsort" or a[3] == 0)
                          or o in ALGO and (ALGO[o] is None or a[ALGO[o]] == 0) and 3 not in a[:2]),
    "variant": lambda o, a: o != "eq",
    "misc": lambda o, a: o not in ("fcmp", "fsort", "reset")
    and not (o == "iclamp" and a[0] < a[1]),
}

# Operations judged by a weaker rule in the earlier edition (see the specification).
RENAME = {("ustr", "acc"): "acclax", ("misc", "prim"): "primz", ("misc", "obj"): "objz", ("fs", "lines"): "linesz",
          ("fs", "readline"): "readlinez", ("fs", "loadtext"): "loadtextz"}


LIM = 10**9


def ranges(ops):
    """Leaves out the ranges it can not have: a scenario goes on with the next one it can."""
    res, ok = [], True
    for o, a in ops:
        if o == "mk":
            ok = a[3] != 3 or a[2] > 0 and a[1] + a[2] <= LIM
        if ok:
            res.append((o, a))
    return res


def varied(rng, sc, n):
    """A sample of n scenarios with every operation on every kind of argument, as far as there are any."""
    sc = list(sc)
    rng.shuffle(sc)
    kind = lambda x: len(x) if isinstance(x, (list, tuple)) else x
    seen, got, rest = {}, [], []
    for w, ops in sc:
        keys = {(o, *map(kind, a)) for o, a in ops}
        if len(keys) < 13 and len(got) < n // 2 and any(seen.get(k, 0) < 2 for k in keys):
            got.append((w, ops))
            for k in keys:
                seen[k] = seen.get(k, 0) + 1
        else:
            rest.append((w, ops))
    return got + rest[:n - len(got)]


def frozen(c, pids, drivers, cap=None):
    pre = cf.ThreadPoolExecutor(8)
    for d in drivers:
        pre.submit(c.builder.driver, d, 2025)

    def one(pid):
        k = Collect(c, pid)
        if c.thorough:
            k.pick = lambda quick, thorough: thorough
            k.thorough = True
        ALL[pid](k)
        return k.got

    with cf.ThreadPoolExecutor(6) as ex:
        for driver, sc, label, kw, module in sum(ex.map(one, pids), []):
            sc = [x for x in sc if not NOT.get(driver, lambda w: False)(x[0])]
            keep = KEEP.get(driver)
            if keep:
                sc = [(w, [x for x in ops if keep(*x)]) for w, ops in sc]
                sc = [x for x in sc if x[1]]
            if driver == "fs":
                sc = [x for x in ((w, globs(ops)) for w, ops in sc) if len(x[1]) > (x[1][0][0] == "tree" if x[1] else 0)]
            if driver == "misc":
                sc = [x for x in ((w, ranges(ops)) for w, ops in sc) if x[1]]
            if cap and len(sc) > cap and not c.thorough:
                sc = varied(c.rng, sc, cap)
            sc = [(w, [(RENAME.get((driver, o), o), a) for o, a in ops]) for w, ops in sc]
            kw = dict(kw)
            kw["epoch"] = 2025
            c.conform(driver, module, sc, label="2025 " + label, **kw)


def f01(c):
    frozen(c, ["C01", "C02", "C04", "C12", "C13"], ["vec", "fixvec", "bytes", "hash", "btree"], cap=3000)
    p = [("push", [0, 1]), ("push", [0, 2])]
    c.probe("vec", "VectorTrace", [
        ("vector-push-own-element", 1, p + [("pushself", [0, 0])]),
        ("vector-emplace-own-element", 1, p + [("emplself", [0, 0])]),
    ])
    b = [("assign", [0, [3, 5, 7]])]
    c.probe("bytes", "BytesTrace", [
        ("bytes-pop-front-all", 0, b + [("popfront", [0, 3]), ("size", [0])]),
        ("bytes-index-unused", 0, b + [("get", [0, 3])]),
        ("bytes-back", 0, b + [("back", [0])]),
        ("bytes-remove-past-end", 0, b + [("remove", [0, 1, 5])]),
        ("bytes-append-own", 0, [("assign", [0, list(range(15))]), ("appendself", [0, 0, 15])]),
        ("bytes-assign-own", 0, [("ctor", [0, [1, 2, 3, 4]]), ("assignself", [0, 0, 4])]),
        ("bytes-order", 0, [("assign", [0, [2, 1]]), ("assign", [1, [1, 2]]), ("cmp", [0, 1])]),
    ])
    c.probe("hash", "MapTrace", [
        ("hash-insert-behind-removed", 1, [("ins", [0, 1, 5]), ("ins", [0, 2, 5]), ("ins", [0, 3, 5]), ("rem", [0, 2]), ("ins", [0, 3, 6]), ("rem", [0, 3])]),
        ("hash-lookup-endless", 3, sum(([("fill", [0, i * 11, 1, 11, 1]), ("cut", [0, i * 11, 1, 11])] for i in range(9)), [])),
        ("hash-moved-from", 3, [("ins", [0, 1, 5]), ("move", [1, 0]), ("ins", [0, 1, 2])]),
        ("hash-insert-own-key", 3, [("fill", [0, 0, 1, 12, 1]), ("insown", [0, 3, 2])]),
    ])
    c.probe("btree", "MapTrace", [
        ("tree-remove-interior", 3, [("ins", [0, k, 1]) for k in (0, 5, 4, 1, 2, 3)] + [("rem", [0, 0]), ("rem", [0, 4])]),
        ("tree-insert-after-empty", 3, [("ins", [0, 1, 1]), ("rem", [0, 1]), ("ins", [0, 2, 2]), ("look", [0, 2])]),
        ("tree-remove-own", 3, [("ins", [0, k, 1]) for k in (1, 3, 2, 0)] + [("remown", [0, 3])]),
        ("tree-moved-from", 3, [("ins", [0, 1, 1]), ("move", [1, 0]), ("look", [0, 1])]),
    ])


def f02(c):
    frozen(c, ["C05", "C06", "C07", "C08", "C09", "C10"], ["cstr", "fixcstr", "ustr", "view", "split"], cap=1500)
    ab = [("ctorn", [0, [97, 98, 99]])]
    c.probe("cstr", "CStrTrace", [
        ("cstring-clear", 0, ab + [("clear", [0])]),
        ("cstring-moved-from", 0, ab + [("move", [1, 0])]),
        ("cstring-resize", 0, ab + [("resize", [0, 2])]),
        ("cstring-remove-past-end", 0, ab + [("remove", [0, 1, 9])]),
        ("cstring-append-null", 0, ab + [("plusc", [0, 0])]),
        ("cstring-append-own", 0, [("ctorn", [0, list(range(1, 21))]), ("appendself", [0, 0, 20]), ("appendself", [0, 0, 40])]),
        ("cstring-insert-past-end", 0, ab + [("insert", [0, 9, [97]])]),
        ("cstring-insert-null", 0, ab + [("insert", [0, 1, [97, 0]])]),
        ("cstring-substr", 0, ab + [("substr", [0, 1, 9])]),
        ("cstring-order", 0, [("ctorn", [0, [98, 97]]), ("ctorn", [1, [97, 98]]), ("cmp", [0, 1])]),
        ("cstring-rfind-zero", 0, ab + [("rfind", [0, 0])]),
    ])
    c.probe("fixcstr", "FixedCStrTrace", [
        ("fixedcstring-from-size", 11, [("ctorn", [0, [97, 98]])]),
        ("fixedcstring-own-prefix", 11, [("ctorz", [0, [97, 98]]), ("setself", [0, 0, 1])]),
        ("fixedcstring-too-long", 11, [("ctorz", [2, [97] * 8]), ("cross", [0, 2])]),
    ])
    c.probe("view", "ViewTrace", [
        ("view-starts-with", 0, [("startsv", [[97, 98, 99], 0, 3, [97, 98]])]),
        ("view-find-at-end", 0, [("findv", [[97, 98, 99], 0, 3, [99]])]),
        ("view-index-end", 0, [("idx", [[97, 98, 99], 0, 2, 2])]),
        ("view-front-empty", 0, [("front", [[97], 0, 0])]),
        ("view-order-zero", 0, [("less", [[97, 0, 98], 0, 3, [97, 0, 99]])]),
        ("view-overlaps-adjacent", 0, [("overlaps", [[97, 98, 99], 0, 1, 1, 2])]),
        ("view-substr-huge", 0, [("substr", [[97, 98, 99], 0, 3, 2, -2])]),
        ("view-upper-null", 0, [("upper", [[97, 0, 98], 0, 3])]),
    ])
    c.probe("ustr", "UBlkTrace", [
        ("utf8-overlong", 1, [("acc", [[0xE0], [0x80]])]),
        ("utf8-surrogate", 1, [("acc", [[0xED, 0xA0], []])]),
        ("utf8-too-large", 1, [("acc", [[0xF4, 0x90, 0x80], []])]),
        ("utf8-append-surrogate", 1, [("enc", [0xD800])]),
    ])
    u = [("ctorn", [0, [0xC3, 0xA4, 97]])]
    c.probe("ustr", "UStrTrace", [
        ("ustring-append-zero", 0, u + [("cp", [0, 0])]),
        ("ustring-substr", 0, u + [("substr", [0, 2, 9])]),
        ("ustring-empty-view", 0, u + [("setself", [0, 1, 0])]),
        ("ustring-view-equals-text", 0, u + [("eqz", [0, [0xC3, 0xA4, 97]])]),
        ("ustring-reversed-view", 0, u + [("cut", [0, 2, 1])]),
        ("exception-non-ascii", 0, [("exc", [0, [97, 255]])]),
    ])


def safe(part, names):
    """Patterns the earlier edition matches correctly: one star at most, at the front or, if no name ends there, the end."""
    if part in ("", ".", "..", "**") or part[0] == "?" and any(x[0] == "." for x in names):
        return False
    stars = [i for i, ch in enumerate(part) if ch == "*"]
    if not stars or stars == [0]:
        return True
    if stars != [len(part) - 1]:
        return False
    return not any(len(x) == stars[0] and all(p in ("?", ch) for p, ch in zip(part, x)) for x in names)


def globs(ops):
    names = set()
    res = []
    for o, a in ops:
        if o == "tree":
            i, t = 0, a[0]
            while i < len(t):
                k = t.index(0, i + 1)
                names.update(bytes(t[i + 1:k]).decode("latin1").split("/"))
                i = k + 1
        if o == "glob":
            root, pat, form = bytes(a[0]).decode("latin1"), bytes(a[1]).decode("latin1"), a[2]
            parts = pat.split("/")
            if form not in (0, 3) or len(parts) > (2 if not root and not form else 1) or not all(safe(p, names) for p in parts):
                continue
        res.append((o, a))
    return res


def f04(c):
    frozen(c, ["C21", "C22", "C26", "C23"], ["fs", "regex"], cap=1500)
    frozen(c, ["C19"], ["threads"])
    t = lambda *e: ("tree", [enct(e)])
    g = lambda r, p: ("glob", [list(r.encode()), list(p.encode()), 0])
    c.probe("fs", "PathTrace", [
        ("path-root", 0, [("text", [[47], 0])]),
        ("path-join-root", 0, [("join", [[47], [97], 0])]),
        ("path-extension-of-directory", 0, [("ext", [list(b"a.b/c")])]),
        ("path-replace-extension-of-directory", 0, [("repl", [list(b"a.b/c"), list(b".d"), 0])]),
        ("load-directory", 0, [("mk", [1, 2, []]), ("load", [1, 0])]),
    ])
    c.probe("fs", "GlobTrace", [
        ("glob-star-for-nothing", 0, [t((1, "a")), g("", "a*")]),
        ("glob-dot", 0, [t((1, ".a")), g("", "?a")]),
        ("glob-three-levels", 0, [t((2, "a"), (2, "a/b"), (1, "a/b/c")), g("", "*/*/*")]),
        ("glob-any-depth", 0, [t((2, "a"), (1, "a/b")), g("", "**/b")]),
    ])
    c.probe("fs", "FileTrace", [
        ("file-unfinished-line", 0, [("lines", [[97]])]),
        ("file-after-last-line", 0, [("lines", [[97, 10]])]),
        ("file-look-twice", 0, [("peek", [[97, 10, 98, 10]])]),
        ("file-step-over", 0, [("skip", [[97, 10, 98, 10]])]),
        ("file-missing", 0, [("absent", [3, 0])]),
        ("file-text-overlong", 0, [("loadtext", [[192, 169]])]),
    ])
    c.probe("regex", "RegexTrace", [
        ("regex-group-unset", 0, [("search", [list(b"(a)|b"), [4, 11, 1, 97, 1, 98], [98], 0])]),
        ("regex-group-past-last", 0, [("search", [list(b"a"), [1, 97], [97], 0])]),
    ])
    c.probe("threads", "ThreadTrace", [("thread-joined-twice", 0, [("life", [2, 0])])])


def f03(c):
    frozen(c, ["C14", "C16", "C17", "C18", "C24", "C25", "C27", "C28"], ["algo", "variant", "own", "misc"], cap=2000)
    c.probe("algo", "AlgoTrace", [
        ("lower-bound-empty-range", 0, [("lower", [0, 0, 0, 0, 5, []])]),
        ("minmax-wide", 0, [("minmax", [3, 4, 40])]),
    ])
    c.probe("variant", "VariantTrace", [
        ("variant-failing-copy", 0, [("set", [0, 3, 13, 0]), ("copy", [1, 0])]),
    ])
    c.probe("own", "ExpTrace", [
        ("expected-value", 10, [("val", [0, 5, 0]), ("value", [0])]),
        ("expected-value-absent", 10, [("err", [0, 5, 0]), ("value", [0])]),
        ("expected-move-none", 10, [("movector", [0, 1])]),
    ])
    c.probe("misc", "RangeTrace", [
        ("range-step-down", 0, [("mk", [5, 1, -1, 3]), ("next", [])]),
        ("range-no-step", 0, [("mk", [1, 5, 0, 3]), ("next", [])]),
        ("range-last-number", 0, [("mk", [LIM - 1, LIM, 5, 3]), ("next", []), ("next", [])]),
    ])
    c.probe("misc", "FmtTrace", [
        ("clamp-below", 0, [("iclamp", [1, 2, 3])]),
        ("format-long", 0, [("fmt", [0, 0, [], [97] * 1024, 0, 0])]),
        ("format-append-zero", 0, [("fmt", [4, 1, [], [97], 0, 0])]),
    ])
    c.probe("misc", "SpanTrace", [
        ("subspan-to-end", 0, [("sub", [[1, 2, 3], 0, 3, 1, 2])]),
        ("subspan-sum", 0, [("sub", [[1, 2, 3], 0, 3, 2, -2])]),
    ])


CHECKS = {"F04": f04, "F03": f03, "F01": f01, "F02": f02}
