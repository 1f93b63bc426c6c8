"""Shared machinery of the checks: build the library and a driver from /repo's working tree, let TLC
generate behaviours, run them on the real code, let TLC validate the recorded traces."""
import concurrent.futures as cf
import hashlib
import json
import os
import random
import re
import shutil
import subprocess
import sys
import tempfile
import threading
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
COV = os.environ.get("VERIF_COV")       # development aid (tools/coverage.sh): collect source coverage there
if COV:
    os.environ["LLVM_PROFILE_FILE"] = os.path.join(COV, "%m%c.profraw")
HARNESS = os.path.join(VERIF, "harness")
CXX = "/usr/bin/clang++-20"
CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
ASAN = ("exitcode=99:abort_on_error=0:detect_leaks=0:symbolize=0:print_legend=0:print_full_thread_history=0:"
        "allocator_may_return_null=1:detect_stack_use_after_return=0:max_allocation_size_mb=4000:"
        "quarantine_size_mb=16")


class CheckError(Exception):
    """The check could not be carried out (never a verdict)."""


def run(cmd, timeout=600, env=None, cwd=None, inp=None):
    e = dict(os.environ)
    if env:
        e.update(env)
    try:
        return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, env=e,
                              cwd=cwd, input=inp)
    except subprocess.TimeoutExpired as ex:
        raise CheckError("timeout: %s" % " ".join(map(str, cmd))) from ex


# ---------------------------------------------------------------- build
SOURCES = {
    2025: ["pystd2025", "pystd2025_tables", "pystd2025_filesystem", "pystd2025_regex", "pystd2025_threading"],
    2026: ["pystd2026", "pystd2026_tables", "pystd2026_filesystem", "pystd2026_regex", "pystd2026_threading",
           "pystd2026_argparse"],
}


class Builder:
    repo = REPO
    harness = HARNESS

    def __init__(self, work):
        self.work = work
        self.pool = cf.ThreadPoolExecutor(8)
        self.linker = cf.ThreadPoolExecutor(8)
        self.objs = {}
        self.exes = {}
        self.lock = threading.Lock()
        with open(os.path.join(work, "pystd_config.hpp"), "w") as f:
            f.write("#pragma once\n#define PYSTD2025_HAS_REGEX\n#define PYSTD2026_HAS_REGEX\n")
        # Prefer the options the repository itself would generate.
        try:
            names = re.findall(r"#mesondefine\s+(\w+)", open(os.path.join(self.repo, "include/pystd_config.hpp.in")).read())
            if names:
                with open(os.path.join(work, "pystd_config.hpp"), "w") as f:
                    f.write("#pragma once\n" + "".join("#define %s\n" % n for n in names))
        except OSError:
            pass

    def flags(self, san):
        f = ["-std=c++26", "-g1", "-O1", "-w", "-fno-omit-frame-pointer", "-I" + self.work,
             "-I" + self.repo + "/include", "-I" + self.repo + "/src", "-DPYSTD_HAS_REGEX"]
        if san:
            f.append("-fsanitize=" + san)
        if COV:
            f += ["-fprofile-instr-generate", "-fcoverage-mapping", "-mllvm", "-runtime-counter-relocation"]
        return f

    def _compile(self, src, out, extra):
        p = run([CXX] + extra + ["-c", src, "-o", out], timeout=300)
        if p.returncode != 0:
            raise CheckError("compile failed: %s\n%s" % (src, p.stderr.decode(errors="replace")[:4000]))
        return out

    def lib(self, epoch, san):
        key = (epoch, san)
        if key not in self.objs:
            futs = []
            for s in ["pystd_common"] + SOURCES[epoch]:
                src = os.path.join(self.repo, "src", s + ".cpp")
                if not os.path.exists(src):
                    continue
                out = os.path.join(self.work, "%s.%s.%d.o" % (s, san or "plain", epoch))
                futs.append(self.pool.submit(self._compile, src, out, self.flags(san) + ["-nostdinc++"]))
            # Sources added later by the repository belong to the library too.
            known = set(sum(SOURCES.values(), ["pystd_common"]))
            for s in sorted(os.listdir(os.path.join(self.repo, "src"))):
                if s.endswith(".cpp") and s[:-4] not in known and str(epoch) in s:
                    out = os.path.join(self.work, "%s.%s.%d.o" % (s[:-4], san or "plain", epoch))
                    futs.append(self.pool.submit(self._compile, os.path.join(self.repo, "src", s), out,
                                                 self.flags(san) + ["-nostdinc++"]))
            self.objs[key] = futs
        return self.objs[key]

    def driver(self, name, epoch=2026, san="address", defs=()):
        with self.lock:
            key = (name, epoch, san, tuple(defs))
            if key not in self.exes:
                self.lib(epoch, san)
                self.exes[key] = self.linker.submit(self._driver, *key)
        return self.exes[key].result()

    def _driver(self, name, epoch, san, defs):
        libf = self.lib(epoch, san)
        tag = "%s.%d.%s.%s" % (name, epoch, san or "plain", hashlib.md5(repr(defs).encode()).hexdigest()[:6])
        obj = os.path.join(self.work, tag + ".drv.o")
        d = ["-DEPOCH=%d" % epoch] + ["-D" + x for x in defs]
        if san == "address":
            d.append("-DDRV_ACCOUNT")
        f = self.pool.submit(self._compile, os.path.join(self.harness, name + ".cpp"), obj, self.flags(san) + d)
        objs = [x.result() for x in libf] + [f.result()]
        exe = os.path.join(self.work, tag)
        p = run([CXX] + self.flags(san) + objs + ["-o", exe, "-lpcre2-8", "-lpthread"], timeout=300)
        if p.returncode != 0:
            raise CheckError("link failed: %s" % p.stderr.decode(errors="replace")[:4000])
        if COV:
            shutil.copy(exe, COV)
        return exe


    def tool(self, name):
        """A program of /repo/tools, linked with all editions of the library, as the repository does."""
        key = ("tool", name)
        with self.lock:
            if key not in self.exes:
                self.lib(2025, "address")
                self.lib(2026, "address")
                self.exes[key] = self.linker.submit(self._tool, name)
        return self.exes[key].result()

    def _tool(self, name):
        libf = self.lib(2025, "address") + self.lib(2026, "address")[1:]
        f = self.pool.submit(self._compile, os.path.join(self.repo, "tools", name + ".cpp"), os.path.join(self.work, name + ".tool.o"),
                             self.flags("address") + ["-nostdinc++"])
        objs = [x.result() for x in libf] + [f.result()]
        exe = os.path.join(self.work, "tool_" + name)
        p = run([CXX] + self.flags("address") + objs + ["-o", exe, "-lpcre2-8", "-lpthread"], timeout=300)
        if p.returncode != 0:
            raise CheckError("link failed: %s" % p.stderr.decode(errors="replace")[:4000])
        if COV:
            shutil.copy(exe, COV)
        return exe


# ---------------------------------------------------------------- TLC
def tlc(module, work, cfg=None, consts=None, env=None, workers=4, extra=(), timeout=800, heap="3g"):
    """Run TLC; returns (returncode, stdout). The spec directory is copied into a private directory."""
    d = tempfile.mkdtemp(prefix="tlc_", dir=work)
    for f in os.listdir(SPEC):
        if f.endswith(".tla") or f.endswith(".cfg"):
            os.symlink(os.path.join(SPEC, f), os.path.join(d, f))
    cfgname = cfg or (module + ".cfg")
    text = open(os.path.join(SPEC, cfgname)).read()
    for k, v in (consts or {}).items():
        text, n = re.subn(r"(?m)^(\s*)%s\s*=.*$" % re.escape(k), lambda m: "%s%s = %s" % (m.group(1), k, v), text)
        if n == 0:
            raise CheckError("constant %s not in %s" % (k, cfgname))
    mycfg = os.path.join(d, "run.cfg")
    with open(mycfg, "w") as f:
        f.write(text)
    cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss64m", "-Djava.io.tmpdir=" + d, "-cp", CP, "tlc2.TLC", "-workers", str(workers),
           "-metadir", os.path.join(d, "meta"), "-noGenerateSpecTE", "-config", "run.cfg"] + list(extra) + [module + ".tla"]
    p = run(cmd, timeout=timeout, env=env, cwd=d)
    out = p.stdout.decode(errors="replace")
    shutil.rmtree(d, ignore_errors=True)
    return p.returncode, out


def tlc_counts(out):
    m = re.search(r"(\d+) states generated, (\d+) distinct states found", out)
    if m:
        return int(m.group(2)), int(m.group(1))
    m = re.search(r"The number of states generated: (\d+)", out)
    return (int(m.group(1)), int(m.group(1))) if m else (0, 0)


def tail(out):
    i = out.find("Error:")
    return out[i:i + 2500] if i >= 0 else out[-2500:]


class Stats:
    def __init__(self):
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.events = 0
        self.runs = []

    def add(self, what, out):
        s, t = tlc_counts(out)
        self.states += s
        self.transitions += t
        self.runs.append({"run": what, "distinct_states": s, "states_generated": t})


def model_check(module, work, stats, cfg=None, consts=None, workers=4, timeout=800, extra=()):
    """Exhaustive model checking of the specification itself."""
    rc, out = tlc(module, work, cfg=cfg, consts=consts, workers=workers, timeout=timeout, extra=extra)
    if rc != 0 or "Model checking completed. No error has been found." not in out:
        raise CheckError("the specification %s does not satisfy its own properties:\n%s" % (module, tail(out)))
    stats.add((cfg or module) + (" " + str(consts) if consts else ""), out)


def generate(module, work, stats, cfg=None, consts=None, workers=4, sim=None, seed=1, timeout=800, limit=None):
    """Behaviours of the specification: exhaustive to Depth, or `sim`=(num, depth) random walks."""
    extra = []
    consts = dict(consts or {})
    if sim:
        num, depth = sim
        consts["Depth"] = depth
        extra = ["-simulate", "num=%d" % num, "-depth", str(depth + 2), "-seed", str(seed)]
        workers = 1
    rc, out = tlc(module, work, cfg=cfg, consts=consts, workers=workers, timeout=timeout, extra=extra)
    if rc != 0 or ("Error:" in out):
        raise CheckError("generation from %s failed:\n%s" % (module, tail(out)))
    stats.add("generate " + (cfg or module) + (" simulate %s" % (sim,) if sim else "") + (" " + str(consts) if consts else ""), out)
    res = []
    seen = set()
    for line in out.split("\n"):
        if line.startswith('"GEN'):
            if line in seen:
                continue
            seen.add(line)
            res.append(json.loads(json.loads(line)[3:]))
    if sim:
        # TLC prints every successor of the last state of a walk; keep a couple of each.
        r = random.Random(seed)
        groups = {}
        for b in res:
            groups.setdefault(json.dumps(b[:-1]), []).append(b)
        res = []
        for k in groups:
            res += r.sample(groups[k], min(2, len(groups[k])))
    if limit and len(res) > limit:
        res = random.Random(seed).sample(res, limit)
    return res


def edges(module, work, stats, consts=None, workers=4, timeout=800):
    """All transitions of an implementation-shaped model: [(state, operation, state)], states numbered from 0
    (the initial state)."""
    rc, out = tlc(module, work, consts=consts, workers=workers, timeout=timeout)
    if rc != 0 or "Model checking completed. No error has been found." not in out:
        raise CheckError("the specification %s does not satisfy its own properties:\n%s" % (module, tail(out)))
    stats.add("transitions of %s %s" % (module, consts or ""), out)
    num = {}
    res = set()
    for line in out.split("\n"):
        if line.startswith('"EDG'):
            a, op, b = json.loads(json.loads(line)[3:])
            ka, kb = json.dumps(a), json.dumps(b)
            if not num:
                num[ka] = 0     # breadth first: the first transition leaves the initial state
            num.setdefault(ka, len(num))
            num.setdefault(kb, len(num))
            res.add((num[ka], json.dumps(op), num[kb]))
    return [(a, json.loads(o), b) for a, o, b in sorted(res)]


def tours(edg, rng, length=60):
    """Walks from state 0 that together take every transition."""
    out = {}
    for a, o, b in edg:
        out.setdefault(a, []).append((o, b))
    for v in out.values():
        rng.shuffle(v)
    left = {a: list(v) for a, v in out.items()}
    todo = len(edg)
    # Shortest way from the initial state to every state.
    via = {0: None}
    queue = [0]
    for a in queue:
        for o, b in out.get(a, []):
            if b not in via:
                via[b] = (a, o)
                queue.append(b)
    pending = [a for a in queue if left.get(a)]
    res = []
    while todo:
        while pending and not left[pending[-1]]:
            pending.pop()
        if not pending:
            break
        at = pending[-1]
        walk = []
        x = at
        while via[x]:
            walk.append(via[x][1])
            x = via[x][0]
        walk.reverse()
        n = 0
        while n < length and left.get(at):
            o, b = left[at].pop()
            todo -= 1
            walk.append(o)
            at = b
            n += 1
            if not left.get(at):
                # Step to a neighbour that still has something to offer.
                for o, b in out.get(at, []):
                    if left.get(b):
                        walk.append(o)
                        at = b
                        break
        res.append(walk)
    return res


# ---------------------------------------------------------------- scenarios
def enc(a):
    if isinstance(a, (list, tuple)):
        return "[" + ",".join(str(int(x)) for x in a) + "]"
    if isinstance(a, bytes):
        return "[" + ",".join(str(x) for x in a) + "]"
    return str(int(a))


def write_script(path, scenarios):
    with open(path, "w") as f:
        for sid, (world, ops) in scenarios:
            f.write("scenario %d\nworld %d\n" % (sid, world))
            for op in ops:
                f.write(" ".join([op[0]] + [enc(a) for a in op[1]]) + "\n")


def run_driver(exe, work, scenarios, timeout=600, env=None):
    """Returns the list of recorded scenario lines (raw JSON text)."""
    chunks = max(1, min(8, len(scenarios) // 50))
    paths = []
    for c in range(chunks):
        part = scenarios[c::chunks]
        fd, sp = tempfile.mkstemp(prefix="script_", dir=work)
        os.close(fd)
        write_script(sp, part)
        paths.append((sp, sp + ".out", len(part)))
    e = {"ASAN_OPTIONS": ASAN, "LC_ALL": "C.UTF-8", "MALLOC_PERTURB_": "165"}
    if env:
        e.update(env)

    def go(p):
        r = run([exe, p[0], p[1]], timeout=timeout, env=e, cwd=work)
        if r.returncode not in (0, 3):
            raise CheckError("driver failed (%d): %s" % (r.returncode, r.stderr.decode(errors="replace")[-2000:]))
        with open(p[1], errors="replace") as f:
            lines = f.read().split("\n")
        lines = [x for x in lines if x]
        if len(lines) != p[2] and r.returncode != 3:
            raise CheckError("driver recorded %d of %d scenarios" % (len(lines), p[2]))
        os.unlink(p[0])
        os.unlink(p[1])
        return lines

    with cf.ThreadPoolExecutor(8) as ex:
        out = []
        for r in ex.map(go, paths):
            out += r
    return out


class Verdict:
    def __init__(self):
        self.bad = {}      # scenario id -> (event index, message)
        self.known = {}    # kf id -> (scenario id, event index)
        self.done = set()


def validate(module, work, lines, stats, cfg=None, consts=None, timeout=800, workers=8, heap="6g"):
    """TLC decides for every recorded scenario whether the specification allows it."""
    v = Verdict()
    step = 20000
    work_list = [lines[i:i + step] for i in range(0, len(lines), step)]
    broken = 0
    while work_list:
        part = work_list.pop(0)
        t0 = time.time()
        fd, path = tempfile.mkstemp(prefix="trace_", suffix=".ndjson", dir=work)
        with os.fdopen(fd, "w") as f:
            f.write("\n".join(part) + "\n")
        rc, out = tlc(module, work, cfg=cfg, consts=consts, env={"TRACE_FILE": path}, workers=workers, timeout=timeout, heap=heap)
        if rc != 0 or "Model checking completed. No error has been found." not in out:
            # The recorded events include something the specification has no value for (a result of
            # the wrong shape). Find the scenario; it is rejected if it cannot be evaluated on its own.
            keep = os.path.join(VERIF, ".build", "failed_trace.ndjson")
            shutil.copy(path, keep)
            os.unlink(path)
            broken += 1
            if broken > 40 or rc in (137, 143, -9, -15) or "TLC" not in out or "semantic analysis failed" in out \
                    or "Parse Error" in out or "OutOfMemory" in out:
                raise CheckError("trace validation with %s failed:\n%s" % (module, tail(out)))
            if len(part) > 1:
                h = len(part) // 2
                work_list = [part[:h], part[h:]] + work_list
                continue
            v.bad[json_id(part[0])] = part[0].count('"o":')
            stats.traces += 1
            if broken > 20:
                break
            continue
        stats.add("validate " + (cfg or module), out)
        if os.environ.get("VERIF_TIME"):
            print("  validate %s: %d scenarios %.1f s" % (module, len(part), time.time() - t0))
        mism = {}
        for line in out.split("\n"):
            if line.startswith("<<"):
                m = re.match(r'<<"DONE", (-?\d+)>>', line)
                if m:
                    v.done.add(int(m.group(1)))
                    continue
                m = re.match(r'<<"KNOWN", "([^"]+)", (-?\d+), (\d+)>>', line)
                if m:
                    v.known.setdefault(m.group(1), []).append((int(m.group(2)), int(m.group(3))))
        for m in re.finditer(r'<<\s*"MISMATCH",\s*(-?\d+),\s*(\d+),', out):
            k = int(m.group(1))
            mism[k] = max(mism.get(k, 0), int(m.group(2)))
        ids = [json_id(x) for x in part]
        for k in ids:
            if k in v.done:
                stats.traces += 1
            elif k in mism:
                v.bad[k] = mism[k]
                stats.traces += 1
            else:
                raise CheckError("TLC gave no answer on scenario %d" % k)
        os.unlink(path)
    return v


def json_id(line):
    m = re.match(r'\{"id":(-?\d+)', line)
    if not m:
        raise CheckError("bad trace line: " + line[:200])
    return int(m.group(1))


# ---------------------------------------------------------------- a check
class Check:
    def __init__(self, pid, level="model_checking"):
        self.pid = pid
        self.level = level
        self.tier = os.environ.get("VERIF_TIER", "quick")
        self.seed = int(os.environ.get("VERIF_SEED", "1") or "1")
        self.rng = random.Random(self.seed * 1000003 + int(hashlib.md5(pid.encode()).hexdigest()[:6], 16))
        self.t0 = time.time()
        os.makedirs(os.path.join(VERIF, ".build"), exist_ok=True)
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        self.work = tempfile.mkdtemp(prefix=pid + "_", dir=os.path.join(VERIF, ".build"))
        self.stats = Stats()
        self.builder = Builder(self.work)
        self.samples = []
        self.violations = []
        self.known = {}
        self.notes = []
        self.assumptions = []
        self.kf = load_known(pid)

    @property
    def thorough(self):
        return self.tier == "thorough"

    def pick(self, quick, thorough):
        return thorough if self.thorough else quick

    def mc(self, module, **kw):
        model_check(module, self.work, self.stats, **kw)

    def gen(self, module, **kw):
        return generate(module, self.work, self.stats, seed=self.seed, **kw)

    def tours(self, module, length=60, **kw):
        return tours(edges(module, self.work, self.stats, **kw), self.rng, length)

    def conform(self, driver, module, scenarios, epoch=2026, cfg=None, consts=None, san="address", defs=(), label="", env=None,
                timeout=600):
        """scenarios: list of (world, ops). Runs them, validates, records violations."""
        if not scenarios:
            return
        if self.violations and time.time() - self.t0 > 300:
            self.notes.append("violations found; the remaining scenarios of %s were not run" % driver)
            return
        exe = self.builder.driver(driver, epoch, san, defs)
        sc = list(enumerate(scenarios, 1))
        lines = run_driver(exe, self.work, sc, env=env, timeout=timeout)
        self.judge(lambda s: run_driver(exe, self.work, s, env=env), module, sc, lines, cfg=cfg, consts=consts, label=label)

    def judge_lines(self, again, module, sc, **kw):
        """Like conform, with a runner of the caller's: scenarios -> recorded lines."""
        self.judge(again, module, sc, again(sc), **kw)

    def judge(self, again, module, sc, lines, cfg=None, consts=None, label=""):
        v = validate(module, self.work, lines, self.stats, cfg=cfg, consts=consts)
        byid = {json_id(x): x for x in lines}
        bad = dict(v.bad)
        if bad:
            # Re-run the rejected scenarios on their own; a verdict is what a second run confirms,
            # except that a hang or a kill must show twice (an overloaded machine can cause one).
            # Those that end go first: the driver stops once too much time has gone into hangs.
            ids = sorted(bad, key=lambda k: (is_flaky_ending(byid[k], bad[k]), k))[:40]
            pos = {k: i for i, k in enumerate(ids)}
            sub = sorted((s for s in sc if s[0] in pos), key=lambda s: pos[s[0]])
            lines2 = again(sub)
            v2 = validate(module, self.work, lines2, self.stats, cfg=cfg, consts=consts)
            by2 = {json_id(x): x for x in lines2}
            for k in ids:
                flaky = is_flaky_ending(byid[k], bad[k])
                if k in v2.bad:
                    self.report(module, label, byid[k] if not flaky else by2[k], v2.bad[k] if flaky else bad[k], sc)
                elif not flaky:
                    self.report(module, label, byid[k], bad[k], sc)
                else:
                    self.notes.append("scenario %d ended by a resource limit once and not again" % k)
        for kf, where in v.known.items():
            if kf in self.kf:
                self.known[kf] = self.kf[kf]
            else:
                k, l = where[0]
                self.report(module, label + " deviation " + kf, byid[k], l, sc)
        for x in lines[:1] + lines[len(lines) // 2:len(lines) // 2 + 1]:
            self.samples.append((label or module) + " " + x[:600])
        self.stats.events += sum(x.count('"o":') for x in lines)

    def probe(self, driver, module, probes, epoch=2025, label=""):
        """probes: (name, world, ops), each the specific history of a recorded defect: expected to be rejected."""
        exe = self.builder.driver(driver, epoch)
        sc = [(i, (w, ops)) for i, (_, w, ops) in enumerate(probes, 1)]
        lines = run_driver(exe, self.work, sc, env={"DRV_PROBE": "1"})
        v = validate(module, self.work, lines, self.stats)
        byid = {json_id(x): x for x in lines}
        for k in sorted(v.bad):
            name = probes[k - 1][0]
            if name in self.kf:
                self.known[name] = self.kf[name]
            else:
                self.report(module, label + " probe " + name, byid[k], v.bad[k], sc)
        if os.environ.get("VERIF_TIME"):
            for k, (name, _, _) in enumerate(probes, 1):
                print("  probe", name, "rejected at %d" % v.bad[k] if k in v.bad else "accepted", byid[k][-200:])

    def report(self, module, label, line, l, sc):
        d = json.loads(line)
        ev = d["ev"]
        item = {"property": self.pid, "spec": module, "label": label, "scenario": d["id"], "world": d.get("w", 0),
                "event_index": l, "event": ev[l - 1] if 0 < l <= len(ev) else None, "events": ev[:l]}
        self.violations.append(item)

    def assume(self, s):
        self.assumptions.append(s)

    def finish(self):
        path = os.path.join(VERIF, "evidence", self.pid + ".json")
        cov = {
            "states": self.stats.states, "transitions": self.stats.transitions,
            "traces_validated_against_impl": self.stats.traces, "events_validated": self.stats.events,
            "tlc_runs": self.stats.runs, "samples": self.samples[:12] or ["none"],
        }
        if self.notes:
            cov["notes"] = self.notes
        if self.known:
            cov["known_findings"] = sorted(self.known)
        ev = {"property": self.pid, "tier": self.tier, "seed": self.seed, "level": self.level, "coverage": cov,
              "wall_s": round(time.time() - self.t0, 2), "violations": len(self.violations),
              "assumptions": self.assumptions}
        for kf in sorted(self.known):
            print("KNOWN-FINDING: property=%s %s: %s" % (self.pid, kf, self.known[kf]))
        if self.violations:
            rp = os.path.join(VERIF, "evidence", self.pid + ".replay.json")
            with open(rp, "w") as f:
                json.dump(self.violations[:20], f, indent=1)
            first = self.violations[0]
            print("first rejected event (%s, scenario %s): %s" % (first["label"], first["scenario"],
                                                                  json.dumps(first["event"])[:600]))
            print("VIOLATION property=%s replay=%s" % (self.pid, rp))
        with open(path, "w") as f:
            json.dump(ev, f, indent=1)
        shutil.rmtree(self.work, ignore_errors=True)
        print("%s %s: %d violations, %d traces (%d events) validated, %d states, %.1f s" %
              (self.pid, self.tier, len(self.violations), self.stats.traces, self.stats.events, self.stats.states,
               time.time() - self.t0))
        return 1 if self.violations else 0


def is_flaky_ending(line, l):
    ev = json.loads(line)["ev"]
    e = ev[l - 1] if 0 < l <= len(ev) else {}
    return e.get("x") == 4 or (e.get("x") == 2 and e.get("r") in ([1009], [1015]))


def load_known(pid):
    res = {}
    path = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path):
            m = re.match(r"finding: property=(\S+) id=(\S+) (.*)", line.strip())
            if m and m.group(1) == pid:
                res[m.group(2)] = m.group(3)
    return res
