// Scenario interpreter shared by all conformance drivers.
//
// A driver reads scenarios (sequences of operations, produced by TLC from the specification or by
// a seeded random generator), performs every operation on the real library and writes one JSON
// line per scenario: the operation, its arguments, how it ended, its result and the projection of
// the concrete state to the specification's state.  Each scenario runs in a child process so that
// a crash, an abort, a sanitizer report or a hang becomes an ordinary (forbidden) event.
#pragma once
#include <string>
#include <vector>
#include <memory>
#include <set>
#include <map>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdint>
#include <unistd.h>
#include <signal.h>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/time.h>
#include <sys/resource.h>

#include <pystd_config.hpp>
#if EPOCH == 2025
#include <pystd2025.hpp>
namespace ns = pystd2025;
#else
#include <pystd2026.hpp>
namespace ns = pystd2026;
#endif

struct Arg {
    bool list = false;
    long i = 0;
    std::vector<long> l;
    std::string bytes() const {
        std::string s;
        for(auto v : l) {
            s.push_back((char)(unsigned char)v);
        }
        return s;
    }
};

struct Op {
    std::string n;
    std::vector<Arg> a;
    long I(size_t k) const { return a.at(k).i; }
    // Sizes and indices.  The specification's integers are 32 bits wide: -1..-999 stand for the
    // values just below 2^64 and -1000-k for 2^32+k.
    size_t Z(size_t k) const { return zsize(a.at(k).i); }
    static size_t zsize(long i) { return i <= -1000 ? (1ul << 32) + (size_t)(-1000 - i) : (size_t)i; }
    const std::vector<long> &L(size_t k) const { return a.at(k).l; }
    std::string S(size_t k) const { return a.at(k).bytes(); }
};

// JSON builders -------------------------------------------------------------------------------
// TLC's integers have 32 bits.
inline long tlc_int(long v) { return v > 2147483647L ? 2147483647L : v < -2147483647L ? -2147483647L : v; }
inline std::string jn(long v) { return std::to_string(tlc_int(v)); }
template<typename C> std::string jl(const C &c) {
    std::string s = "[";
    bool first = true;
    for(const auto &v : c) {
        if(!first) {
            s += ",";
        }
        first = false;
        s += std::to_string(tlc_int((long)v));
    }
    return s + "]";
}
inline std::string jl(std::initializer_list<long> c) { return jl(std::vector<long>(c)); }
inline std::string jb(const char *p, size_t n) {
    std::vector<long> v;
    for(size_t i = 0; i < n; ++i) {
        v.push_back((unsigned char)p[i]);
    }
    return jl(v);
}
inline std::string jb(const std::string &s) { return jb(s.data(), s.size()); }
inline std::string jj(const std::vector<std::string> &parts) {
    std::string s = "[";
    for(size_t i = 0; i < parts.size(); ++i) {
        if(i) {
            s += ",";
        }
        s += parts[i];
    }
    return s + "]";
}

struct Ev {
    std::string r = "[]";
};

struct World {
    virtual ~World() = default;
    virtual void exec(const Op &op, Ev &ev) = 0;
    virtual std::string proj() { return "[]"; }
};

// Every driver defines this. The first operation of a scenario may be "world k" (kept out of the
// trace): it selects the element type / variant the scenario runs on.
World *make_world(long kind);

// Operations the earlier edition does not have, or whose outcome was undefined when it was frozen,
// are left out of the scenario.
struct Skip {};
[[noreturn]] inline void unknown() {
    if(EPOCH == 2025) {
        throw Skip{};
    }
    abort();
}
#if EPOCH == 2025
// DRV_PROBE=1 runs them all the same: the recorded defects of the earlier edition are looked at one by one.
inline const bool probing = getenv("DRV_PROBE") != nullptr;
#define UNDEFINED_2025(cond) do { if(!probing && (cond)) { throw Skip{}; } } while(0)
#else
inline constexpr bool probing = false;
#define UNDEFINED_2025(cond) do {} while(0)
#endif

// Two ways to ask the same question (const and non-const, say) must agree, also in refusing.
template<typename F, typename G> inline std::string both(F f, G g) {
    long a = 0, b = 0;
    bool ta = false, tb = false;
    try {
        a = f();
    } catch(const ns::PyException &) {
        ta = true;
    }
    try {
        b = g();
    } catch(const ns::PyException &) {
        tb = true;
    }
    if(ta != tb || a != b) {
        return jl({-7, ta, tb, a, b});
    }
    return jl({ta ? (long)f() : a});
}

// Allocation accounting -----------------------------------------------------------------------
// Blocks allocated while the library runs and not freed at the end of the scenario are leaks.
namespace blk {
inline bool enabled = false; // DRV_LEAK=1
inline bool on = false;
inline constexpr size_t CAP = 1 << 20;
inline const void **tab = nullptr;
inline size_t live = 0;
inline size_t h(const void *p) { return (((size_t)p >> 4) * 0x9E3779B97F4A7C15ull) >> 44; }
inline void reset() {
    if(live && tab) {
        memset(tab, 0, CAP * sizeof(void *));
    }
    live = 0;
}
inline void add(const void *p) {
    if(live * 2 > CAP) {
        abort();
    }
    size_t i = h(p) % CAP;
    while(tab[i]) {
        i = (i + 1) % CAP;
    }
    tab[i] = p;
    ++live;
}
inline void del(const void *p) {
    size_t i = h(p) % CAP;
    while(tab[i] != p) {
        if(!tab[i]) {
            return;
        }
        i = (i + 1) % CAP;
    }
    --live;
    // Close the gap.
    size_t j = i;
    while(true) {
        tab[i] = nullptr;
        size_t k;
        do {
            j = (j + 1) % CAP;
            if(!tab[j]) {
                return;
            }
            k = h(tab[j]) % CAP;
        } while(i <= j ? (i < k && k <= j) : (i < k || k <= j));
        tab[i] = tab[j];
        i = j;
    }
}
} // namespace blk

extern "C" {
#ifdef DRV_ACCOUNT
int __sanitizer_install_malloc_and_free_hooks(void (*m)(const volatile void *, size_t),
                                              void (*f)(const volatile void *));
#endif
}

struct Shared {
    volatile long scen;
    volatile long started; // operations started in the current scenario
    volatile size_t len;
    char buf[64 << 20];
};
inline Shared *sh;

inline bool parse_line(const char *p, Op &op) {
    while(*p == ' ') {
        ++p;
    }
    const char *q = p;
    while(*q && *q != ' ' && *q != '\n') {
        ++q;
    }
    if(q == p) {
        return false;
    }
    op.n.assign(p, q - p);
    p = q;
    while(true) {
        while(*p == ' ') {
            ++p;
        }
        if(!*p || *p == '\n') {
            return true;
        }
        Arg a;
        if(*p == '[') {
            a.list = true;
            ++p;
            while(*p != ']') {
                char *e;
                a.l.push_back(strtol(p, &e, 10));
                p = e;
                if(*p == ',') {
                    ++p;
                }
            }
            ++p;
        } else {
            char *e;
            a.i = strtol(p, &e, 10);
            p = e;
        }
        op.a.push_back(a);
    }
}

struct Scenario {
    long id;
    long world = 0;
    std::vector<Op> ops;
};

inline std::string op_head(const Op &op) {
    std::string s = "{\"o\":\"" + op.n + "\",\"a\":[";
    for(size_t i = 0; i < op.a.size(); ++i) {
        if(i) {
            s += ",";
        }
        s += op.a[i].list ? jl(op.a[i].l) : jn(op.a[i].i);
    }
    return s + "]";
}

inline void emit(const std::string &s) {
    if(sh->len + s.size() + 64 >= sizeof(sh->buf)) {
        fprintf(stderr, "driver: event buffer full\n");
        _exit(97);
    }
    memcpy(sh->buf + sh->len, s.data(), s.size());
    sh->len = sh->len + s.size();
}

inline void write_all(int fd, const char *p, size_t n) {
    while(n > 0) {
        auto k = write(fd, p, n);
        if(k <= 0) {
            _exit(98);
        }
        p += k;
        n -= k;
    }
}

// Lifetimes of the instrumented objects (obj.hpp), see LifeSpec.tla.
inline std::string (*life_take)() = nullptr;
inline void (*life_begin)() = nullptr;

// Open descriptors and mapped files.
inline long descriptors() {
    long n = 0;
    for(int i = 0; i < 256; ++i) {
        n += fcntl(i, F_GETFD) >= 0;
    }
    return n;
}
inline long mapped_files() {
    long n = 0;
    if(FILE *f = fopen("/proc/self/maps", "r")) {
        char b[4500];
        while(fgets(b, sizeof(b), f)) {
            // Memory shared with the parent (the event buffer) and the executable stay.
            n += strchr(b, '/') != nullptr;
        }
        fclose(f);
    }
    return n;
}
// Called before each scenario (in the child).
inline void (*before_scenario)(const Scenario &) = nullptr;

inline void arm_limits(long cpu_s) {
    itimerval tv{};
    tv.it_value.tv_sec = cpu_s;
    setitimer(ITIMER_PROF, &tv, nullptr);
    alarm(120);
}

inline long cpu_limit_s = 5;

inline void run_child(const std::vector<Scenario> &scs, size_t from, int outfd) {
    for(size_t k = from; k < scs.size(); ++k) {
        const auto &sc = scs[k];
        sh->scen = (long)k;
        sh->len = 0;
        sh->started = 0;
        arm_limits(cpu_limit_s);
        emit("{\"id\":" + jn(sc.id) + ",\"w\":" + jn(sc.world) + ",\"ev\":[");
        blk::reset();
        if(before_scenario) {
            before_scenario(sc);
        }
        long fds = 0, maps = 0;
        if(blk::enabled) {
            fds = descriptors();
            maps = mapped_files();
            if(life_begin) {
                life_begin();
            }
        }
        blk::on = true;
        World *w = make_world(sc.world);
        blk::on = false;
        bool first = true;
        bool quiet = false;
        for(const auto &op : sc.ops) {
            sh->started = sh->started + 1;
            if(op.n == "quiet") {
                quiet = op.I(0) != 0;
                continue;
            }
            Ev ev;
            int x = 0;
            blk::on = true;
            try {
                w->exec(op, ev);
            } catch(const ns::PyException &) {
                x = 1;
            } catch(const Skip &) {
                blk::on = false;
                continue;
            } catch(...) {
                x = 3;
            }
            blk::on = false;
            if(x) {
                ev.r = "[]";
            }
            // Lifetimes: reading everything back now and then will do.
            const bool look = !quiet && (!blk::enabled || sh->started % 4 == 0 || sh->started == (long)sc.ops.size());
            std::string p = look ? w->proj() : "[],\"q\":1";
            if(blk::enabled) {
                p = "[]";
                ev.r = life_take ? life_take() : "[]";
            }
            emit((first ? "" : ",") + op_head(op) + ",\"x\":" + jn(x) + ",\"r\":" + ev.r +
                 ",\"p\":" + p + "}");
            first = false;
        }
        sh->started = sh->started + 1; // destruction of the scenario's objects
        delete w;
        if(blk::enabled) {
            // What is left when everything is gone.
            emit(std::string(first ? "" : ",") + "{\"o\":\"end\",\"a\":" + jl({(long)blk::live, descriptors() - fds, mapped_files() - maps}) +
                 ",\"x\":0,\"r\":" + (life_take ? life_take() : std::string("[]")) + ",\"p\":[]}");
        }
        emit("]}\n");
        write_all(outfd, sh->buf, sh->len);
    }
    _exit(0);
}

#ifdef DRV_ACCOUNT
inline void hook_m(const volatile void *p, size_t) {
    if(blk::on && p) {
        blk::add((const void *)p);
    }
}
inline void hook_f(const volatile void *p) {
    if(p) {
        blk::del((const void *)p);
    }
}
#endif

inline int drv_main(int argc, char **argv) {
    if(argc < 3) {
        fprintf(stderr, "usage: driver SCRIPT OUT\n");
        return 2;
    }
    std::vector<Scenario> scs;
    {
        FILE *f = fopen(argv[1], "r");
        if(!f) {
            perror(argv[1]);
            return 2;
        }
        char *line = nullptr;
        size_t cap = 0;
        while(getline(&line, &cap, f) > 0) {
            Op op;
            if(!parse_line(line, op)) {
                continue;
            }
            if(op.n == "scenario") {
                Scenario s;
                s.id = op.I(0);
                scs.push_back(s);
            } else if(op.n == "world") {
                scs.back().world = op.I(0);
            } else {
                scs.back().ops.push_back(op);
            }
        }
        free(line);
        fclose(f);
    }
    sh = (Shared *)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE,
                        MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    const int outfd = open(argv[2], O_WRONLY | O_CREAT | O_TRUNC | O_APPEND, 0644);
    if(outfd < 0 || sh == MAP_FAILED) {
        perror("driver");
        return 2;
    }
#ifdef DRV_ACCOUNT
    if(getenv("DRV_LEAK")) {
        blk::enabled = true;
        blk::tab = (const void **)mmap(nullptr, blk::CAP * sizeof(void *), PROT_READ | PROT_WRITE,
                                       MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
        __sanitizer_install_malloc_and_free_hooks(hook_m, hook_f);
    }
#endif
    rlimit nocore{0, 0};
    setrlimit(RLIMIT_CORE, &nocore);
    size_t from = 0;
    time_t hung = 0; // seconds spent in scenarios that did not end
    while(from < scs.size()) {
        const time_t began = time(nullptr);
        sh->scen = (long)from;
        fflush(stdout);
        pid_t pid = fork();
        if(pid == 0) {
            run_child(scs, from, outfd);
        }
        int status = 0;
        while(waitpid(pid, &status, 0) < 0) {
        }
        if(WIFEXITED(status) && WEXITSTATUS(status) == 0) {
            break;
        }
        if(WIFEXITED(status) && (WEXITSTATUS(status) == 97 || WEXITSTATUS(status) == 98)) {
            return 2;
        }
        const size_t k = (size_t)sh->scen;
        const auto &sc = scs[k];
        int x = 2;
        if(WIFSIGNALED(status) && (WTERMSIG(status) == SIGPROF || WTERMSIG(status) == SIGALRM)) {
            x = 4;
        }
        const long code =
            WIFSIGNALED(status) ? 1000 + WTERMSIG(status) : (long)WEXITSTATUS(status);
        const size_t at = (size_t)sh->started;
        std::string tail;
        if(sh->len == 0 || at == 0) {
            fprintf(stderr, "driver: child died outside an operation (scenario %ld)\n", sc.id);
            return 2;
        }
        if(sh->buf[sh->len - 1] == '}') {
            tail += ",";
        }
        if(at <= sc.ops.size()) {
            tail += op_head(sc.ops[at - 1]);
        } else {
            tail += "{\"o\":\"destroy\",\"a\":[]";
        }
        tail += ",\"x\":" + jn(x) + ",\"r\":[" + jn(code) + "],\"p\":[]}]}\n";
        emit(tail);
        write_all(outfd, sh->buf, sh->len);
        from = k + 1;
        if(x == 4) {
            hung += time(nullptr) - began;
            if(hung > 40) {
                return 3; // enough to reject; the remaining scenarios are not run
            }
        }
    }
    return 0;
}
