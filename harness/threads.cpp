// C19: mutexes, guards and threads.  Every record carries its place in one total order; a call is
// recorded before it is made and after it has returned (see ThreadSpec.tla for the records).
#include "drv.hpp"
#include <atomic>
#include <chrono>
#include <mutex>
#include <random>
#include <sched.h>
#if EPOCH == 2025
#include <pystd2025_threading.hpp>
#else
#include <pystd2026_threading.hpp>
#endif

typedef std::vector<long> Rec;
typedef std::chrono::steady_clock Clock;

namespace {

struct Boom {};

constexpr int NM = 2;
constexpr int NW = 9;

// Controlled schedules ---------------------------------------------------------------------------
struct Sched;
struct Worker {
    Sched *w = nullptr;
    int id = 0;
    std::atomic<int> cmd{0}; // number of commands sent
    std::atomic<int> ack{0}; // number of commands completed
    int op = 0, m = 0;
    ns::Thread *th = nullptr;
    std::vector<std::pair<int, int>> held; // the controller's view: mutex, plain (1) or guard (4)
    bool waiting = false;
    int seen = 0;
};

struct Sched {
    ns::Mutex mtx[NM + 1];
    volatile long data[NM + 1] = {};
    std::mutex lm;
    std::vector<Rec> log;
    long next = 1;
    Worker wk[NW];
    int owner[NM + 1] = {};
    bool stuck = false;

    void rec(Rec r) {
        std::lock_guard<std::mutex> l(lm);
        log.push_back(std::move(r));
    }
    void access(int t, int m) {
        const long a = data[m];
        long b;
        {
            std::lock_guard<std::mutex> l(lm);
            b = next++;
        }
        sched_yield();
        data[m] = b;
        rec({2, t, m, a, b});
    }
    // Waits for the next command.
    void await(Worker &k) {
        k.seen++;
        int c;
        while((c = k.cmd.load()) < k.seen) {
            k.cmd.wait(c);
        }
    }
    void done(Worker &k) {
        k.ack.fetch_add(1);
    }
    // Returns the command that ended this level.
    int serve(Worker &k) {
        const int t = k.id;
        while(true) {
            await(k);
            const int op = k.op, m = k.m;
            if(op == 1) {
                rec({0, t, 1, m});
                mtx[m].lock();
                rec({1, t, 1, m, 1});
                access(t, m);
                done(k);
            } else if(op == 2) {
                access(t, m);
                rec({0, t, 2, m});
                mtx[m].unlock();
                rec({1, t, 2, m, 1});
                done(k);
            } else if(op == 3) {
                rec({0, t, 3, m});
                const bool got = mtx[m].try_lock();
                rec({1, t, 3, m, got ? 1 : 0});
                if(got) {
                    access(t, m);
                }
                done(k);
            } else if(op == 4) {
                int how = 0;
                rec({0, t, 4, m});
                try {
                    ns::LockGuard<ns::Mutex> g(mtx[m]);
                    rec({1, t, 4, m, 1});
                    access(t, m);
                    done(k);
                    how = serve(k);
                    access(t, m);
                    rec({0, t, how, m});
                    if(how == 6) {
                        throw Boom();
                    }
                } catch(const Boom &) {
                }
                rec({1, t, how, m, 1});
                done(k);
            } else {
                return op;
            }
        }
    }
    static void *entry(void *p) {
        auto *k = (Worker *)p;
        k->w->serve(*k);
        return nullptr;
    }
    void send(Worker &k, int op, int m) {
        k.op = op;
        k.m = m;
        k.cmd.fetch_add(1);
        k.cmd.notify_all();
    }
    bool finished(Worker &k, int ms) {
        const auto end = Clock::now() + std::chrono::milliseconds(ms);
        for(int i = 0;; ++i) {
            if(k.ack.load() == k.cmd.load()) {
                return true;
            }
            if(Clock::now() > end) {
                return false;
            }
            if(i < 200) {
                sched_yield();
            } else {
                usleep(100);
            }
        }
    }
    void must(Worker &k) {
        static int times = 0;
        if(!finished(k, times < 3 ? 20000 : 500)) {
            ++times;
            stuck = true;
            throw 1;
        }
    }
    // Did the last try of t succeed?
    bool tried(int t) {
        std::lock_guard<std::mutex> l(lm);
        for(size_t i = log.size(); i-- > 0;) {
            if(log[i][0] == 1 && log[i][1] == t) {
                return log[i][4] == 1;
            }
        }
        return false;
    }
    void command(int t, int op, int m) {
        if(stuck) {
            throw 1;
        }
        auto &k = wk[t];
        if(!k.th) {
            k.w = this;
            k.id = t;
            k.th = new ns::Thread(entry, &k);
        }
        if(k.waiting && finished(k, 0)) {
            k.waiting = false;
        }
        if(k.waiting) {
            throw 2; // cannot happen in a schedule of the specification
        }
        const bool blocks = (op == 1 || op == 4) && owner[m];
        send(k, op, m);
        if(op == 1 || op == 4) {
            k.held.push_back({m, op});
            if(blocks) {
                k.waiting = !finished(k, 1);
            } else {
                must(k);
                owner[m] = t;
            }
        } else if(op == 3) {
            must(k);
            if(tried(t)) {
                k.held.push_back({m, 1});
                owner[m] = t;
            }
        } else {
            must(k);
            k.held.pop_back();
            owner[m] = 0;
            for(int u = 2; u < NW; ++u) {
                auto &q = wk[u];
                if(q.waiting && !q.held.empty() && q.held.back().first == m) {
                    must(q);
                    q.waiting = false;
                    owner[m] = u;
                    break;
                }
            }
        }
    }
    void finish() {
        bool any = true;
        while(any) {
            any = false;
            for(int u = 2; u < NW; ++u) {
                auto &k = wk[u];
                if(k.th && !k.waiting && !k.held.empty()) {
                    any = true;
                    const auto [m, how] = k.held.back();
                    command(u, how == 4 ? 5 + u % 2 : 2, m);
                }
            }
        }
        quit();
    }
    void quit() {
        for(int u = 2; u < NW; ++u) {
            auto &k = wk[u];
            if(k.th) {
                send(k, 9, 0);
                delete k.th;
                k.th = nullptr;
            }
        }
    }
    std::string take() {
        std::lock_guard<std::mutex> l(lm);
        std::vector<std::string> v;
        for(const auto &r : log) {
            v.push_back(jl(r));
        }
        // Keep the last return of every thread's try for the controller: it has been read by now.
        log.clear();
        return jj(v);
    }
};

// Free running threads -----------------------------------------------------------------------------
struct Free {
    ns::Mutex mtx[NM + 1];
    volatile long data[NM + 1] = {};
    std::atomic<long> ticket{1};
    std::atomic<long> value{1};
    std::atomic<int> crowd{0}; // how many have to be there before anyone goes on
    std::vector<std::pair<long, Rec>> log[NW];
    void rec(int t, Rec r) {
        const long k = ticket.fetch_add(1, std::memory_order_relaxed);
        log[t].push_back({k, std::move(r)});
    }
    std::string merged() {
        std::map<long, Rec> all;
        for(auto &l : log) {
            for(auto &e : l) {
                all[e.first] = e.second;
            }
        }
        std::vector<std::string> v;
        for(auto &e : all) {
            v.push_back(jl(e.second));
        }
        return jj(v);
    }
};

struct Runner {
    Free *f = nullptr;
    int t = 0, rounds = 0;
    long ctx = 0;
    unsigned seed = 0;
    int pause = 0;                        // milliseconds before returning
    std::atomic<int> *go = nullptr;       // wait for this before returning
    std::atomic<int> *over = nullptr;
    ns::Thread *other = nullptr;

    void meet() {
        if(f->crowd.fetch_sub(1) > 0) {
            for(int i = 0; i < 1000000 && f->crowd.load() > 0; ++i) {
                if(i > 1000) {
                    sched_yield();
                }
            }
        }
    }
    void access(int m, std::mt19937 &g) {
        const long a = f->data[m];
        const long b = f->value.fetch_add(1, std::memory_order_relaxed);
        if(g() % 3 == 0) {
            sched_yield();
        }
        f->data[m] = b;
        f->rec(t, {2, t, m, a, b});
    }
    void section(int m, std::mt19937 &g, bool inner) {
        access(m, g);
        if(m == 1 && !inner && g() % 3 == 0) {
            round(2, g, true);
            access(m, g);
        }
    }
    void round(int m, std::mt19937 &g, bool inner) {
        switch(g() % 4) {
        case 0:
        case 1:
            f->rec(t, {0, t, 1, m});
            f->mtx[m].lock();
            f->rec(t, {1, t, 1, m, 1});
            section(m, g, inner);
            f->rec(t, {0, t, 2, m});
            f->mtx[m].unlock();
            f->rec(t, {1, t, 2, m, 1});
            break;
        case 2: {
            f->rec(t, {0, t, 3, m});
            const bool got = f->mtx[m].try_lock();
            f->rec(t, {1, t, 3, m, got ? 1 : 0});
            if(got) {
                section(m, g, inner);
                f->rec(t, {0, t, 2, m});
                f->mtx[m].unlock();
                f->rec(t, {1, t, 2, m, 1});
            }
            break;
        }
        default: {
            const int how = 5 + g() % 2;
            f->rec(t, {0, t, 4, m});
            try {
                ns::LockGuard<ns::Mutex> l(f->mtx[m]);
                f->rec(t, {1, t, 4, m, 1});
                section(m, g, inner);
                f->rec(t, {0, t, how, m});
                if(how == 6) {
                    throw Boom();
                }
            } catch(const Boom &) {
            }
            f->rec(t, {1, t, how, m, 1});
        }
        }
    }
    static void *entry(void *p) {
        auto *r = (Runner *)p;
        r->f->rec(r->t, {4, r->t, r->ctx});
        std::mt19937 g(r->seed);
        r->meet();
        for(int i = 0; i < r->rounds; ++i) {
            r->round(1 + g() % NM, g, false);
            for(unsigned k = g() % 4; k > 0; --k) {
                sched_yield();
            }
        }
        if(r->pause) {
            usleep(r->pause * 1000);
        }
        if(r->go) {
            for(int i = 0; i < 20000 && !r->go->load(); ++i) {
                usleep(1000);
            }
        }
        r->f->rec(r->t, {5, r->t});
        if(r->over) {
            r->over->fetch_add(1);
        }
        return nullptr;
    }
};

std::string run_free(int n, int k, unsigned seed) {
    Free f;
    Runner rs[NW];
    std::vector<ns::Thread *> th;
    std::mt19937 g(seed);
    f.crowd = n + 1;
    for(int i = 0; i < n; ++i) {
        auto &r = rs[i];
        r.f = &f;
        r.t = 2 + i;
        r.rounds = k;
        r.ctx = 100 + g() % 50;
        r.seed = g();
        f.rec(1, {3, r.t, r.ctx});
        th.push_back(new ns::Thread(Runner::entry, &r));
    }
    // Main takes part as well.
    Runner me;
    me.f = &f;
    me.t = 1;
    std::mt19937 mg(seed + 1);
    me.meet();
    for(int i = 0; i < k; ++i) {
        me.round(1 + mg() % NM, mg, false);
    }
    for(int j = 0; j < n; ++j) {
        const int i = seed % 2 ? j : n - 1 - j;
        if(g() % 2) {
            th[i]->join();
            f.rec(1, {6, rs[i].t});
            delete th[i];
        } else {
            delete th[i];
            f.rec(1, {6, rs[i].t});
        }
    }
    return f.merged();
}

template<typename F> void refused(Free &f, int t, F fn) {
    long res = 0;
    try {
        fn();
    } catch(const ns::PyException &) {
        res = 1;
    }
    f.rec(1, {8, t, res});
}

std::string run_life(int v, int longer) {
    Free f;
    Runner r, r2, r3;
    std::atomic<int> go{0}, over{0};
    r.f = r2.f = r3.f = &f;
    r.t = 2;
    r2.t = 3;
    r3.t = 4;
    r.ctx = 77;
    r2.ctx = 78;
    r3.ctx = 79;
    auto started = [&](Runner &x) {
        f.rec(1, {3, x.t, x.ctx});
        return &x;
    };
    switch(v) {
    case 0: {
        r.pause = 5 + longer;
        {
            ns::Thread th(Runner::entry, started(r));
        }
        f.rec(1, {6, 2});
        break;
    }
    case 1: {
        r.pause = 5 + longer;
        {
            ns::Thread th(Runner::entry, started(r));
            th.join();
            f.rec(1, {6, 2});
        }
        break;
    }
    case 2: {
        ns::Thread th(Runner::entry, started(r));
        th.join();
        f.rec(1, {6, 2});
        if(EPOCH != 2025 || probing) {
            refused(f, 2, [&] { th.join(); });
            refused(f, 2, [&] { th.detach(); });
            refused(f, 2, [&] { th.join(); });
        }
        break;
    }
    case 3: {
        r.go = &go;
        r.over = &over;
        {
            ns::Thread th(Runner::entry, started(r));
            th.detach();
            f.rec(1, {7, 2});
            if(EPOCH != 2025) {
                refused(f, 2, [&] { th.join(); });
                refused(f, 2, [&] { th.detach(); });
            }
        }
        f.rec(1, {9, 2});
        go = 1;
        while(!over.load()) {
            usleep(500);
        }
        break;
    }
    case 4: {
        // Several threads, joined in another order than started, one of them from within a thread
        // that is itself waited for.
        r.pause = 3;
        r2.pause = 1;
        ns::Thread a(Runner::entry, started(r));
        {
            ns::Thread b(Runner::entry, started(r2));
            ns::Thread c(Runner::entry, started(r3));
            c.join();
            f.rec(1, {6, 4});
        }
        f.rec(1, {6, 3});
        a.join();
        f.rec(1, {6, 2});
        break;
    }
    case 5: {
        // Threads that cannot be created are reported.
        pthread_attr_t old, huge;
        pthread_getattr_default_np(&old);
        pthread_getattr_default_np(&huge);
        pthread_attr_setstacksize(&huge, 1ul << 46);
        if(pthread_setattr_default_np(&huge) != 0) {
            break;
        }
        bool refuse = false;
        try {
            ns::Thread th(Runner::entry, &r);
        } catch(const ns::PyException &) {
            refuse = true;
        }
        pthread_setattr_default_np(&old);
        if(!refuse) {
            f.rec(1, {8, 2, 0});
        }
        break;
    }
    case 6: {
        // An exception leaves a scope with a running thread in it: it is joined.
        r.pause = 5 + longer;
        try {
            ns::Thread th(Runner::entry, started(r));
            throw Boom();
        } catch(const Boom &) {
            f.rec(1, {6, 2});
        }
        break;
    }
    }
    return f.merged();
}

// LockGuard on anything that can be locked.
struct Probe {
    long locks = 0, unlocks = 0;
    void lock() { ++locks; }
    void unlock() { ++unlocks; }
};

struct ThreadWorld : World {
    Sched *s = nullptr;
    Sched &S() {
        if(!s) {
            s = new Sched;
        }
        return *s;
    }
    ~ThreadWorld() {
        if(s && !s->stuck) {
            try {
                s->finish();
                delete s;
            } catch(int) {
            }
        }
    }
    void exec(const Op &op, Ev &ev) override {
        const auto &n = op.n;
        if(n == "do") {
            S().command(op.I(0), op.I(1), op.I(2));
            ev.r = S().take();
        } else if(n == "nap") {
            usleep(op.I(0) * 1000);
            ev.r = S().take();
        } else if(n == "fin") {
            S().finish();
            ev.r = S().take();
        } else if(n == "free") {
            ev.r = run_free(op.I(0), op.I(1), (unsigned)op.I(2));
        } else if(n == "life") {
            ev.r = run_life(op.I(0), op.I(1));
        } else if(n == "probe") {
            Probe a, b;
            std::vector<long> r;
            {
                ns::LockGuard<Probe> g(a);
                r.push_back(a.locks);
                ns::LockGuard<Probe> h(b);
                r.push_back(a.unlocks == 0 && b.locks == 1 && b.unlocks == 0);
            }
            r.push_back(a.locks == 1 && b.locks == 1 ? a.unlocks : 0);
            r.push_back(b.unlocks);
            ev.r = jl(r);
        } else {
            throw 4;
        }
    }
};

} // namespace

World *make_world(long) { return new ThreadWorld; }

int main(int argc, char **argv) { return drv_main(argc, argv); }
