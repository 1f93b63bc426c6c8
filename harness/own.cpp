// Optional (worlds 0..4), Expected (world 10), unique_ptr (20, 21), unique_arr (22, 23).
#include <type_traits>
#include "drv.hpp"
#include "obj.hpp"


template<typename T> T mk(long v) { return T((int)v); }
template<> ns::CString mk<ns::CString>(long v) { return ns::CString(std::to_string(v).c_str()); }
inline long val(const ns::CString &s) { return s.size() == 0 ? -1 : atol(s.c_str()); }

template<typename T> struct OptWorld : World {
    using O = ns::Optional<T>;
    O *s[3];
    OptWorld() {
        for(auto &p : s) {
            p = new O;
        }
    }
    ~OptWorld() {
        for(auto &p : s) {
            delete p;
        }
    }
    void replace(long h, O *n) {
        delete s[h];
        s[h] = n;
    }
    std::string proj() override {
        std::vector<std::string> out;
        for(auto &p : s) {
            const O &c = *p;
            if(c) {
                out.push_back(jl({1, val(*c)}));
            } else {
                out.push_back(jl({0}));
            }
        }
        return jj(out);
    }
    void exec(const Op &op, Ev &ev) override {
        const auto &n = op.n;
        const long h = op.I(0);
        O &o = *s[h];
        const O &co = o;
        O &g = *s[op.a.size() > 1 && op.I(1) >= 0 && op.I(1) < 3 ? op.I(1) : 0];
        if(n == "ctor" || n == "assign") {
            T x = mk<T>(op.I(1));
            const T cx = mk<T>(op.I(1));
            if(n == "ctor") {
                replace(h, op.I(2) == 1 ? new O(cx) : new O((T &&)x));
            } else if(op.I(2) == 1) {
                o = cx;
            } else if(op.I(2) == 2) {
                o = O((T &&)x);
            } else {
                o = (T &&)x;
            }
        } else if(n == "reset") {
            o.reset();
        } else if(n == "dctor") {
            replace(h, new O);
        } else if(n == "copyctor") {
            replace(h, new O((const O &)g));
        } else if(n == "copy") {
            o = (const O &)g;
        } else if(n == "movector") {
            if(&o != &g) {
                replace(h, new O((O &&)g));
            }
        } else if(n == "move") {
            o = (O &&)g;
        } else if(n == "swap") {
            ns::swap(o, g);
        } else if(n == "assignown") {
            if(op.I(1) == 0) {
                o = (const T &)*co;
            } else {
                o = (T &&)*o;
            }
        } else if(n == "assignother") {
            o = (const T &)((const O &)g).value();
        } else if(n == "get") {
            long r = 0;
            switch(op.I(1)) {
            case 0:
                r = val(*o);
                break;
            case 1:
                r = val(*co);
                break;
            case 2:
                r = val(o.value());
                break;
            case 3:
                r = val(co.value());
                break;
            case 4:
                r = val(*o.operator->());
                break;
            default:
                r = val(*co.operator->());
            }
            ev.r = jl({r});
        } else if(n == "mutate") {
            *o = mk<T>(op.I(1));
        } else if(n == "bool") {
            ev.r = jl({co ? 1 : 0});
        }
    }
};

#if EPOCH == 2026
static Obj *the_pool[100];
static Obj *pool(long v) {
    if(!the_pool[v]) {
        the_pool[v] = new Obj((int)v);
    }
    return the_pool[v];
}
struct PtrWorld : World {
    ~PtrWorld() {
        for(auto &p : the_pool) {
            delete p;
            p = nullptr;
        }
    }
    using O = ns::Optional<Obj *>;
    O s[3];
    std::string proj() override {
        std::vector<std::string> out;
        for(const O &c : s) {
            if(c) {
                out.push_back(jl({1, val(*c)}));
            } else {
                out.push_back(jl({0}));
            }
        }
        return jj(out);
    }
    void exec(const Op &op, Ev &ev) override {
        const auto &n = op.n;
        const long h = op.I(0);
        O &o = s[h];
        const O &co = o;
        O &g = s[op.a.size() > 1 && op.I(1) >= 0 && op.I(1) < 3 ? op.I(1) : 0];
        auto replace = [&](auto &&...x) {
            s[h].~O();
            new(&s[h]) O(x...);
        };
        if(n == "ctor") {
            replace(pool(op.I(1)));
        } else if(n == "assign") {
            o = O(pool(op.I(1)));
        } else if(n == "reset") {
            o.reset();
        } else if(n == "dctor") {
            replace();
        } else if(n == "copyctor") {
            O t((const O &)g);
            replace((const O &)t);
        } else if(n == "copy") {
            o = (const O &)g;
        } else if(n == "movector") {
            if(&o != &g) {
                O t((O &&)g);
                o = (const O &)t;
            }
        } else if(n == "move") {
            o = (O &&)g;
        } else if(n == "swap") {
            O t((const O &)o);
            o = (const O &)g;
            g = (const O &)t;
        } else if(n == "assignother") {
            o = O(g.value());
        } else if(n == "get") {
            long r = 0;
            switch(op.I(1)) {
            case 0:
                r = val(*o);
                break;
            case 1:
                r = val(*co);
                break;
            case 2:
                r = val(*o.value());
                break;
            case 3:
                r = val(*co.value());
                break;
            case 4:
                r = val(*o.operator->());
                break;
            default:
                r = val(*co.operator->());
            }
            ev.r = jl({r});
        } else if(n == "mutate") {
            if(!co) {
                *o;
            }
            o = O(pool(op.I(1)));
        } else if(n == "bool") {
            ev.r = jl({co ? 1 : 0});
        }
    }
};

#endif
template<typename V, typename E> struct ExpWorld : World {
    using X = ns::Expected<V, E>;
    X *s[3];
    bool moved[3] = {}; // what a moved text holds can not be looked at in the frozen edition
    ExpWorld() {
        for(auto &p : s) {
            p = new X;
        }
    }
    ~ExpWorld() {
        for(auto &p : s) {
            delete p;
        }
    }
    void replace(long h, X *n) {
        delete s[h];
        s[h] = n;
    }
    std::string proj() override {
        std::vector<std::string> out;
        for(auto &p : s) {
            const long k = p->has_value() ? 1 : p->has_error() ? 2 : 0;
            if(EPOCH == 2025 && moved[&p - s]) {
                out.push_back(jl({k, -1}));
                continue;
            }
            out.push_back(jl({k, k == 1 ? val(p->value()) : k == 2 ? val(p->error()) : 0}));
        }
        return jj(out);
    }
    void exec(const Op &op, Ev &ev) override {
        const auto &n = op.n;
        const long h = op.I(0);
        X &x = *s[h];
        // A stored value can not be reached in the frozen edition.
        UNDEFINED_2025(n == "val" || n == "setval" || n == "mutate" || n == "value");
        UNDEFINED_2025((n == "movector" || n == "move") && moved[op.I(1)]);
        UNDEFINED_2025(n == "error" && moved[h]);
        UNDEFINED_2025(n == "movector" && !*s[op.I(1)] && !s[op.I(1)]->has_error());
        moved[h] = moved[h] && (n == "bool" || (n == "movector" && op.I(1) == h));
        if(n == "val" || n == "err" || n == "setval" || n == "seterr" || n == "unexp") {
            V v = mk<V>(op.I(1));
            E e = mk<E>(op.I(1));
            const bool c = op.I(2) == 1;
            if(n == "val") {
                replace(h, c ? new X((const V &)v) : new X((V &&)v));
            } else if(n == "err") {
                replace(h, c ? new X((const E &)e) : new X((E &&)e));
            } else if(n == "setval") {
                if(c) {
                    x = X((const V &)v);
                } else {
                    x = X((V &&)v);
                }
            } else if(n == "seterr") {
                if(c) {
                    x = X((const E &)e);
                } else {
                    x = X((E &&)e);
                }
            } else if(op.I(2) < 2) {
                x = X(c ? ns::Unexpected<E>((const E &)e) : ns::Unexpected<E>((E &&)e));
            } else {
                ns::Unexpected<E> u, t((const E &)e);
                u = (ns::Unexpected<E> &&)t;
                const ns::Unexpected<E> &cu = u;
                ev.r = both([&] { return val(u.error()); }, [&] { return val(cu.error()); });
#if EPOCH == 2026
                if(op.I(2) == 3) {
                    E last(((ns::Unexpected<E> &&)u).error());
                    x = X((E &&)last);
                    return;
                }
#endif
                x = X((ns::Unexpected<E> &&)u);
            }
        } else if(n == "dctor") {
            replace(h, new X);
        } else if(n == "movector") {
            if(op.I(1) != h) {
                replace(h, new X((X &&)*s[op.I(1)]));
                moved[op.I(1)] = true;
            }
        } else if(n == "move") {
            x = (X &&)*s[op.I(1)];
        } else if(n == "value") {
            ev.r = jl({val(x.value())});
        } else if(n == "error") {
            ev.r = jl({val(x.error())});
        } else if(n == "mutate") {
            x.value() = mk<V>(op.I(1));
        } else if(n == "bool") {
            ev.r = jl({x ? 1 : 0, x.has_value(), x.has_error()});
        }
    }
};

struct Counted {
    static inline long dead = 0;
    int *id;
    Counted(int i = 0) : id{new int(i)} {}
    ~Counted() {
        ++dead;
        delete id;
    }
};
struct LoggingDeleter {
    static inline long dels = 0;
    static void del(Counted *c) {
        dels += c != nullptr;
        delete c;
    }
};
struct ArrayDeleter {
    static void del(Counted *c) { delete[] c; }
};
#if EPOCH == 2025
template<bool custom> using ArrOf = ns::unique_arr<Counted>;
#else
template<bool custom> using ArrOf = std::conditional_t<custom, ns::unique_arr<Counted, ArrayDeleter>, ns::unique_arr<Counted>>;
#endif
template<bool custom> struct PtrOwn : World {
    using P = std::conditional_t<custom, ns::unique_ptr<Counted, LoggingDeleter>, ns::unique_ptr<Counted>>;
    P *s[3];
    std::vector<Counted *> raw;
    PtrOwn() {
        Counted::dead = LoggingDeleter::dels = 0;
        for(auto &p : s) {
            p = new P;
        }
    }
    ~PtrOwn() {
        for(auto &p : s) {
            delete p;
        }
        for(auto p : raw) {
            delete p;
        }
    }
    void replace(long h, P *n) {
        delete s[h];
        s[h] = n;
    }
    std::string proj() override {
        std::vector<std::string> out;
        for(auto &p : s) {
            const P &c = *p;
            out.push_back(c ? jl({(long)*c->id}) : "[]");
        }
        return jj({jj(out), jn(Counted::dead), jn(custom ? LoggingDeleter::dels : Counted::dead)});
    }
    void exec(const Op &op, Ev &ev) override {
        const auto &n = op.n;
        const long h = op.I(0);
        P &p = *s[h];
        if(n == "new") {
            replace(h, new P(new Counted((int)op.I(1))));
        } else if(n == "reset") {
            p.reset(new Counted((int)op.I(1)));
        } else if(n == "resetnull") {
            p.reset(nullptr);
        } else if(n == "drop") {
            replace(h, new P);
        } else if(n == "movector") {
            if(op.I(1) != h) {
                replace(h, new P((P &&)*s[op.I(1)]));
            }
        } else if(n == "move") {
            p = (P &&)*s[op.I(1)];
        } else if(n == "swap") {
            ns::swap(p, *s[op.I(1)]);
        } else if(n == "release") {
            Counted *c = p.release();
            ev.r = jl({c ? (long)*c->id : 0});
            if(c) {
                raw.push_back(c);
            }
        } else if(n == "adopt") {
            if(!raw.empty()) {
                Counted *c = raw.front();
                raw.erase(raw.begin());
                p.reset(c);
            }
        } else if(n == "get") {
            const P &c = p;
            long id = 0;
            if(p.get()) {
                id = *(*p).id;
                if(c.get() != p.get() || p.operator->() != c.operator->()) {
                    id = -1;
                }
            }
            ev.r = jl({id, c ? 1 : 0});
        }
    }
};
template<bool custom> struct ArrOwn : World {
    using P = ArrOf<custom>;
    P *s[3];
    ArrOwn() {
        Counted::dead = 0;
        for(auto &p : s) {
            p = new P;
        }
    }
    ~ArrOwn() {
        for(auto &p : s) {
            delete p;
        }
    }
    void replace(long h, P *n) {
        delete s[h];
        s[h] = n;
    }
    std::string proj() override {
        std::vector<std::string> out;
        for(auto &p : s) {
            const P &c = *p;
            std::vector<long> v;
            for(size_t i = 0; i < c.size(); ++i) {
                v.push_back(*c.get()[i].id);
            }
            out.push_back(jl(v));
        }
        return jj({jj(out), jn(Counted::dead), jn(0)});
    }
    void exec(const Op &op, Ev &ev) override {
        const auto &n = op.n;
        const long h = op.I(0);
        P &p = *s[h];
        const P &c = p;
        if(n == "newarr") {
            const size_t k = op.Z(1);
            P *q = op.I(2) ? new P(new Counted[k], k) : new P(k);
            for(size_t i = 0; i < k; ++i) {
                *q->get()[i].id = (int)(101 + i);
            }
            replace(h, q);
        } else if(n == "drop") {
            replace(h, new P);
        } else if(n == "movector") {
            if(op.I(1) != h) {
                replace(h, new P((P &&)*s[op.I(1)]));
            }
        } else if(n == "move") {
            p = (P &&)*s[op.I(1)];
        } else if(n == "swap") {
            P t((P &&)p);
            p = (P &&)*s[op.I(1)];
            *s[op.I(1)] = (P &&)t;
        } else if(n == "idx") {
            ev.r = both([&] { return (long)*c[op.Z(1)].id; }, [&] { return (long)*p[op.Z(1)].id; });
#if EPOCH == 2026
            if(&c.unsafe_at(op.Z(1)) != &p[op.Z(1)] || &p.unsafe_at(op.Z(1)) != &c[op.Z(1)] || p.operator->() != c.get() || p.get() != c.get()) {
                ev.r = "[-7]";
            }
#endif
        } else if(n == "set") {
            *p[op.Z(1)].id = (int)op.I(2);
        } else if(n == "size") {
            ev.r = jl({(long)c.size(), (long)(c.size_bytes() / sizeof(Counted))});
        }
    }
};

World *make_world(long k) {
    switch(k) {
    case 0:
        return new OptWorld<Obj>;
    case 1:
        return new OptWorld<int>;
#if EPOCH == 2026
    case 2:
        return new OptWorld<ns::CString>;
#endif
    case 3:
        return new OptWorld<Wide>;
#if EPOCH == 2026
    case 4:
        return new PtrWorld;
#endif
    case 10:
        return new ExpWorld<Obj, ns::CString>;
    case 11:
        return new ExpWorld<char, Wide>;
    case 20:
        return new PtrOwn<false>;
    case 21:
        return new PtrOwn<true>;
    case 22:
        return new ArrOwn<false>;
    default:
        return new ArrOwn<true>;
    }
}
int main(int argc, char **argv) { return drv_main(argc, argv); }
