#include "drv.hpp"
#include "obj.hpp"
#include <algorithm>
#if EPOCH == 2025
#include <pystd2025_btree.hpp>
#else
#include <pystd2026_btree.hpp>
#endif

static long fillval(long k, long w) { return (k * 31 + w) % 1000; }

// Ordered by the key alone.
struct KV {
    Obj k;
    int v = 0;
    KV() noexcept = default;
    KV(long k_, long v_) noexcept : k{(int)k_}, v{(int)v_} {}
    KV(const KV &) noexcept = default;
    KV(KV &&) noexcept = default;
    KV &operator=(const KV &) noexcept = default;
    KV &operator=(KV &&) noexcept = default;
    bool operator==(const KV &o) const noexcept { return k == o.k; }
    bool operator<(const KV &o) const noexcept { return k < o.k; }
    int operator<=>(const KV &o) const noexcept { return k <=> o.k; }
#if EPOCH == 2025
    bool operator==(uint32_t) const noexcept { return false; } // removing compares with a number
#endif
};

// One face over the tree, the set and the map.
template<size_t E> struct Tree {
    static constexpr long entries = E;
    ns::BTree<KV, E> t;
    void put(long k, long v) { t.insert(KV(k, v)); }
    void del(long k) { t.remove(KV(k, 0)); }
    bool has(long k) { return t.contains(KV(k, 0)); }
    const int *look(long k) {
        auto *p = t.lookup(KV(k, 0));
        return p ? &p->v : nullptr;
    }
    void delown(long k) {
        if(auto *p = t.lookup(KV(k, 0))) {
            t.remove(*p);
        }
    }
    int *slot(long k) {
        auto *p = t.lookup(KV(k, 0));
        return p ? const_cast<int *>(&p->v) : nullptr;
    }
    void reserve(long n) { t.reserve((size_t)n); }
    bool same(Tree &o) {
#if EPOCH == 2026
        auto a = t.begin();
        return o.t.begin() == a && t.end() == t.end() && o.t.begin() == o.t.begin();
#else
        (void)o;
        throw Skip{};
#endif
    }
    bool iteq(long i, long j) {
#if EPOCH == 2026
        auto at = [&](long n) {
            auto it = t.begin();
            for(; n > 0 && !(it == t.end()); --n) {
                ++it;
            }
            return it;
        };
        const auto a = at(i), b = at(j);
        if((a == b) != (b == a)) {
            abort();
        }
        return a == b;
#else
        throw Skip{};
#endif
    }
    void bump() {
#if EPOCH == 2026
        for(auto it = t.begin(); !(it == t.end()); ++it) {
            ++(*it).v;
        }
#else
        throw Skip{};
#endif
    }
    // The first n values in order, advanced one at a time.
    std::string walk(long n) {
        std::vector<long> v;
#if EPOCH == 2026
        auto it = t.begin();
        for(; n > 0 && !(it == t.end()); --n, ++it) {
            v.push_back((*it).k.v());
        }
#else
        throw Skip{};
#endif
        return jl(v);
    }
    std::string proj(const std::set<long> &seen) {
        std::vector<long> flat;
        bool ok = true;
        std::set<long> have;
        const size_t cap = t.size() * 2 + 100;
#if EPOCH == 2026
        auto e = t.end();
        for(auto it = t.begin(); !(it == e); ++it) {
            const KV &kv = *it;
            have.insert(kv.k.v());
            flat.push_back(kv.k.v());
            flat.push_back(kv.v);
            ok = ok && t.lookup(kv) == &kv;
            if(flat.size() / 2 > cap) {
                ok = false;
                break;
            }
        }
#else
        for(long k : seen) {
            if(auto *p = look(k)) {
                have.insert(k);
                flat.push_back(k);
                flat.push_back(*p);
            }
        }
#endif
        for(long k : seen) {
            ok = ok && has(k) == (have.count(k) == 1) && (look(k) != nullptr) == (have.count(k) == 1);
        }
        return "[" + jl({(long)t.size(), t.is_empty() ? 1 : 0, ok ? 1 : 0}) + "," + jl(flat) + "]";
    }
};
#if EPOCH == 2026
template<size_t E> struct Set {
    static constexpr long entries = E;
    ns::BTreeSet<Obj, E> t;
    void put(long k, long) { t.insert(Obj((int)k)); }
    void del(long k) { t.remove(Obj((int)k)); }
    bool has(long k) { return t.contains(Obj((int)k)); }
    const int *look(long) { unknown(); }
    int *slot(long) { unknown(); }
    void reserve(long) { throw Skip{}; }
    bool same(Set &) { throw Skip{}; }
    bool iteq(long, long) { throw Skip{}; }
    void bump() { throw Skip{}; }
    std::string walk(long) { throw Skip{}; }
    void delown(long k) { del(k); }
    std::string proj(const std::set<long> &seen) {
        std::vector<long> flat;
        for(long k : seen) {
            if(has(k)) {
                flat.push_back(k);
                flat.push_back(1);
            }
        }
        return "[" + jl({(long)t.size(), t.is_empty() ? 1 : 0, 1}) + "," + jl(flat) + "]";
    }
};
template<size_t E> struct Map {
    static constexpr long entries = E;
    ns::BTreeMap<Obj, Obj, E> t;
    void put(long k, long v) { t.insert(Obj((int)k), Obj((int)v)); }
    void del(long k) { t.remove(Obj((int)k)); }
    bool has(long k) { return t.lookup(Obj((int)k)) != nullptr; }
    const int *look(long k) {
        auto *p = t.lookup(Obj((int)k));
        return p ? p->p : nullptr;
    }
    int *slot(long k) {
        auto *p = t.lookup(Obj((int)k));
        return p ? p->p : nullptr;
    }
    void reserve(long) { throw Skip{}; }
    bool same(Map &) { throw Skip{}; }
    bool iteq(long, long) { throw Skip{}; }
    void bump() { throw Skip{}; }
    std::string walk(long) { throw Skip{}; }
    void delown(long k) { del(k); }
    std::string proj(const std::set<long> &seen) {
        std::vector<long> flat;
        for(long k : seen) {
            if(auto *p = look(k)) {
                flat.push_back(k);
                flat.push_back(*p);
            }
        }
        // A map has no size of its own.
        return "[" + jl({(long)flat.size() / 2, flat.empty() ? 1 : 0, 1}) + "," + jl(flat) + "]";
    }
};
#endif

template<typename M> struct TW : World {
    M *x[2] = {new M, new M};
    std::set<long> seen;
    // The earlier edition loses track of its nodes when values are removed from a tree of several
    // nodes, or the last value is: only removals from a single node are exercised.
    long most[2] = {0, 0}, now[2] = {0, 0};
    void grown(long h, long k, M &m) {
        now[h] += EPOCH == 2025 && !m.has(k);
        most[h] = std::max(most[h], now[h]);
    }
    void cut(long h, long k, M &m) {
        UNDEFINED_2025(most[h] >= m.entries || now[h] < 2);
        now[h] -= EPOCH == 2025 && m.has(k);
    }
    ~TW() {
        delete x[0];
        delete x[1];
    }
    std::string proj() override { return "[" + x[0]->proj(seen) + "," + x[1]->proj(seen) + "]"; }
    void exec(const Op &op, Ev &ev) override {
        const auto &n = op.n;
        M &m = *x[op.I(0)];
        const long k = op.a.size() > 1 ? op.I(1) : 0;
        const long h = op.I(0);
        if(n == "move") {
            m = ns::move(*x[k]);
            if(EPOCH == 2025 && !probing && h != k) {
                delete x[k];
                x[k] = new M;
                now[h] = now[k];
                most[h] = most[k];
                now[k] = most[k] = 0;
            }
            return;
        } else if(n == "movector") {
            M *fresh = new M(ns::move(*x[k]));
            delete x[op.I(0)];
            x[op.I(0)] = fresh;
            if(EPOCH == 2025 && !probing && h != k) {
                delete x[k];
                x[k] = new M;
                now[h] = now[k];
                most[h] = most[k];
                now[k] = most[k] = 0;
            }
            return;
        } else if(n == "reserve") {
            m.reserve(k);
            return;
        } else if(n == "itersame") {
            ev.r = jl({m.same(*x[k])});
            return;
        } else if(n == "iteq") {
            ev.r = jl({m.iteq(k, op.I(2))});
            return;
        } else if(n == "bump") {
            m.bump();
            return;
        } else if(n == "walk") {
            ev.r = m.walk(k);
            return;
        } else if(n == "fill" || n == "sfill") {
            for(long i = 0; i < op.I(3); ++i) {
                const long key = k + i * op.I(2);
                grown(h, key, m);
                m.put(key, n == "sfill" ? 1 : fillval(key, op.I(4)));
                seen.insert(key);
            }
            return;
        } else if(n == "cut") {
            UNDEFINED_2025(true);
            for(long i = 0; i < op.I(3); ++i) {
                m.del(k + i * op.I(2));
            }
            return;
        } else if(n == "churn") {
            UNDEFINED_2025(true);
            for(long i = 0; i < op.I(2); ++i) {
                m.put(k + i, 7);
                m.del(k + i);
            }
            return;
        }
        seen.insert(k);
        if(n == "has") {
            ev.r = jl({m.has(k)});
        } else if(n == "rem") {
            cut(h, k, m);
            m.del(k);
        } else if(n == "remown") {
            UNDEFINED_2025(true);
            m.delown(k);
        } else if(n == "sins") {
            const bool was = m.has(k);
            grown(h, k, m);
            m.put(k, 1);
            ev.r = jl({!was});
        } else if(n == "ins") {
            grown(h, k, m);
            m.put(k, op.I(2));
            ev.r = jl({op.I(2)});
        } else if(n == "lookset") {
            auto *p = m.slot(k);
            if(p) {
                *p = (int)op.I(2);
            }
            ev.r = jl({p != nullptr});
        } else if(n == "look") {
            auto *p = m.look(k);
            ev.r = p ? jl({*p}) : "[]";
        } else {
            unknown();
        }
    }
};
template<template<size_t> class X> World *sized(long e) {
    switch(e) {
    case 3:
        return new TW<X<3>>();
    case 5:
        return new TW<X<5>>();
    case 7:
        return new TW<X<7>>();
    default:
        return new TW<X<9>>();
    }
}
World *make_world(long w) {
    switch(w / 100) {
#if EPOCH == 2026
    case 1:
        return sized<Set>(w % 100);
    case 2:
        return sized<Map>(w % 100);
#endif
    default:
        return sized<Tree>(w % 100);
    }
}
int main(int argc, char **argv) { return drv_main(argc, argv); }
