// Several editions of the library in one program, each doing its own work and handing values to
// the others.  THIRD is the edition made by the release script from the current one.
#include "drv.hpp"
#include <pystd2025.hpp>
#include <pystd2025_btree.hpp>
#include <pystd2025_threading.hpp>
#include <pystd2026.hpp>
#include <pystd2026_btree.hpp>
#include <pystd2026_hashtable.hpp>
#include <pystd2026_introsort.hpp>
#include <pystd2026_threading.hpp>
#include <pystd2026_variant.hpp>
#ifdef THIRD
#include <pystd2027.hpp>
#include <pystd2027_btree.hpp>
#include <pystd2027_hashtable.hpp>
#include <pystd2027_introsort.hpp>
#include <pystd2027_threading.hpp>
#include <pystd2027_variant.hpp>
#endif

struct Edition {
    virtual ~Edition() = default;
    virtual void push(int v) = 0;
    virtual void pop() = 0;
    virtual void sort() = 0;
    virtual void put(int k, int v) = 0;
    virtual long look(int k) = 0;
    virtual void text(const char *s) = 0;
    virtual const char *chars() = 0;
    virtual std::string upper() = 0;
    virtual std::vector<long> values() = 0;
    virtual long keys() = 0;
    virtual void fail() = 0;
    virtual void utf8fail() = 0;
};

#define EDITION(N, SORT)                                                                           \
    struct E##N : Edition {                                                                        \
        N::Vector<int> v;                                                                          \
        N::HashMap<N::U8String, int> m;                                                            \
        N::U8String t;                                                                             \
        static N::U8String key(int k) { return N::U8String(("key " + std::to_string(k)).c_str()); }\
        void push(int x) override { v.push_back(x); }                                              \
        void pop() override { v.pop_back(); }                                                      \
        void sort() override { SORT; }                                                             \
        void put(int k, int x) override { m.insert(key(k), x); }                                   \
        long look(int k) override {                                                                \
            auto *p = m.lookup(key(k));                                                            \
            return p ? *p : -1;                                                                    \
        }                                                                                          \
        void text(const char *s) override { t = N::U8String(s); }                                  \
        const char *chars() override { return t.c_str(); }                                         \
        std::string upper() override {                                                             \
            auto u = t.upper();                                                                    \
            return u.c_str();                                                                      \
        }                                                                                          \
        std::vector<long> values() override {                                                      \
            std::vector<long> r;                                                                   \
            for(size_t i = 0; i < v.size(); ++i) {                                                 \
                r.push_back(v[i]);                                                                 \
            }                                                                                      \
            return r;                                                                              \
        }                                                                                          \
        long keys() override { return (long)m.size(); }                                            \
        void fail() override { throw N::PyException("failed"); }                                   \
        void utf8fail() override { N::U8String bad("\xff"); }                                      \
    };

EDITION(pystd2025, pystd2025::insertion_sort(v.begin(), v.end()))
EDITION(pystd2026, pystd2026::introsort(v.begin(), v.end()))
#ifdef THIRD
EDITION(pystd2027, pystd2027::introsort(v.begin(), v.end()))
#endif

struct Both : World {
    std::vector<std::unique_ptr<Edition>> e;
    Both() {
        e.emplace_back(new Epystd2025);
        e.emplace_back(new Epystd2026);
#ifdef THIRD
        e.emplace_back(new Epystd2027);
#else
        e.emplace_back(new Epystd2026);
#endif
    }
    std::string proj() override {
        std::string s = "[";
        for(auto &x : e) {
            std::vector<long> m, t;
            for(int k = 0; k < 12; ++k) {
                m.push_back(x->look(k));
            }
            for(const char *c = x->chars(); *c; ++c) {
                t.push_back((unsigned char)*c);
            }
            s += (s.size() > 1 ? "," : "") + ("[" + jl(x->values()) + "," + jl(m) + "," + jl(t) + "," + jn(x->keys()) + "]");
        }
        return s + "]";
    }
    void exec(const Op &op, Ev &ev) override {
        Edition &x = *e[op.I(0)];
        if(op.n == "push") {
            x.push((int)op.I(1));
        } else if(op.n == "pop") {
            x.pop();
        } else if(op.n == "sort") {
            x.sort();
        } else if(op.n == "take") { // all values of another edition
            for(long v : e[op.I(1)]->values()) {
                x.push((int)v);
            }
        } else if(op.n == "put") {
            x.put((int)op.I(1), (int)op.I(2));
        } else if(op.n == "text") {
            x.text(op.S(1).c_str());
        } else if(op.n == "taketext") {
            std::string s = e[op.I(1)]->chars();
            x.text(s.c_str());
        } else if(op.n == "upper") {
            std::vector<long> r;
            for(unsigned char c : x.upper()) {
                r.push_back(c);
            }
            ev.r = jl(r);
        } else if(op.n == "fail") {
            // Which edition's exception is it?
            long who = -1;
            const char *what = "";
            try {
                op.I(1) ? x.utf8fail() : x.fail();
            } catch(const pystd2025::PyException &) {
                who = 0;
            } catch(const pystd2026::PyException &) {
                who = 1;
#ifdef THIRD
            } catch(const pystd2027::PyException &) {
                who = 2;
#endif
            }
            (void)what;
#ifndef THIRD
            who += op.I(0) == 2;
#endif
            ev.r = jl({who});
        } else {
            unknown();
        }
    }
};
World *make_world(long) { return new Both; }
int main(int argc, char **argv) { return drv_main(argc, argv); }
