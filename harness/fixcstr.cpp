#include "drv.hpp"

template<size_t N> struct FixStr : World {
    typedef ns::FixedCString<N> V;
    typedef ns::FixedCString<N + 5> W;
    // The objects live in exactly sized heap blocks: overruns are seen.
    V *a[2];
    W *b;
    FixStr() {
        a[0] = new V();
        a[1] = new V();
        b = new W();
    }
    ~FixStr() {
        delete a[0];
        delete a[1];
        delete b;
    }
    template<typename T> static std::string one(T &x) {
        const T &cx = x;
        return jb(cx.view().data(), cx.size()) + "," +
               jl({(long)cx.view().size(), (long)strlen(cx.c_str()), cx.is_empty()});
    }
    std::string proj() override { return "[" + one(*a[0]) + "," + one(*a[1]) + "," + one(*b) + "]"; }
    struct Exact {
        char *p;
        size_t n;
        Exact(const std::string &s, bool term) : n{s.size()} {
            const size_t k = n + (term ? 1 : 0);
            p = (char *)malloc(k ? k : 1);
            memcpy(p, s.data(), n);
            if(term) {
                p[n] = 0;
            }
        }
        ~Exact() { free(p); }
    };
    template<size_t CAP, typename T> void common(T *&slot, const Op &op, Ev &ev) {
        const auto &n = op.n;
        T &c = *slot;
        if(n == "ctorz") {
            Exact t(op.S(1), true);
            T tmp(t.p);
            c = ns::move(tmp);
        } else if(n == "ctorn") {
            // The earlier edition relies on a terminator behind the text.
            Exact t(op.S(1), EPOCH == 2025 && !probing);
            T *tmp = nullptr;
            // On the heap: a constructor that reads or writes past its end is seen.
            struct Holder {
                T *p = nullptr;
                ~Holder() { delete p; }
            } h;
            h.p = new T(t.p, (uint32_t)op.S(1).size());
            tmp = h.p;
            c = ns::move(*tmp);
        } else if(n == "setv") {
            Exact t(op.S(1), false);
            c = ns::CStringView(t.p, t.n);
        } else if(n == "setself") {
            if(op.I(1) >= 0 && op.Z(1) <= op.Z(2) && op.Z(2) <= c.size()) {
                UNDEFINED_2025(op.Z(1) == 0 && op.Z(2) < c.size());
                c = ns::CStringView(c.view().data() + op.Z(1), op.Z(2) - op.Z(1));
            }
        } else if(n == "pop") {
            c.pop_back();
        } else if(n == "get") {
            const T &cc = c;
            const size_t i = op.Z(1);
            if(i > c.size() && i <= CAP) {
                throw ns::PyException("skipped"); // unspecified bytes of the buffer
            }
            ev.r = jl({(long)(unsigned char)cc[(uint32_t)(i > 0xffffffffu ? 0xffffffffu : i)]});
        } else if(n == "set") {
            if(op.Z(1) >= c.size() && op.Z(1) <= CAP) {
                throw ns::PyException("skipped");
            }
            const size_t i = op.Z(1);
            c[(uint32_t)(i > 0xffffffffu ? 0xffffffffu : i)] = (char)op.I(2);
        } else if(n == "eqz") {
            Exact t(op.S(1), true);
            ev.r = jl({c == (const char *)t.p});
        } else if(n == "eqv") {
            Exact t(op.S(1), false);
            ev.r = jl({c == ns::CStringView(t.p, t.n)});
        } else {
            unknown();
        }
    }
    void exec(const Op &op, Ev &ev) override {
        const auto &n = op.n;
        const long h = op.I(0);
        if(n == "cross") {
            UNDEFINED_2025(h != 2 && b->size() > N);
            if(h == 2) {
                *b = *a[op.I(1)];
            } else {
                *a[h] = *b;
            }
        } else if(n == "copy") {
            *a[h] = (const V &)*a[op.I(1)];
        } else if(n == "copyctor") {
            V *t = new V((const V &)*a[op.I(1)]);
            delete a[h];
            a[h] = t;
        } else if(n == "move") {
            *a[h] = ns::move(*a[op.I(1)]);
        } else if(n == "movector") {
            V *t = new V(ns::move(*a[op.I(1)]));
            delete a[h];
            a[h] = t;
        } else if(h == 2) {
            common<N + 5>(b, op, ev);
        } else {
            common<N>(a[h], op, ev);
        }
    }
};

World *make_world(long kind) {
    switch(kind) {
    case 10:
        return new FixStr<1>();
    case 11:
        return new FixStr<3>();
    case 12:
        return new FixStr<8>();
    default:
        return new FixStr<40>();
    }
}
int main(int argc, char **argv) { return drv_main(argc, argv); }
