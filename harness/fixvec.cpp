#include "drv.hpp"
#include "obj.hpp"

template<typename T, size_t N> struct FixWorld : World {
    typedef ns::FixedVector<T, N> V;
    // A guard region behind each object: writes past the inline storage are visible.
    struct Slot {
        unsigned char pre[64];
        alignas(V) char mem[sizeof(V)];
        unsigned char post[64];
    } s[2];
    V &v(long i) { return *(V *)s[i].mem; }
    FixWorld() {
        for(auto &x : s) {
            memset(x.pre, 0x5a, sizeof(x.pre));
            memset(x.post, 0x5a, sizeof(x.post));
            new(x.mem) V();
        }
    }
    ~FixWorld() {
        v(0).~V();
        v(1).~V();
    }
    std::string list(const V &x) {
        std::vector<long> r;
        for(size_t i = 0; i < x.size(); ++i) {
            r.push_back(val(x.begin()[i]));
        }
        return jl(r);
    }
    std::string proj() override {
        for(auto &x : s) {
            for(size_t i = 0; i < sizeof(x.pre); ++i) {
                if(x.pre[i] != 0x5a || x.post[i] != 0x5a) {
                    return "[[-99],[-99]]";
                }
            }
        }
        return jj({list(v(0)), list(v(1))});
    }
    void exec(const Op &op, Ev &ev) override {
        const auto &n = op.n;
        V &c = v(op.I(0));
        const V &cc = c;
        if(n == "push") {
            const T t((int)op.I(1));
            c.push_back(t);
        } else if(n == "pushm") {
            c.push_back(T((int)op.I(1)));
        } else if(n == "emplace") {
#if EPOCH == 2026
            c.emplace_back((int)op.I(1));
#else
            unknown();
#endif
        } else if(n == "trypush") {
            const T t((int)op.I(1));
            ev.r = jl({c.try_push_back(t)});
        } else if(n == "trypushm") {
            ev.r = jl({c.try_push_back(T((int)op.I(1)))});
        } else if(n == "tryemplace") {
#if EPOCH == 2026
            ev.r = jl({c.try_emplace_back((int)op.I(1))});
#else
            unknown();
#endif
        } else if(n == "pushself") {
            if(op.Z(1) < c.size()) {
                c.push_back(cc[op.Z(1)]);
            }
        } else if(n == "emplself") {
#if EPOCH == 2026
            if(op.Z(1) < c.size()) {
                c.emplace_back(cc[op.Z(1)]);
            }
#else
            unknown();
#endif
        } else if(n == "insert") {
            c.insert(op.Z(1), T((int)op.I(2)));
        } else if(n == "pop") {
            c.pop_back();
        } else if(n == "popfront") {
            c.pop_front();
        } else if(n == "delete") {
            c.delete_at(op.Z(1));
        } else if(n == "clear") {
            while(!c.is_empty()) {
                c.pop_back();
            }
        } else if(n == "fill") {
            for(long i = 1; i <= op.I(1) && !c.is_full(); ++i) {
                c.push_back(T((int)((i * 7 + op.I(2)) % 100)));
            }
        } else if(n == "moveappend") {
            c.move_append(v(op.I(1)));
            while(!v(op.I(1)).is_empty()) {
                v(op.I(1)).pop_back();
            }
        } else if(n == "move") {
            c = ns::move(v(op.I(1)));
        } else if(n == "movector") {
            c.~V();
            new(s[op.I(0)].mem) V(ns::move(v(op.I(1))));
        } else if(n == "get") {
            ev.r = jl({val(c[op.Z(1)])});
        } else if(n == "cget") {
            ev.r = jl({val(cc[op.Z(1)])});
        } else if(n == "set") {
            c[op.Z(1)] = T((int)op.I(2));
        } else if(n == "front") {
            ev.r = both([&] { return val(c.front()); }, [&] { return val(cc.front()); });
        } else if(n == "back") {
            ev.r = both([&] { return val(c.back()); }, [&] { return val(cc.back()); });
        } else if(n == "size") {
            ev.r = jl({(long)c.size(), c.is_empty(), c.is_full(), (long)c.capacity()});
        } else if(n == "iter") {
            std::vector<long> r;
            for(const auto &e : cc) {
                r.push_back(val(e));
            }
            ev.r = jl(r);
        } else if(n == "span") {
#if EPOCH == 2026
            std::vector<long> r;
            auto sp = cc.span();
            auto w = c.span();
            for(size_t i = 0; i < sp.size(); ++i) {
                r.push_back(&sp[i] == &w[i] && &c.unsafe_at(i) == &w[i] && &cc.unsafe_at(i) == c.data() + i ? val(sp[i]) : -7);
            }
            if(w.size() != sp.size()) {
                r.push_back(-8);
            }
            ev.r = jl(r);
#else
            unknown();
#endif
        } else {
            unknown();
        }
    }
};

World *make_world(long kind) {
    switch(kind) {
    case 0:
        return new FixWorld<int, 1>();
    case 1:
        return new FixWorld<Obj, 2>();
    case 2:
        return new FixWorld<Obj, 3>();
    case 3:
        return new FixWorld<Wide, 4>();
    case 4:
        return new FixWorld<unsigned char, 5>();
    case 5:
        return new FixWorld<Obj, 16>();
    default:
        return new FixWorld<int, 300>();
    }
}
int main(int argc, char **argv) { return drv_main(argc, argv); }
