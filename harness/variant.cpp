#include "drv.hpp"
#include <type_traits>
#include "obj.hpp"
#if EPOCH == 2026
#include <pystd2026_variant.hpp>
#endif

// Alternative number N; owns memory.
template<int N> struct Alt {
    Obj o;
    char pad[N % 5 * 8 + 1];
    Alt() noexcept {}
    Alt(int v) noexcept : o{v} {}
    Alt(const Alt &x) noexcept : o{x.o} { memcpy(pad, x.pad, sizeof(pad)); }
    Alt(Alt &&x) noexcept : o{(Obj &&)x.o} {}
    Alt &operator=(const Alt &x) noexcept = default;
    Alt &operator=(Alt &&x) noexcept = default;
    bool operator==(const Alt &x) const { return o == x.o; }
};
// Copying the value 13 fails.
struct Thrower {
    Obj o;
    Thrower() noexcept {}
    Thrower(int v) noexcept : o{v} {}
    Thrower(const Thrower &x) : o{check(x.o)} {}
    Thrower(Thrower &&x) noexcept : o{(Obj &&)x.o} {}
    Thrower &operator=(const Thrower &x) {
        o = check(x.o);
        return *this;
    }
    Thrower &operator=(Thrower &&x) noexcept = default;
    static const Obj &check(const Obj &o) {
        if(o.v() == 13) {
            throw ns::PyException("copy failed");
        }
        return o;
    }
    bool operator==(const Thrower &x) const { return o == x.o; }
};
template<typename T> T mk(long v) { return T((int)v); }
template<> ns::CString mk<ns::CString>(long v) { return ns::CString(v ? (std::string("number ") + std::to_string(v)).c_str() : ""); }
template<> ns::U8String mk<ns::U8String>(long v) { return ns::U8String(v ? (std::string("\xc3\xa4 ") + std::to_string(v)).c_str() : ""); }
template<> char mk<char>(long v) { return (char)v; }
template<> long mk<long>(long v) { return v; }
template<> double mk<double>(long v) { return v + .25; }
template<> ns::Vector<int> mk<ns::Vector<int>>(long v) {
    ns::Vector<int> r;
    for(int i = 0; v && i < 5; ++i) {
        r.push_back((int)v);
    }
    return r;
}
template<int N> long val(const Alt<N> &a) { return a.o.v(); }
inline long val(const Thrower &t) { return t.o.v(); }
inline long val(const char &c) { return c; }
inline long val(const double &d) { return d == 0 ? 0 : (long)(d - .25); }
inline long val(const ns::CString &s) { return s.size() == 0 ? 0 : atol(s.c_str() + 7); }
inline long val(const ns::U8String &s) { return s.size_bytes() == 0 ? 0 : atol(s.c_str() + 3); }
inline long val(const ns::Vector<int> &v) { return v.size() == 0 ? 0 : v.size() == 5 && v[0] == v[4] ? v[2] : -77; }
// What a moved-from container holds is 0 here and -1 in the specification.

template<typename... T> struct VarWorld : World {
    using V = ns::Variant<T...>;
    V *s[3];
    bool moved[3] = {};
    VarWorld() {
        for(auto &p : s) {
            p = new V;
        }
    }
    ~VarWorld() {
        for(auto &p : s) {
            delete p;
        }
    }
    template<typename F> static void with(long k, F f) {
        long i = 0;
        ((i++ == k ? f(std::type_identity<T>{}) : void()), ...);
    }
    std::string proj() override {
        std::vector<std::string> out;
        for(int h = 0; h < 3; ++h) {
            V &v = *s[h];
            const V &cv = v;
            long claims = 0, yields = 0, value = -99;
            (
                [&] {
                    claims += cv.template contains<T>();
                    if(const T *p = cv.template get_if<T>()) {
                        ++yields;
                        // Texts can not be looked at after a move in the frozen edition.
                        value = EPOCH == 2025 && moved[h] ? -1 : val(*p);
                    }
                    if(v.template get_if<T>() != cv.template get_if<T>()) {
                        yields = 99;
                    }
                }(),
                ...);
            if(moved[h] && value == 0) {
                value = -1;
            }
            out.push_back(jl({(long)v.index(), value, claims, yields}));
        }
        return jj(out);
    }
    void replace(long h, V *n) {
        delete s[h];
        s[h] = n;
        moved[h] = false;
    }
    static bool throws(V &v) {
        bool r = false;
        (
            [&] {
                if constexpr(std::is_same_v<T, Thrower>) {
                    r = v.template contains<T>() && val(v.template get<T>()) == 13;
                }
            }(),
            ...);
        return r;
    }
    void exec(const Op &op, Ev &ev) override {
        const auto &n = op.n;
        const long h = op.I(0);
        V &v = *s[h];
        UNDEFINED_2025((n == "copyctor" || n == "copy" || n == "movector" || n == "move" || n == "setmoved" || n == "swap") && moved[op.I(1)]);
        UNDEFINED_2025((n == "insertself" || n == "get" || n == "getif" || n == "swap") && moved[h]);
        if(n == "ctor" || n == "set" || n == "insert") {
            with(op.I(1), [&]<typename A>(std::type_identity<A>) {
                A x = mk<A>(op.I(2));
                const A cx = mk<A>(op.I(2) == 13 ? 1 : op.I(2));
                if(n == "insert") {
                    v.template insert<A>((A &&)x);
                    moved[h] = false;
                } else if(n == "set") {
                    if(op.I(3) == 1 && op.I(2) != 13) {
                        v = cx;
                    } else {
                        v = (A &&)x;
                    }
                    moved[h] = false;
                } else if(op.I(3) == 1 && op.I(2) != 13) {
                    replace(h, new V(x));
                } else if(op.I(3) == 2 && op.I(2) != 13) {
                    replace(h, new V(cx));
                } else {
                    replace(h, new V((A &&)x));
                }
            });
        } else if(n == "dctor") {
            replace(h, new V);
        } else if(n == "copyctor") {
            const bool m = moved[op.I(1)];
#if EPOCH == 2026
            if(op.a.size() > 2) {
                replace(h, new V(*s[op.I(1)]));
            } else
#endif
            {
                replace(h, new V((const V &)*s[op.I(1)]));
            }
            moved[h] = m;
        } else if(n == "copy") {
            // A copy assignment that fails ends the program in the frozen edition.
            UNDEFINED_2025(throws(*s[op.I(1)]));
            v = (const V &)*s[op.I(1)];
            moved[h] = moved[op.I(1)];
        } else if(n == "movector" || n == "move" || n == "setmoved") {
            const long g = op.I(1);
            if(n == "movector") {
                if(g != h) {
                    replace(h, new V((V &&)*s[g]));
                }
            } else if(n == "move") {
                v = (V &&)*s[g];
            } else if(g != h) {
                with(s[g]->index(), [&]<typename A>(std::type_identity<A>) { v = (A &&)s[g]->template get<A>(); });
            }
            if(g != h) {
                moved[h] = moved[g];
                moved[g] = true;
            }
        } else if(n == "swap") {
            ns::swap(v, *s[op.I(1)]);
            std::swap(moved[h], moved[op.I(1)]);
        } else if(n == "insertself") {
            with(v.index(), [&]<typename A>(std::type_identity<A>) { v.template insert<A>(v.template get<A>()); });
        } else if(n == "get") {
            with(op.I(1), [&]<typename A>(std::type_identity<A>) {
                long r = op.I(2) ? val(((const V &)v).template get<A>()) : val(v.template get<A>());
                ev.r = jl({moved[h] && r == 0 ? -1 : r});
            });
        } else if(n == "getif") {
            with(op.I(1), [&]<typename A>(std::type_identity<A>) {
                if(auto *p = v.template get_if<A>()) {
                    long r = val(*p);
                    ev.r = jl({1, moved[h] && r == 0 ? -1 : r});
                } else {
                    ev.r = jl({0});
                }
            });
        } else if(n == "contains") {
            with(op.I(1), [&]<typename A>(std::type_identity<A>) { ev.r = jl({(long)v.template contains<A>()}); });
        } else if(n == "mutate") {
            with(op.I(1), [&]<typename A>(std::type_identity<A>) { v.template get<A>() = mk<A>(op.I(2)); });
            moved[h] = false;
        } else if(n == "eq") {
#if EPOCH == 2026
            const bool b = (const V &)v == *s[op.I(1)];
            ev.r = jl({(long)b});
#else
            unknown();
#endif
        }
    }
};
World *make_world(long k) {
    switch(k) {
    case 0:
        return new VarWorld<int, ns::CString, Obj, Thrower, Wide>;
    case 1:
        return new VarWorld<Alt<0>, Alt<1>, Alt<2>, Alt<3>, Alt<4>, Alt<5>, Alt<6>, Alt<7>, Alt<8>, Alt<9>, Alt<10>, Alt<11>, Alt<12>, Alt<13>,
                            Alt<14>, Alt<15>, Alt<16>, Alt<17>, Alt<18>, Alt<19>, Alt<20>, Alt<21>, Alt<22>, Alt<23>, Alt<24>, Alt<25>, Alt<26>,
                            Alt<27>, Alt<28>, Alt<29>>;
    case 2:
        return new VarWorld<Obj>;
    default:
        return new VarWorld<char, ns::U8String, long, double, unsigned char, ns::Vector<int>, Wide>;
    }
}
int main(int argc, char **argv) { return drv_main(argc, argv); }
