#include "drv.hpp"

struct StrWorld : World {
    typedef ns::CString V;
    alignas(V) char mem[2][sizeof(V)];
    V &v(long i) { return *(V *)mem[i]; }
    StrWorld() {
        new(mem[0]) V();
        new(mem[1]) V();
    }
    ~StrWorld() {
        v(0).~V();
        v(1).~V();
    }
    // A heap copy without any slack, so reads past the argument are seen.
    struct Exact {
        char *p;
        size_t n;
        Exact(const std::string &s, bool term) : n{s.size()} {
            p = (char *)malloc(n + (term ? 1 : 0) ? n + (term ? 1 : 0) : 1);
            memcpy(p, s.data(), n);
            if(term) {
                p[n] = 0;
            }
        }
        ~Exact() { free(p); }
    };
    // The earlier edition leaves a moved-from string without its terminator.
    void fresh(long i) {
        if(EPOCH == 2025 && !probing) {
            v(i).~V();
            new(mem[i]) V();
        }
    }
    // Its comparison goes on after the order is decided.
    static bool order_undefined(const V &a, const V &b) {
        const size_t m = a.size() < b.size() ? a.size() : b.size();
        return memcmp(a.data(), b.data(), m) != 0 || a.c_str()[m] < 0 || b.c_str()[m] < 0;
    }
    static std::string one(const V &x) {
        return jb(x.data(), x.size()) + "," +
               jl({(long)x.length(), (long)strlen(x.c_str()), x.is_empty()});
    }
    std::string proj() override { return "[" + one(v(0)) + "," + one(v(1)) + "]"; }
    void exec(const Op &op, Ev &ev) override {
        const auto &n = op.n;
        V &c = v(op.I(0));
        const V &cc = c;
        if(n == "push" || n == "plusc") {
            UNDEFINED_2025(op.I(1) == 0);
        } else if(n == "appendn" || n == "appendr") {
            UNDEFINED_2025(op.S(1).find('\0') != std::string::npos);
        } else if(n == "appendself") {
            UNDEFINED_2025(true);
        } else if(n == "insself") {
            UNDEFINED_2025(op.Z(3) > c.size());
        } else if(n == "insert") {
            UNDEFINED_2025(op.Z(1) > c.size() || op.S(2).find('\0') != std::string::npos);
        } else if(n == "remove") {
            UNDEFINED_2025(op.Z(2) > c.size() && op.Z(1) < op.Z(2));
        } else if(n == "substr") {
            UNDEFINED_2025(op.Z(1) > c.size() || (op.I(2) != -1 && op.Z(2) > c.size() - op.Z(1)));
        } else if(n == "resize" || n == "clear") {
            UNDEFINED_2025(true);
        } else if(n == "get") {
            UNDEFINED_2025(op.Z(1) > c.size());
        } else if(n == "cmp") {
            UNDEFINED_2025(order_undefined(c, v(op.I(1))));
        } else if(n == "find") {
            const std::string h(c.data(), c.size());
            UNDEFINED_2025(h.size() >= op.S(1).size() && h.find(op.S(1)) == h.size() - op.S(1).size());
        } else if(n == "rfind") {
            UNDEFINED_2025(op.I(1) == 0);
        }
        if(n == "append1") {
            c.append((char)op.I(1));
        } else if(n == "push") {
            c.push_back((char)op.I(1));
        } else if(n == "plusc") {
            c += (char)op.I(1);
        } else if(n == "appendn") {
            Exact t(op.S(1), false);
            c.append(t.p, t.n);
        } else if(n == "appendr") {
            Exact t(op.S(1), false);
            c.append((const char *)t.p, (const char *)t.p + t.n);
        } else if(n == "appendv") {
            Exact t(op.S(1), false);
            c += V(ns::CStringView(t.p, t.n));
        } else if(n == "appendz") {
            Exact t(op.S(1), true);
            c.append(t.p);
        } else if(n == "plusz") {
            Exact t(op.S(1), true);
            c += (const char *)t.p;
        } else if(n == "pluss") {
            c += v(op.I(1));
        } else if(n == "appendself") {
            if(op.I(1) >= 0 && op.Z(1) <= op.Z(2) && op.Z(2) <= c.size()) {
                c.append(cc.c_str() + op.Z(1), op.Z(2) - op.Z(1));
            }
        } else if(n == "plusself") {
            if(op.Z(1) <= c.size()) {
                c += cc.c_str() + op.Z(1);
            }
        } else if(n == "setself") {
            if(op.Z(1) <= c.size()) {
                c = cc.c_str() + op.Z(1);
            }
        } else if(n == "insself") {
            if(op.I(1) >= 0 && op.Z(1) <= op.Z(2) && op.Z(2) <= c.size()) {
                c.insert(op.Z(3), ns::CStringView(cc.c_str() + op.Z(1), op.Z(2) - op.Z(1)));
            }
        } else if(n == "fill") {
            for(long i = 1; i <= op.I(1); ++i) {
                c.append((char)(1 + ((i * 7 + op.I(2)) % 255)));
            }
        } else if(n == "ctorn") {
            Exact t(op.S(1), false);
            V tmp(t.p, t.n);
            c = ns::move(tmp);
        } else if(n == "ctorv") {
            Exact t(op.S(1), false);
            V tmp{ns::CStringView(t.p, t.n)};
            c = ns::move(tmp);
        } else if(n == "ctorb") {
            Exact t(op.S(1), false);
            V tmp{ns::Bytes(t.p, t.n)};
            c = ns::move(tmp);
        } else if(n == "ctorz") {
            Exact t(op.S(1), true);
            V tmp(t.p);
            c = ns::move(tmp);
        } else if(n == "setz") {
            Exact t(op.S(1), true);
            c = (const char *)t.p;
        } else if(n == "insert") {
            Exact t(op.S(2), false);
            c.insert(op.Z(1), ns::CStringView(t.p, t.n));
        } else if(n == "remove") {
            c.remove(op.Z(1), op.Z(2));
        } else if(n == "substr") {
            const V t = op.I(2) == -1 ? c.substr(op.Z(1)) : c.substr(op.Z(1), op.Z(2));
            if(strlen(t.c_str()) != t.size()) {
                ev.r = "[-1]";
            } else {
                ev.r = jb(t.data(), t.size());
            }
        } else if(n == "pop") {
            c.pop_back();
        } else if(n == "resize") {
            const auto k = c.size();
            c.resize(op.Z(1));
            for(size_t i = k; i < op.Z(1); ++i) {
                c.mutable_data()[i] = (char)238;
            }
        } else if(n == "reserve") {
            c.reserve(op.Z(1));
        } else if(n == "clear") {
            c.clear();
        } else if(n == "strip") {
            c.strip();
        } else if(n == "copy") {
#if EPOCH == 2025
            unknown(); // declared but not defined
#else
            c = (const V &)v(op.I(1));
#endif
        } else if(n == "copyctor") {
            if(op.I(0) != op.I(1)) {
                c.~V();
                new(mem[op.I(0)]) V((const V &)v(op.I(1)));
            }
        } else if(n == "move") {
            c = ns::move(v(op.I(1)));
            if(op.I(0) != op.I(1)) {
                fresh(op.I(1));
            }
        } else if(n == "movector") {
            c.~V();
            new(mem[op.I(0)]) V(ns::move(v(op.I(1))));
            fresh(op.I(1));
        } else if(n == "get") {
            ev.r = jl({(long)(unsigned char)cc[op.Z(1)]});
        } else if(n == "front") {
            ev.r = jl({(long)(unsigned char)cc.front()});
        } else if(n == "back") {
            ev.r = jl({(long)(unsigned char)cc.back()});
        } else if(n == "cmp") {
            const V &d = v(op.I(1));
#if EPOCH == 2025
            const bool less = cc < d, more = d < cc;
            ev.r = jl({cc == d, less ? -1 : more, cc == d.c_str(), cc == d.view(), less, more});
#else
            const int k = cc <=> d;
            ev.r = jl({cc == d, k < 0 ? -1 : k > 0, cc == d.c_str(), cc == d.view(), cc < d, cc > d});
#endif
        } else if(n == "eqz") {
            Exact t(op.S(1), true);
            ev.r = jl({cc == (const char *)t.p});
        } else if(n == "eqv") {
            Exact t(op.S(1), false);
            ev.r = jl({cc == ns::CStringView(t.p, t.n)});
        } else if(n == "find") {
            Exact t(op.S(1), false);
            ev.r = jl({(long)cc.find(ns::CStringView(t.p, t.n))});
        } else if(n == "rfind") {
            UNDEFINED_2025(op.I(1) == 0);
            ev.r = jl({(long)cc.rfind((char)op.I(1))});
        } else if(n == "view") {
            auto w = cc.view();
            const ns::CStringView x(cc);
            ev.r = w.data() == x.data() && w.size() == x.size() && c.mutable_data() == x.data() ? jb(w.data(), w.size()) : "[-7]";
        } else if(n == "upper" || n == "lower") {
#if EPOCH == 2026
            const V t = n == "upper" ? cc.upper() : cc.lower();
            ev.r = strlen(t.c_str()) == t.size() ? jb(t.data(), t.size()) : "[-7]";
#else
            unknown();
#endif
        } else if(n == "zview") {
#if EPOCH == 2025
            unknown();
#else
            auto w = cc.zview();
            ev.r = w.size() > 100000 ? "[-1]" : jb(w.c_str(), w.size());
#endif
        } else {
            unknown();
        }
    }
};

World *make_world(long) { return new StrWorld(); }
int main(int argc, char **argv) { return drv_main(argc, argv); }
