#include "drv.hpp"
#include "exact.hpp"

typedef ns::CStringView V;

struct ViewWorld : World {
    void exec(const Op &op, Ev &ev) override {
        const auto &n = op.n;
        if(n[0] == 'z') {
#if EPOCH == 2026
            Exact t(op.S(0), true);
            ns::ZStringView z(t.p + (n == "zsize" ? op.Z(1) : 0));
            if(n == "zsize") {
                if(z.size() > t.n) {
                    ev.r = "[-1]";
                } else {
                    const std::string s(z.c_str(), z.size());
                    std::vector<long> r{(long)z.size()};
                    for(char c : s) {
                        r.push_back((unsigned char)c);
                    }
                    ev.r = jl(r);
                }
            } else if(n == "zsub") {
                auto y = z.subview(op.Z(1));
                ev.r = jb(y.c_str(), y.size());
            } else {
                Exact u(op.S(3), true);
                ev.r = jl({z == (const char *)u.p, z == ns::ZStringView(u.p)});
            }
#else
            unknown();
#endif
            return;
        }
        if(n == "null") {
            UNDEFINED_2025(true);
            V v;
            V e("");
#if EPOCH == 2026
            ns::ZStringView z;
            const bool zq = z == "" && z == ns::ZStringView("") && !(z == "a") &&
                            ns::ZStringView((const char *)nullptr) == z && ns::ZStringView((const char *)nullptr, 5).size() == 0;
#else
            const bool zq = true;
#endif
            ev.r = jl({(long)v.size(), v.is_empty(), v.begin() != v.end(), v == e, v == "", v.starts_with(""), v.starts_with(e),
                       (long)v.find('a'), zq, !(v < e) && !(e < v) && !v.overlaps(e)});
            return;
        }
        Exact t(op.S(0), false);
        const size_t b = op.Z(1), e = op.Z(2);
        if(n == "range") {
            const V v((const char *)t.p + b, (const char *)t.p + e);
            ev.r = jb(v.data(), v.size());
            return;
        }
        const V v(t.p + b, e - b);
        const std::string vs(t.p + b, e - b);
        const std::string us = op.a.size() > 3 && op.a[3].list ? op.S(3) : "";
        if(n == "startsv") {
            UNDEFINED_2025(us.size() < vs.size() && vs.compare(0, us.size(), us) == 0);
        } else if(n == "findv") {
            UNDEFINED_2025(vs.size() >= us.size() && vs.find(us) == vs.size() - us.size());
        } else if(n == "less") {
            const size_t m = vs.size() < us.size() ? vs.size() : us.size();
            size_t k = 0;
            while(k < m && vs[k] == us[k] && vs[k]) {
                ++k;
            }
            UNDEFINED_2025(k < m && vs[k] == us[k]);
        } else if(n == "nat") {
            UNDEFINED_2025(true);
        } else if(n == "substr") {
            UNDEFINED_2025(op.I(4) != -1 && op.Z(3) + op.Z(4) < op.Z(3));
        } else if(n == "front") {
            UNDEFINED_2025(vs.empty());
        } else if(n == "idx" || n == "at") {
            UNDEFINED_2025(op.Z(3) == vs.size());
        } else if(n == "overlaps") {
            UNDEFINED_2025(op.Z(3) == e || op.Z(4) == b || op.Z(3) == op.Z(4) || b == e);
        } else if(n == "upper" || n == "lower") {
            UNDEFINED_2025(vs.find('\0') != std::string::npos);
        }
        if(n == "text") {
            bool same = true;
#if EPOCH == 2026
            for(size_t i = 0; i < v.size(); ++i) {
                same = same && v.unsafe_at(i) == vs[i];
            }
            const V w(ns::Span<const char>(t.p + b, e - b));
            same = same && w.data() == v.data() && w.size() == v.size();
#endif
            ev.r = same ? jb(v.data(), v.size()) : "[-7]";
        } else if(n == "size") {
            ev.r = jl({(long)v.size(), v.is_empty()});
        } else if(n == "eqz" || n == "startsz") {
            Exact u(op.S(3), true);
            ev.r = jl({n == "eqz" ? v == (const char *)u.p : v.starts_with((const char *)u.p)});
        } else if(n == "eqv" || n == "startsv" || n == "findv" || n == "less" || n == "nat") {
            Exact u(op.S(3), false);
            const V w(u.p, u.n);
            if(n == "eqv") {
                ev.r = jl({v == w});
            } else if(n == "startsv") {
                ev.r = jl({v.starts_with(w)});
            } else if(n == "findv") {
                ev.r = jl({(long)v.find(w)});
            } else if(n == "less") {
                ev.r = jl({v < w, w < v});
#if EPOCH == 2026
            } else if(n == "nat") {
                const int p = v.natural_order(w), q = w.natural_order(v);
                ev.r = jl({p < 0 ? -1 : p > 0, q < 0 ? -1 : q > 0});
#endif
            }
        } else if(n == "findc") {
            ev.r = jl({(long)v.find((char)op.I(3))});
        } else if(n == "substr") {
            const V w = op.I(4) == -1 ? v.substr(op.Z(3)) : v.substr(op.Z(3), op.Z(4));
            if(w.data() < v.data() || w.size() > v.size() || w.data() + w.size() > v.data() + v.size()) {
                ev.r = "[-1]";
            } else {
                std::vector<long> r{w.data() - v.data()};
                for(char c : w) {
                    r.push_back((unsigned char)c);
                }
                ev.r = jl(r);
            }
        } else if(n == "front") {
            ev.r = jl({(long)(unsigned char)v.front()});
        } else if(n == "idx") {
            ev.r = jl({(long)(unsigned char)v[op.Z(3)]});
        } else if(n == "at") {
            ev.r = jl({(long)(unsigned char)v.at(op.Z(3))});
        } else if(n == "overlaps") {
            V w(t.p + op.Z(3), op.Z(4) - op.Z(3));
            ev.r = jl({v.overlaps(w)});
        } else if(n == "iter") {
            std::string s;
            for(char c : v) {
                s += c;
            }
            ev.r = jb(s);
        } else if(n == "upper" || n == "lower") {
            const ns::CString c = n == "upper" ? v.upper() : v.lower();
            ev.r = strlen(c.c_str()) == c.size() ? jb(c.c_str(), c.size()) : "[-1]";
        } else if(n == "tocstr") {
            const ns::CString c{v};
            ev.r = strlen(c.c_str()) == c.size() ? jb(c.c_str(), c.size()) : "[-1]";
        } else {
            unknown();
        }
    }
};

World *make_world(long) { return new ViewWorld(); }
int main(int argc, char **argv) { return drv_main(argc, argv); }
