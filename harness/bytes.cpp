#include "drv.hpp"

struct BytesWorld : World {
    typedef ns::Bytes V;
    alignas(V) char mem[2][sizeof(V)];
    V &v(long i) { return *(V *)mem[i]; }
    BytesWorld() {
        new(mem[0]) V();
        new(mem[1]) V();
    }
    ~BytesWorld() {
        v(0).~V();
        v(1).~V();
    }
    static std::string list(const V &x) { return jb(x.data(), x.size()); }
    std::string proj() override { return jj({list(v(0)), list(v(1))}); }
    void paint(V &c, size_t from) {
        for(size_t i = from; i < c.size(); ++i) {
            c.data()[i] = (char)238;
        }
    }
    void exec(const Op &op, Ev &ev) override {
        const auto &n = op.n;
        V &c = v(op.I(0));
        const V &cc = c;
        if(n == "push") {
            c.push_back((char)op.I(1));
        } else if(n == "append1") {
            c.append((char)op.I(1));
        } else if(n == "append") {
            const auto t = op.S(1);
            std::vector<char> exact(t.begin(), t.end());
            c.append(exact.data(), exact.data() + exact.size());
        } else if(n == "appendself") {
            UNDEFINED_2025(op.Z(2) - op.Z(1) + c.size() >= c.capacity());
            if(op.I(1) >= 0 && op.Z(1) <= op.Z(2) && op.Z(2) <= c.size() && c.size() > 0) {
                c.append(cc.begin() + op.Z(1), cc.begin() + op.Z(2));
            }
        } else if(n == "assignself") {
            UNDEFINED_2025(true);
            if(op.I(1) >= 0 && op.Z(1) <= op.Z(2) && op.Z(2) <= c.size() && c.size() > 0) {
                c.assign(cc.data() + op.Z(1), op.Z(2) - op.Z(1));
            }
        } else if(n == "pluseq") {
            c += v(op.I(1));
        } else if(n == "fill") {
            for(long i = 1; i <= op.I(1); ++i) {
                c.append((char)((i * 7 + op.I(2)) % 256));
            }
        } else if(n == "assign") {
            const auto t = op.S(1);
            std::vector<char> exact(t.begin(), t.end());
            c.assign(exact.data(), exact.size());
        } else if(n == "ctor") {
            const auto t = op.S(1);
            std::vector<char> exact(t.begin(), t.end());
            V tmp(exact.data(), exact.size());
            c = ns::move(tmp);
        } else if(n == "ctor2") {
            const auto t = op.S(1);
            std::vector<char> exact(t.begin(), t.end());
            V tmp((const char *)exact.data(), (const char *)exact.data() + exact.size());
            c = ns::move(tmp);
        } else if(n == "ctorfill") {
            V tmp(op.Z(1), (char)op.I(2));
            c = ns::move(tmp);
        } else if(n == "ctorsize") {
            V tmp(op.Z(1));
            c = ns::move(tmp);
        } else if(n == "insert") {
            const auto t = op.S(2);
            std::vector<char> exact(t.begin(), t.end());
            c.insert(op.Z(1), exact.data(), exact.size());
        } else if(n == "remove") {
            UNDEFINED_2025(op.Z(2) > c.size() && op.Z(1) < op.Z(2));
            c.remove(op.Z(1), op.Z(2));
        } else if(n == "popback") {
            c.pop_back(op.Z(1));
        } else if(n == "shrink") {
            c.shrink(op.Z(1));
        } else if(n == "popfront") {
            UNDEFINED_2025(op.Z(1) >= c.size());
            c.pop_front(op.Z(1));
        } else if(n == "extend") {
            const auto k = c.size();
            c.extend(op.Z(1));
            paint(c, k);
        } else if(n == "resize") {
            const auto k = c.size();
            if(op.I(1) % 2) {
                c.resize_to(op.Z(1));
            } else {
#if EPOCH == 2026
                c.resize(op.Z(1));
#else
                c.resize_to(op.Z(1));
#endif
            }
            paint(c, k);
        } else if(n == "reserve") {
#if EPOCH == 2026
            c.reserve(op.Z(1));
            ev.r = jl({c.capacity() >= c.size(), c.capacity() >= op.Z(1)});
#else
            ev.r = jl({1, 1});
#endif
        } else if(n == "clear") {
            c.clear();
        } else if(n == "copy") {
            c = (const V &)v(op.I(1));
        } else if(n == "copyctor") {
            if(op.I(0) != op.I(1)) {
                c.~V();
                new(mem[op.I(0)]) V((const V &)v(op.I(1)));
            }
        } else if(n == "move") {
            c = ns::move(v(op.I(1)));
        } else if(n == "movector") {
            c.~V();
            new(mem[op.I(0)]) V(ns::move(v(op.I(1))));
        } else if(n == "get") {
            UNDEFINED_2025(op.Z(1) >= c.size());
            const unsigned char b = cc[op.Z(1)];
#if EPOCH == 2026
            ev.r = jl({b == (unsigned char)cc.unsafe_at(op.Z(1)) ? b : -7});
#else
            ev.r = jl({b});
#endif
        } else if(n == "ctorrev") {
            // The end lies before the start.
            UNDEFINED_2025(true);
            if(c.size() > 0) {
                V tmp(cc.data() + c.size(), cc.data() + c.size() - 1);
            }
        } else if(n == "front") {
            ev.r = jl({(long)(unsigned char)cc.front()});
        } else if(n == "back") {
            UNDEFINED_2025(c.size() > 0 && c.size() != c.capacity());
            ev.r = jl({(long)(unsigned char)cc.back()});
        } else if(n == "size") {
            ev.r = jl({(long)cc.size(), cc.is_empty()});
        } else if(n == "iter") {
            ev.r = jb(std::string(cc.begin(), cc.end()));
        } else if(n == "span") {
#if EPOCH == 2026
            std::string r;
            auto sp = cc.span();
            for(size_t i = 0; i < sp.size(); ++i) {
                r.push_back(sp[i]);
            }
            auto w = c.span();
            ev.r = w.size() == sp.size() && (r.empty() || &w[0] == &sp[0]) ? jb(r) : "[-7]";
#else
            unknown();
#endif
        } else if(n == "cmp") {
            const V &d = v(op.I(1));
#if EPOCH == 2026
            const int k = cc <=> d;
            ev.r = jl({cc == d, cc < d, k < 0 ? -1 : k > 0});
#else
            // The order was decided by the first smaller byte, wherever it was.
            const size_t m = std::min(cc.size(), d.size());
            UNDEFINED_2025(memcmp(cc.data(), d.data(), m) != 0);
            ev.r = jl({cc == d, cc < d, cc < d ? -1 : d < cc});
#endif
        } else if(n == "within") {
            ev.r = jl({cc.is_ptr_within(cc.data() + op.I(1))});
        } else {
            unknown();
        }
    }
};

World *make_world(long) { return new BytesWorld(); }
int main(int argc, char **argv) { return drv_main(argc, argv); }
