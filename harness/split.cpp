#include "drv.hpp"
#include "exact.hpp"

struct Cb {
    std::vector<std::string> out;
    long stop;
};
static bool on_piece(const ns::CStringView &p, void *ctx) {
    auto *c = (Cb *)ctx;
    c->out.push_back(jb(p.data(), p.size()));
    return (long)c->out.size() != c->stop;
}
static bool on_u8(const ns::U8StringView &p, void *ctx) {
    auto *c = (Cb *)ctx;
    c->out.push_back(jb(p.raw_view().data(), p.raw_view().size()));
    return (long)c->out.size() != c->stop;
}
static uint32_t sep_cp;
static bool is_sep(uint32_t c) { return c == sep_cp; }

struct SplitWorld : World {
    void exec(const Op &op, Ev &ev) override {
        const auto &n = op.n;
        Exact t(op.S(0), false);
        Cb cb;
        cb.stop = -1;
        if(n == "wsv") {
            size_t b = op.Z(1), e = op.Z(2);
            if(e > t.n || b > e) {
                // The generator ranges over all windows.
                b = e = 0;
            }
            cb.stop = op.I(3);
            const ns::CStringView v(t.p + b, e - b);
#if EPOCH == 2025
            const ns::CString c(v);
            c.split(on_piece, &cb);
#else
            v.split(on_piece, &cb);
#endif
            ev.r = jj(cb.out);
        } else if(n == "u8cls") {
            size_t b = op.Z(1), e = op.Z(2);
            if(b > e) {
                b = e;
            }
#if EPOCH == 2026
            ns::U8StringView v(t.p + b, e - b);
            auto c = v.split_ascii();
            while(true) {
                auto p = c.next();
                if(!p) {
                    break;
                }
                cb.out.push_back(jb(p->data(), p->size_bytes()));
            }
            for(int i = 0; i < 2; ++i) {
                if(c.next()) {
                    cb.out.push_back("[-1]");
                }
            }
#else
            unknown();
#endif
            ev.r = jj(cb.out);
        } else if(n == "join") {
            ns::Vector<ns::U8String> v;
            std::string cur;
            for(auto x : op.L(1)) {
                if(x == 0) {
                    v.push_back(ns::U8String(cur.c_str(), cur.size()));
                    cur.clear();
                } else {
                    cur.push_back((char)x);
                }
            }
            const ns::U8String s(t.p, t.n);
            const auto r = s.join(v);
            ev.r = jb(r.c_str(), r.size_bytes());
        } else if(n == "u8ws" || n == "u8by" || n == "rejoin") {
            const ns::U8String s(t.p, t.n);
            if(n == "u8ws") {
                const auto v = s.split_ascii();
                for(const auto &p : v) {
                    cb.out.push_back(jb(p.c_str(), p.size_bytes()));
                }
                ev.r = jj(cb.out);
            } else if(n == "u8by") {
                sep_cp = op.I(1);
                cb.stop = op.I(2);
                s.split(on_u8, is_sep, &cb);
                ev.r = jj(cb.out);
            } else {
                const ns::CString c(t.p, t.n);
                ns::Vector<ns::U8String> v;
                for(const auto &p : c.split_by((char)op.I(1))) {
                    v.push_back(ns::U8String(p.c_str(), p.size()));
                }
                const char z[2] = {(char)op.I(1), 0};
                const auto r = ns::U8String(z).join(v);
                ev.r = jb(r.c_str(), r.size_bytes());
            }
        } else {
            ns::CString c(t.p, t.n);
            if(n == "ws" || n == "by") {
                const auto v = n == "ws" ? c.split() : c.split_by((char)op.I(1));
                for(const auto &p : v) {
                    cb.out.push_back(strlen(p.c_str()) == p.size() ? jb(p.c_str(), p.size()) : "[-1]");
                }
                ev.r = jj(cb.out);
            } else if(n == "wscb") {
                cb.stop = op.I(1);
                c.split(on_piece, &cb);
                ev.r = jj(cb.out);
            } else if(n == "bycb") {
                cb.stop = op.I(2);
                c.split_by((char)op.I(1), on_piece, &cb);
                ev.r = jj(cb.out);
            } else if(n == "strip") {
                c.strip();
                ev.r = strlen(c.c_str()) == c.size() ? jb(c.c_str(), c.size()) : "[-1]";
            } else {
                unknown();
            }
        }
    }
};

World *make_world(long) { return new SplitWorld(); }
int main(int argc, char **argv) { return drv_main(argc, argv); }
