#include "drv.hpp"
#include "exact.hpp"

typedef ns::U8String V;
typedef ns::U8StringView W;
#if EPOCH == 2026
typedef ns::ValidU8Iterator It;
#else
typedef ns::ValidatedU8Iterator It;
#endif

// The earlier edition takes overlong forms, surrogates and values beyond the last code point for valid.
static bool dubious(const std::string &s) {
    for(size_t i = 0; i < s.size(); ++i) {
        const unsigned char c = s[i], d = i + 1 < s.size() ? s[i + 1] : 0;
        if(c == 0xC0 || c == 0xC1 || (c >= 0xF5 && c <= 0xF7) || (c == 0xE0 && d < 0xA0) || (c == 0xED && d > 0x9F) ||
           (c == 0xF0 && d < 0x90) || (c == 0xF4 && d > 0x8F)) {
            return true;
        }
    }
    return false;
}
static bool ascii(const std::string &s) {
    for(unsigned char c : s) {
        if(c > 127) {
            return false;
        }
    }
    return true;
}
#if EPOCH == 2025
// Views are a pair of iterators.
static W make_view(const It &a, const It &b) { return W{a, b}; }
static bool same(const W &a, const W &b) { return a.raw_view() == b.raw_view(); }
#else
static W make_view(const It &a, const It &b) { return W(a, b); }
static bool same(const W &a, const W &b) { return a == b; }
#endif

struct UWorld : World {
    // The earlier edition leaves a moved-from string without its terminator.
    void fresh(long i) {
        if(EPOCH == 2025 && !probing) {
            v(i).~V();
            new(mem[i]) V();
        }
    }
    alignas(V) char mem[2][sizeof(V)];
    V &v(long i) { return *(V *)mem[i]; }
    UWorld() {
        new(mem[0]) V();
        new(mem[1]) V();
    }
    ~UWorld() {
        v(0).~V();
        v(1).~V();
    }
    static std::string one(const V &x) {
        const size_t n = x.size_bytes();
        std::vector<long> f, r;
        size_t guard = 0;
        for(It it = x.cbegin(); it != x.cend(); ++it) {
            const uint32_t cp = *it;
            f.push_back((const char *)pos(it) - x.c_str());
            f.push_back(cp);
            if(++guard > n) {
                f.push_back(-7);
                break;
            }
        }
        guard = 0;
        auto e = x.crend();
        for(auto it = x.crbegin(); it != e; ++it) {
            r.push_back((long)*it);
            if(++guard > n) {
                r.push_back(-7);
                break;
            }
        }
#if EPOCH == 2026
        guard = 0;
        for(auto it = x.crbegin(); it != e; ++guard) {
            auto old = it++;
            if(guard >= r.size() || (long)*old != r[guard]) {
                r.push_back(-8);
                break;
            }
        }
#endif
        return "[" + jb(x.c_str(), n) + "," + jl({(long)n, (long)strlen(x.c_str()), x.is_empty()}) + "," + jl(f) + "," + jl(r) + "]";
    }
    static const char *pos(const It &it) {
#if EPOCH == 2026
        return it.data();
#else
        // No accessor in this edition; the position is the iterator's only pointer.
        const char *p;
        memcpy(&p, &it, sizeof(p));
        return p;
#endif
    }
    std::string proj() override { return "[" + one(v(0)) + "," + one(v(1)) + "]"; }
    size_t count(const V &c) {
        size_t m = 0;
        for(const char *p = c.c_str(); *p; ++p) {
            m += ((unsigned char)*p & 0xC0) != 0x80;
        }
        return m;
    }
    It at(const V &c, size_t k) {
        auto it = c.cbegin();
        while(k--) {
            ++it;
        }
        return it;
    }
    void exec(const Op &op, Ev &ev) override {
        const auto &n = op.n;
        V &c = v(op.I(0));
        const V &d = v(1 - op.I(0));
        const size_t m = count(c);
        auto I = [&](size_t k) { return (size_t)op.I(k) % (m + 1); };
        auto J = [&](size_t i, size_t k) { return i + (size_t)op.I(k) % (m - i + 1); };
        auto view = [&](size_t ki, size_t kj) {
            const size_t i = I(ki), j = J(i, kj);
            return make_view(at(c, i), at(c, j));
        };
        if(n.starts_with("ctor") || n == "setv") {
            UNDEFINED_2025(dubious(op.S(1)));
        } else if(n == "ins") {
            UNDEFINED_2025(dubious(op.S(2)));
        } else if(n == "setself") {
            UNDEFINED_2025(I(1) == J(I(1), 2));
        } else if(n == "cp") {
            UNDEFINED_2025(op.I(1) == 0 || (op.I(1) >= 0xD800 && op.I(1) <= 0xDFFF));
        } else if(n == "substr") {
            UNDEFINED_2025(op.Z(1) > c.size_bytes() || (op.I(2) != -1 && op.Z(2) > c.size_bytes() - op.Z(1)));
        } else if(n == "cmp") {
            const size_t k = c.size_bytes() < d.size_bytes() ? c.size_bytes() : d.size_bytes();
            UNDEFINED_2025(memcmp(c.c_str(), d.c_str(), k) != 0 || c.c_str()[k] < 0 || d.c_str()[k] < 0);
        } else if(n == "eqz") {
            UNDEFINED_2025(!ascii(c.c_str()));
        } else if(n == "cut") {
            UNDEFINED_2025(I(1) >= I(2));
        } else if(n == "has") {
            const size_t i = I(1), j = J(i, 2), k = I(3), l = J(k, 4);
            UNDEFINED_2025(i == j || k == l || i == l || k == j);
        } else if(n == "exc") {
            UNDEFINED_2025(!ascii(op.S(1)));
        }
        if(n == "ctorn") {
            Exact t(op.S(1), false);
            V tmp(t.p, t.n);
            c = ns::move(tmp);
#if EPOCH == 2025
        } else if(n == "ctorv" || n == "setv" || n == "ctorvz") {
            Exact t(op.S(1), n == "ctorvz");
            const V src(t.p, n == "ctorvz" ? (size_t)-1 : t.n);
            UNDEFINED_2025(src.is_empty());
            const W w = src.view();
            V tmp(w);
            c = ns::move(tmp);
        } else if(n == "setself") {
            V tmp(view(1, 2));
            c = ns::move(tmp);
        } else if(n == "ins") {
            Exact t(op.S(2), false);
            const V src(t.p, t.n);
            c.insert(at(c, I(1)), src.view());
#endif
        } else if(n == "ctorb") {
            Exact t(op.S(1), false);
            V tmp(ns::Bytes(t.p, t.n));
            c = ns::move(tmp);
#if EPOCH == 2026
        } else if(n == "ctorv") {
            Exact t(op.S(1), false);
            const W w(t.p, t.n);
            V tmp(w);
            c = ns::move(tmp);
        } else if(n == "setv") {
            Exact t(op.S(1), false);
            c = W(t.p, t.n);
#endif
        } else if(n == "ctorz") {
            Exact t(op.S(1), true);
            V tmp((const char *)t.p);
            c = ns::move(tmp);
#if EPOCH == 2026
        } else if(n == "ctorvz") {
            Exact t(op.S(1), true);
            const W w(t.p, (size_t)-1);
            V tmp(w);
            c = ns::move(tmp);
        } else if(n == "setself") {
            c = view(1, 2);
#endif
        } else if(n == "pluss") {
            c += v(op.I(1));
        } else if(n == "cp") {
            c.append_codepoint((uint32_t)op.I(1));
#if EPOCH == 2026
        } else if(n == "ins") {
            Exact t(op.S(2), false);
            c.insert(at(c, I(1)), W(t.p, t.n));
#endif
        } else if(n == "insself") {
            c.insert(at(c, I(1)), view(2, 3));
        } else if(n == "rem") {
            c.remove(view(1, 2));
        } else if(n == "remother") {
            c.remove(d.view());
        } else if(n == "popf") {
            c.pop_front();
        } else if(n == "popb") {
            c.pop_back();
        } else if(n == "substr") {
            const V t = c.substr(op.Z(1), op.Z(2));
            ev.r = strlen(t.c_str()) == t.size_bytes() ? jb(t.c_str(), t.size_bytes()) : "[-1]";
        } else if(n == "copy") {
            c = (const V &)v(op.I(1));
        } else if(n == "copyctor") {
            if(op.I(0) != op.I(1)) {
                c.~V();
                new(mem[op.I(0)]) V((const V &)v(op.I(1)));
            }
        } else if(n == "move") {
            c = ns::move(v(op.I(1)));
            if(op.I(0) != op.I(1)) {
                fresh(op.I(1));
            }
        } else if(n == "movector") {
            c.~V();
            new(mem[op.I(0)]) V(ns::move(v(op.I(1))));
            fresh(op.I(1));
        } else if(n == "reserve") {
            c.reserve(op.Z(1));
        } else if(n == "cmp") {
#if EPOCH == 2026
            const int k = c <=> d;
            ev.r = jl({c == d, k < 0 ? -1 : k > 0, c.view() == d.view(), c == d.c_str()});
#else
            ev.r = jl({c == d, c < d ? -1 : d < c ? 1 : 0, same(c.view(), d.view()), c == d.c_str()});
#endif
        } else if(n == "eqz") {
            Exact t(op.S(1), true);
            ev.r = jl({c == (const char *)t.p, c.view() == (const char *)t.p});
        } else if(n == "walk") {
            It it = c.cbegin();
            std::vector<long> r;
            for(long w : op.L(1)) {
                if(w == 1) {
                    if(it != c.cend()) {
                        ++it;
                    }
                } else if(w == 3) {
                    if(it != c.cend()) {
                        It before(it);
                        It old = it++;
                        if(old != before || *old != *before) {
                            r.push_back(-9);
                        }
                    }
                } else if(it != c.cbegin()) {
                    --it;
                }
                r.push_back(pos(it) - c.c_str());
                r.push_back(it == c.cend() ? -1 : (long)*it);
            }
            ev.r = jl(r);
        } else if(n == "cut") {
#if EPOCH == 2026
            W w;
            if(w.size_bytes() != 0 || w.cbegin() != w.cend()) {
                ev.r = "[-7]";
                return;
            }
            w = make_view(at(c, I(1)), at(c, I(2)));
            if(w.cbegin() != w.begin() || w.cend() != w.end()) {
                ev.r = "[-8]";
                return;
            }
#else
            const W w = make_view(at(c, I(1)), at(c, I(2)));
#endif
            std::string s;
#if EPOCH == 2025
            for(auto it = w.start; it != w.end; ++it) {
#else
            for(auto it = w.begin(); it != w.end(); ++it) {
#endif
                V one;
                one.append_codepoint(*it);
                s += std::string(one.c_str(), one.size_bytes());
            }
            const auto raw = w.raw_view();
            if(s != std::string(raw.data(), raw.size())) {
                ev.r = "[-1]";
            } else {
                const V t(w);
                ev.r = jb(t.c_str(), t.size_bytes());
            }
        } else if(n == "has") {
            const W a = view(1, 2), b = view(3, 4);
            ev.r = jl({c.contains(a), c.contains(d.view()), c.overlaps(a), a.overlaps(b), same(a, b)});
        } else if(n == "exc") {
            Exact t(op.S(1), true);
            ns::PyException e((const char *)t.p);
            ev.r = jb(e.what().c_str(), e.what().size_bytes());
        } else {
            unknown();
        }
    }
};

// Stateless blocks: many inputs per event.
struct BlockWorld : World {
    static bool accepts(const std::string &s) {
        Exact t(s, false);
        bool asview = true, asstr = true, asbytes = true;
#if EPOCH == 2026
        try {
            W w(t.p, t.n);
        } catch(const ns::PyException &) {
            asview = false;
        }
#endif
        try {
            V w(t.p, t.n);
        } catch(const ns::PyException &) {
            asstr = false;
        }
        try {
            V w(ns::Bytes(t.p, t.n));
        } catch(const ns::PyException &) {
            asbytes = false;
        }
        const bool nul = s.find('\0') != std::string::npos;
        if(EPOCH == 2025) {
            asview = asstr;
        }
        if(asstr != (asview && !nul) || asbytes != asstr) {
            bad = true;
        }
        return asview;
    }
    static inline bool bad;
    static void put(std::vector<long> &r, const V &s) {
        size_t g = 0;
        for(auto it = s.cbegin(); it != s.cend() && g < 8; ++it, ++g) {
            r.push_back(*it);
        }
        r.push_back(0);
    }
    void exec(const Op &op, Ev &ev) override {
        const auto &n = op.n;
        std::vector<long> r;
        if(n == "acclax") { // the same, without zero bytes (the earlier edition)
            bad = false;
            const std::string both = op.S(0) + op.S(1);
            if(both.find('\0') != std::string::npos) {
                unknown();
            }
            for(int b = 1; b < 256; ++b) {
                if(accepts(op.S(0) + (char)b + op.S(1))) {
                    r.push_back(b);
                }
            }
            if(bad) {
                r.push_back(-1);
            }
        } else if(n == "acc") { // prefix bytes a[0]; which last bytes are accepted, with suffix a[1]
            bad = false;
            for(int b = 0; b < 256; ++b) {
                if(accepts(op.S(0) + (char)b + op.S(1))) {
                    r.push_back(b);
                }
            }
            if(bad) {
                r.push_back(-1);
            }
        } else if(n == "enc") { // 256 code points: encodings
            for(uint32_t cp = op.I(0); cp < op.I(0) + 256; ++cp) {
                V s;
                if(EPOCH == 2025 && !probing && (cp == 0 || (cp >= 0xD800 && cp < 0xE000))) {
                    r.push_back(0); // undefined in the earlier edition, not looked at
                    continue;
                }
                try {
                    s.append_codepoint(cp);
                } catch(const ns::PyException &) {
                    if(!s.is_empty()) {
                        r.push_back(-2);
                    }
                    r.push_back(0);
                    continue;
                }
                for(size_t i = 0; i < s.size_bytes(); ++i) {
                    r.push_back((unsigned char)s.c_str()[i]);
                }
                auto it = s.cbegin();
                auto rit = s.crbegin();
                if(s.is_empty() || *it != cp || ++it != s.cend() || *rit != cp || ++rit != s.crend()) {
                    r.push_back(-3);
                }
                r.push_back(0);
            }
        } else if(n == "case") {
            for(uint32_t cp = op.I(0); cp < op.I(0) + 256; ++cp) {
                if(cp == 0 || (cp >= 0xD800 && cp < 0xE000) || cp > 0x10FFFF) {
                    continue;
                }
                V s;
                s.append_codepoint(cp);
                put(r, s.upper());
                put(r, s.lower());
            }
        } else if(n == "casestr") {
            Exact t(op.S(0), false);
            const V s(t.p, t.n);
            const V u = s.upper(), l = s.lower(), u2 = s.view().upper(), l2 = s.view().lower();
            if(!(u == u2) || !(l == l2) || !(s == V(t.p, t.n))) {
                r.push_back(-1);
            }
            for(const V *x : {&u, &l}) {
                for(size_t i = 0; i < x->size_bytes(); ++i) {
                    r.push_back((unsigned char)x->c_str()[i]);
                }
                r.push_back(0);
            }
        } else {
            unknown();
        }
        ev.r = jl(r);
    }
};

World *make_world(long k) {
    if(k == 1) {
        return new BlockWorld();
    }
    return new UWorld();
}
int main(int argc, char **argv) { return drv_main(argc, argv); }
