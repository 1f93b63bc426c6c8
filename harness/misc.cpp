// Ranges and loop views, spans, formatting, clamping, float orders, hashing.
#include <cmath>
#include <cstdarg>
#include <limits>
#include "drv.hpp"
#include "obj.hpp"
#include "exact.hpp"
#if EPOCH == 2026
#include <pystd2026_heapsort.hpp>
#include <pystd2026_introsort.hpp>
#include <pystd2026_mergesort.hpp>
#include <pystd2026_shellsort.hpp>
#endif

static int64_t wide(long v) {
    if(v > 500000000) {
        return INT64_MAX - (1000000000 - v);
    }
    if(v < -500000000) {
        return INT64_MIN + (v + 1000000000);
    }
    return v;
}
static long narrow(int64_t v) {
    if(v > INT64_MAX - 500000000) {
        return 1000000000 - (INT64_MAX - v);
    }
    if(v < INT64_MIN + 500000000) {
        return -1000000000 + (v - INT64_MIN);
    }
    return v > 400000000 ? 400000001 : v < -400000000 ? -400000001 : (long)v;
}
static const long NANC = 999999999, INFC = 1000000000, NEGZ = 888888888;
// The codes keep the order of the numbers: the smallest ones, quarters, ten neighbours from 300000000 on, the largest.
static const long NEARC = 500000000, HUGEC = 600000000, ZONE = 10;
template<typename F> static F fl(long c) {
    if(c == NANC || c == NEGZ) {
        return c == NANC ? (F)NAN : -(F)0;
    }
    if(c < 0) {
        return -fl<F>(-c);
    }
    if(c == INFC) {
        return (F)INFINITY;
    }
    if(c < 3) {
        return std::numeric_limits<F>::denorm_min() * (F)c;
    }
    if(c == 3) {
        return std::numeric_limits<F>::min();
    }
    if(c < NEARC) {
        return (F)c / 4;
    }
    F f = c < HUGEC ? (F)300000000 : std::numeric_limits<F>::max();
    for(long k = c < HUGEC ? c - NEARC : HUGEC + ZONE - c; k > 0; --k) {
        f = std::nextafter(f, c < HUGEC ? (F)INFINITY : (F)0);
    }
    return f;
}
template<typename F> static long code(F f) {
    if(std::isnan(f)) {
        return NANC;
    }
    if(f == 0) {
        return std::signbit(f) ? NEGZ : 0;
    }
    if(f < 0) {
        return -code<F>(-f);
    }
    if(std::isinf(f)) {
        return INFC;
    }
    for(long k : {1l, 2l, 3l}) {
        if(f == fl<F>(k)) {
            return k;
        }
    }
    for(long k = 0; k <= ZONE; ++k) {
        if(f == fl<F>(NEARC + k)) {
            return NEARC + k;
        }
        if(f == fl<F>(HUGEC + k)) {
            return HUGEC + k;
        }
    }
    const F q = f * 4;
    return q >= 4 && q < 1000000 && q == std::floor(q) ? (long)q : 777777777;
}

static void call_cb(ns::StringCFormatCallback cb, void *ctx, const char *f, ...) {
    va_list ap;
    va_start(ap, f);
    ns::cformat_with_cb(cb, ctx, f, ap);
    va_end(ap);
}

static std::vector<long> limbs(uint64_t v) { return {(long)(v >> 48), (long)(v >> 32 & 0xffff), (long)(v >> 16 & 0xffff), (long)(v & 0xffff)}; }

struct MiscWorld : World {
    ns::Range *range = nullptr;
    ~MiscWorld() { delete range; }
    ns::Range &rg() {
        if(!range) {
            range = new ns::Range(0);
        }
        return *range;
    }

    template<typename... A> void fmt(long target, const std::string &pre, Ev &ev, const char *f, A... args) {
        auto add = [](const char *b, size_t n, void *c) {
            auto *p = (std::pair<std::string, long> *)c;
            p->first.append(b, n);
            ++p->second;
        };
        switch(target) {
        case 0: {
            const ns::CString s = ns::cformat(f, args...);
            ev.r = jb(s.c_str(), s.size());
            break;
        }
        case 1: {
            ns::CString s(pre.c_str(), pre.size());
            ns::format_append(s, f, args...);
            ev.r = jb(s.c_str(), s.size());
            if(s.c_str()[s.size()] != 0) {
                ev.r = "[]";
            }
            break;
        }
        case 2: {
            ns::Bytes s;
            s.append(pre.data(), pre.data() + pre.size());
            ns::format_append(s, f, args...);
            ev.r = jb(s.data(), s.size());
            break;
        }
        case 3: {
            ns::Vector<char> s;
            for(char c : pre) {
                s.push_back(c);
            }
            ns::format_append(s, f, args...);
            ev.r = jb(s.data(), s.size());
            break;
        }
        default: {
            std::pair<std::string, long> out{"", 0};
            call_cb(add, &out, f, args...);
            out.first.push_back((char)out.second);
            ev.r = jb(out.first);
        }
        }
    }
#if EPOCH == 2026
    template<typename F, typename C> static std::vector<F> fsort(long alg, std::vector<F> v, const C &c) {
        F *b = v.data(), *e = b + v.size();
        switch(alg) {
        case 0:
            ns::insertion_sort(b, e, c);
            break;
        case 1:
            ns::heapsort(b, e, c);
            break;
        case 2:
            ns::introsort(b, e, c);
            break;
        case 3:
            ns::mergesort(b, e, c);
            break;
        default:
            ns::shell_sort(b, e, c);
        }
        return v;
    }
    template<typename F> void floats(const Op &op, Ev &ev) {
        const bool total = op.I(op.n == "fcmp" ? 0 : 1) == 0;
        auto go = [&](const auto &c) {
            if(op.n == "fcmp") {
                const F a = fl<F>(op.I(2)), b = fl<F>(op.I(3));
                const int k = c.compare(a, b);
                ev.r = jl({k < 0 ? -1 : k > 0, c.equal(a, b)});
                return;
            }
            std::vector<F> v;
            for(long x : op.L(3)) {
                v.push_back(fl<F>(x));
            }
            std::vector<long> o;
            for(F f : fsort(op.I(0), v, c)) {
                o.push_back(code(f));
            }
            ev.r = jl(o);
        };
        if(total) {
            go(ns::FloatTotalOrderComparator<F>{});
        } else {
            go(ns::FloatIgnoreNanComparator<F>{});
        }
    }
    // Records what is fed.
    struct Tap : ns::HashFeedInterface {
        std::string data;
        void feed_bytes(const char *b, size_t n) override { data.append(b, n); }
        template<typename O> void obj(const O &o) { o.feed_hash(*this); }
    };
#endif

    void exec(const Op &op, Ev &ev) override {
        const auto &n = op.n;
        if(n == "mk") {
            const int64_t b = wide(op.I(0)), e = wide(op.I(1)), s = wide(op.I(2));
            // Only steps forward that do not pass the largest number.
            UNDEFINED_2025(op.I(3) == 3 && (s <= 0 || e > INT64_MAX - s));
            ns::Range *r = op.I(3) == 1 ? new ns::Range(e) : op.I(3) == 2 ? new ns::Range(b, e) : new ns::Range(b, e, s);
            delete range;
            range = r;
        } else if(n == "next") {
            auto v = rg().next();
            ev.r = v ? jl({1, narrow(*v)}) : jl({0});
        } else if(n == "copy") {
            ns::Range r;
            r = (const ns::Range &)rg();
            auto v = r.next();
            ev.r = v ? jl({1, narrow(*v)}) : jl({0});
        } else if(n == "loop") {
            std::vector<long> o;
            for(auto &v : ns::LoopView(rg())) {
                o.push_back(narrow(v));
                if(o.size() > 5000) {
                    break;
                }
            }
            o.push_back(rg().next() ? 1 : 0);
            ev.r = jl(o);
        } else if(n == "loopsume") {
            std::vector<long> o;
            ns::Range r;
            r = (const ns::Range &)rg();
            for(auto &v : ns::Loopsume((ns::Range &&)r)) {
                o.push_back(narrow(v));
                if(o.size() > 5000) {
                    break;
                }
            }
            ev.r = jl(o);
        } else if(n == "enum") {
            ns::Vector<long> v;
            for(long x : op.L(0)) {
                v.push_back(x);
            }
            std::vector<long> o;
            for(auto x : ns::EnumerateView(v)) {
                x.value += 1;
                o.push_back((long)x.i);
                o.push_back(v[x.i]);
            }
            ev.r = jl(o);
        } else if(n == "enum2") {
            // The same enumeration traversed again and again, the first time only in part.
            ns::Vector<long> v;
            for(long x : op.L(0)) {
                v.push_back(x);
            }
            std::vector<long> o;
            ns::EnumerateView view(v);
            long left = op.I(1);
            for(auto x : view) {
                if(left-- == 0) {
                    break;
                }
                o.push_back((long)x.i);
                o.push_back(x.value);
            }
            for(auto x : view) {
                o.push_back((long)x.i);
                o.push_back(x.value);
                for(auto y : view) {
                    o.push_back((long)y.i);
                }
            }
            ev.r = jl(o);
        } else if(n == "enumbig" || n == "loopbig") {
            // How many are visited, and how many of them with a wrong position or value.
            const long k = op.I(0);
            long seen = 0, bad = 0;
            if(n == "loopbig") {
                ns::Range r(k);
                for(auto &v : ns::LoopView(r)) {
                    bad += v != seen++;
                }
            } else {
                std::vector<int> v;
                for(long i = 0; i < k; ++i) {
                    v.push_back((int)(i % 1009));
                }
                for(auto x : ns::EnumerateView(v)) {
                    bad += x.i != (size_t)seen || x.value != seen % 1009;
                    if(++seen > k + 5) {
                        break;
                    }
                }
            }
            ev.r = jl({seen, bad});
        } else if(n == "fmt") {
            const long k = op.I(0), t = op.I(1);
            const std::string pre = op.S(2), s = op.S(3);
            const char *cs = s.c_str();
            const int a = (int)op.I(4), m = (int)op.I(5);
            UNDEFINED_2025(s.size() * (k == 8 ? 3 : 1) > 1000 || m > 300 || t == 1 && k == 4 && a == 0);
            switch(k) {
            case 0:
                return fmt(t, pre, ev, "%s", cs);
            case 1:
                return fmt(t, pre, ev, "%s%d", cs, a);
            case 2:
                return fmt(t, pre, ev, "[%d]%%%s", a, cs);
            case 3:
                return fmt(t, pre, ev, "%*d|%-*d|%0*d", m, a, m, a, m, a);
            case 4:
                return fmt(t, pre, ev, "%c%s", a, cs);
            case 5:
                return fmt(t, pre, ev, "%.*s", m, cs);
            case 6:
                return fmt(t, pre, ev, "%x %o %u", (unsigned)a, (unsigned)a, (unsigned)a);
            case 7:
                return fmt(t, pre, ev, "plain");
            case 8:
                return fmt(t, pre, ev, "%s%s%s", cs, cs, cs);
            default:
                return fmt(t, pre, ev, "");
            }
        } else if(n == "iclamp") {
            UNDEFINED_2025(op.I(0) < op.I(1));
            ev.r = jl({narrow(ns::clamp(wide(op.I(0)), wide(op.I(1)), wide(op.I(2))))});
        } else if(n == "fclamp") {
            ev.r = jl({code(ns::clamp(fl<double>(op.I(0)), fl<double>(op.I(1)), fl<double>(op.I(2))))});
#if EPOCH == 2026
        } else if(n == "fcmp" || n == "fsort") {
            if(op.I(n == "fcmp" ? 1 : 2) == 0) {
                floats<double>(op, ev);
            } else {
                floats<float>(op, ev);
            }
#endif
        } else if(n == "bytes") {
            const std::string d = op.S(0);
            ns::Hasher<> h;
            size_t at = 0;
            for(long cut : op.L(1)) {
                Exact piece(d.substr(at, cut - at), false);
                h.feed_bytes(piece.p, cut - at);
                at = cut;
            }
            h.feed_bytes(d.data() + at, d.size() - at);
            ev.r = jl(limbs(h.get_hash_value()));
#if EPOCH == 2025
        } else if(n == "fcmp" || n == "fsort" || n == "reset") {
            unknown();
        } else if(n == "primz") {
            const long v = op.I(1);
            const std::string pre = op.S(2);
            ns::Hasher<> h;
            h.feed_bytes(pre.data(), pre.size());
            switch(op.I(0)) {
            case 1:
                v < 0 ? h.feed_hash((int8_t)v) : h.feed_hash((uint8_t)v);
                break;
            case 2:
                v < 0 ? h.feed_hash((int16_t)v) : h.feed_hash((uint16_t)v);
                break;
            case 4:
                v < 0 || v % 2 ? h.feed_hash((int32_t)v) : h.feed_hash((uint32_t)v);
                break;
            default:
                v < 0 || v % 2 ? h.feed_hash((int64_t)v) : h.feed_hash((uint64_t)v);
            }
            ev.r = jl(limbs(h.get_hash_value()));
        } else if(n == "objz") {
            const std::string s = op.S(1), pad = op.S(2), in = pad + s + pad;
            ns::Hasher<> h;
            ns::Bytes b;
            switch(op.I(0)) {
            case 0:
                ns::CString(s.c_str(), s.size()).feed_hash(h);
                break;
            case 3:
                h.feed_hash(ns::U8String(s.c_str(), s.size()));
                break;
            case 5:
                b.append(s.data(), s.data() + s.size());
                b.feed_hash(h);
                break;
            case 6:
            case 7: {
                const ns::CString c(in.c_str(), in.size());
                ns::CString part(c.substr(pad.size(), s.size()));
                ns::CString other("something else, much longer than that one");
                other = ns::CString(part);
                other.feed_hash(h);
                break;
            }
            case 8:
                b.append(in.data(), in.data() + in.size());
                b.pop_front(pad.size());
                b.pop_back(pad.size());
                b.feed_hash(h);
                break;
            default:
                unknown();
            }
            ev.r = jl(limbs(h.get_hash_value()));
#else
        } else if(n == "reset") {
            const std::string a = op.S(0), b = op.S(1);
            ns::Hasher<> h;
            h.feed_bytes(a.data(), a.size());
            h.reset();
            h.feed_bytes(b.data(), b.size());
            ev.r = jl(limbs(h.get_hash_value()));
        } else if(n == "prim") {
            const long v = op.I(1);
            const std::string pre = op.S(2);
            ns::Hasher<> h;
            Tap t;
            h.feed_bytes(pre.data(), pre.size());
            auto feed = [&]<typename T>(T x) {
                h.feed_hash(x);
                t.feed_hash(x);
            };
            switch(op.I(0)) {
            case 1:
                v < 0 ? feed((int8_t)v) : feed((uint8_t)v);
                break;
            case 2:
                v < 0 ? feed((int16_t)v) : feed((uint16_t)v);
                break;
            case 4:
                v < 0 || v % 2 ? feed((int32_t)v) : feed((uint32_t)v);
                break;
            default:
                v < 0 || v % 2 ? feed((int64_t)v) : feed((uint64_t)v);
            }
            auto o = limbs(h.get_hash_value());
            for(char c : t.data) {
                o.push_back((unsigned char)c);
            }
            ev.r = jl(o);
        } else if(n == "obj") {
            const std::string s = op.S(1), pad = op.S(2);
            ns::Hasher<> h;
            Tap t;
            auto feed = [&](const auto &o) {
                h.feed_hash(o);
                t.obj(o);
            };
            const std::string in = pad + s + pad;
            switch(op.I(0)) {
            case 0:
                feed(ns::CString(s.c_str(), s.size()));
                break;
            case 1:
                feed(ns::CStringView(in.data() + pad.size(), s.size()));
                break;
            case 2:
                feed(ns::ZStringView(s.c_str()));
                break;
            case 3:
                feed(ns::U8String(s.c_str(), s.size()));
                break;
            case 4:
                feed(ns::U8StringView(in.data() + pad.size(), s.size()));
                break;
            case 5: {
                ns::Bytes b;
                b.append(s.data(), s.data() + s.size());
                feed(b);
                break;
            }
            case 6: {
                ns::CString c(in.c_str(), in.size());
                c.remove(0, pad.size());
                c.remove(s.size(), s.size() + pad.size());
                c.reserve(500);
                feed(c);
                break;
            }
            case 7: {
                ns::CString c(s.c_str(), s.size());
                ns::CString d(c);
                ns::CString e((ns::CString &&)c);
                c = d;
                feed(c);
                break;
            }
            default: {
                ns::Bytes b;
                b.append(in.data(), in.data() + in.size());
                b.pop_front(pad.size());
                b.pop_back(pad.size());
                feed(b);
            }
            }
            auto o = limbs(h.get_hash_value());
            for(char c : t.data) {
                o.push_back((unsigned char)c);
            }
            ev.r = jl(o);
#endif
        } else {
            span(op, ev);
        }
    }
    template<int N> struct Block {
        unsigned char c[N] = {};
        Block() {}
        Block(long v) {
            c[0] = (unsigned char)v;
            c[N - 1] = (unsigned char)(v * 3);
        }
        operator long() const { return (unsigned char)(c[0] * 3) == c[N - 1] ? c[0] : -1; }
    };
    // Many elements of any width: width, number, an index, offset and size of a part.
    template<typename T> void wide_span(const Op &op, Ev &ev) {
        const size_t n = op.Z(1), i = op.Z(2), at = op.Z(3), len = op.Z(4);
        UNDEFINED_2025(at + len == n);
        std::vector<T> v(n + 1);
        for(size_t k = 0; k <= n; ++k) {
            v[k] = T((long)(k % 101));
        }
        const ns::Span<T> s(v.data(), n);
        const ns::Span<T> sub = s.subspan(at, len);
        std::vector<long> o{(long)s.size(), (long)sub.size()};
#if EPOCH == 2026
        o.push_back((long)s.size_bytes());
        o.push_back((long)sub.size_bytes());
#else
        o.push_back((long)n * op.I(0));
        o.push_back((long)len * op.I(0));
#endif
        o.push_back((long)s[i]);
        o.push_back(sub.end() - sub.begin());
        long sum = 0;
        for(const T &x : sub) {
            sum += (long)x;
        }
        o.push_back(sum);
        ev.r = jl(o);
    }
    void span(const Op &op, Ev &ev) {
        const auto &n = op.n;
        if(n == "empty") {
            ns::Span<Obj> e;
            ev.r = jl({(long)e.size()});
            return;
        }
        if(n == "wide") {
            switch(op.I(0)) {
            case 1:
                return wide_span<char>(op, ev);
            case 2:
                return wide_span<unsigned short>(op, ev);
            case 3:
                return wide_span<Block<3>>(op, ev);
            case 5:
                return wide_span<Block<5>>(op, ev);
            case 8:
                return wide_span<long>(op, ev);
            default:
                return wide_span<Block<24>>(op, ev);
            }
        }
        const auto &vals = op.L(0);
        auto *a = new Obj[vals.size()];
        struct Del {
            Obj *p;
            ~Del() { delete[] p; }
        } del{a};
        for(size_t i = 0; i < vals.size(); ++i) {
            a[i] = Obj((int)vals[i]);
        }
        ns::Span<Obj> s(a + op.I(1), op.I(2) - op.I(1));
        const ns::Span<Obj> cs(s);
        std::vector<long> o;
        auto all = [&](const auto &x) {
            for(auto &v : x) {
                o.push_back(v.v());
            }
        };
        if(n == "all") {
            all(cs);
            const Obj *first = s.begin();
#if EPOCH == 2026
            first = s.data();
#endif
            if(cs.cbegin() != cs.begin() || cs.cend() != cs.end() || first != cs.begin()) {
                o.push_back(-1);
            }
        } else if(n == "size") {
            size_t bytes = cs.size() * sizeof(Obj);
#if EPOCH == 2026
            bytes = cs.size_bytes();
#endif
            o = {(long)cs.size(), (long)(bytes / sizeof(Obj)), cs.is_empty()};
        } else if(n == "idx") {
            const size_t i = op.Z(3);
            o = {op.I(4) == 0 ? s[i].v() : op.I(4) == 1 ? cs[i].v() : cs.at(i).v()};
        } else if(n == "set") {
            s[op.Z(3)] = Obj((int)op.I(4));
            for(size_t i = 0; i < vals.size(); ++i) {
                o.push_back(a[i].v());
            }
        } else if(n == "sub1") {
            all(cs.subspan(op.Z(3)));
        } else if(n == "sub") {
            UNDEFINED_2025((op.Z(4) != (size_t)-1 && (op.Z(3) + op.Z(4) == cs.size() || op.Z(3) > (size_t)-1 - op.Z(4))));
            all(cs.subspan(op.Z(3), op.Z(4)));
        } else if(n == "assign") {
            ns::Span<Obj> t, u((ns::Span<Obj> &&)s), w;
            t = cs;
            w = (ns::Span<Obj> &&)t;
            all(w);
            all(u);
            all(cs);
        }
        ev.r = jl(o);
    }
};
World *make_world(long) { return new MiscWorld; }
int main(int argc, char **argv) { return drv_main(argc, argv); }
