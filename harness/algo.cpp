#include <algorithm>
#include "drv.hpp"
#include "obj.hpp"
#if EPOCH == 2026
#include <pystd2026_bucketsort.hpp>
#include <pystd2026_heapsort.hpp>
#include <pystd2026_indirect_sort.hpp>
#include <pystd2026_introsort.hpp>
#include <pystd2026_mergesort.hpp>
#include <pystd2026_nth_element.hpp>
#include <pystd2026_partial_sort.hpp>
#include <pystd2026_radixsort.hpp>
#include <pystd2026_rotate.hpp>
#include <pystd2026_shellsort.hpp>
#include <pystd2026_stablepartition.hpp>
#endif

static const long W = 32768;

// Owns memory; equal when the keys are equal, whatever the ordering says.
struct KT {
    Obj o;
    KT() noexcept = default;
    KT(int v) noexcept : o{v} {}
    KT(const KT &) noexcept = default;
    KT(KT &&) noexcept = default;
    KT &operator=(const KT &) noexcept = default;
    KT &operator=(KT &&) noexcept = default;
    bool operator==(const KT &x) const { return o.v() / W == x.o.v() / W; }
    bool operator<(const KT &x) const { return o < x.o; }
    bool operator>(const KT &x) const { return o > x.o; }
    int operator<=>(const KT &x) const { return o <=> x.o; }
};

template<typename T> struct Conv {
    static T to(long v) { return (T)v; }
    static long from(const T &v) { return (long)v; }
};
template<> struct Conv<KT> {
    static KT to(long v) { return KT((int)v); }
    static long from(const KT &v) { return v.o.v(); }
};
template<> struct Conv<int64_t> {
    // Differences do not fit in an int.
    static int64_t to(long v) { return (v << 30) - (1L << 60); }
    static long from(const int64_t &v) { return (v + (1L << 60)) >> 30; }
};
template<> struct Conv<ns::CString> {
    static ns::CString to(long v) {
        char b[60];
        snprintf(b, 60, "a common prefix beyond any buffer %012ld", v);
        return ns::CString(b);
    }
    static long from(const ns::CString &v) { return v.is_empty() ? -1 : atol(v.c_str() + 34); }
};

template<typename T> struct Cmp {
    int c;
    int raw(long a, long b) const {
        const long ka = a / W, kb = b / W;
        switch(c) {
        case 1:
            return a > b ? -100 : a < b ? 7 : 0;
        case 2:
            return (int)(ka - kb);
        case 3:
            return ka > kb ? -1 : ka < kb ? 1 : 0;
        case 4:
            return (int)(ka % 7 - kb % 7);
        case 5:
            return 0;
        default:
            return a < b ? -1 : a > b ? 1 : 0;
        }
    }
    int compare(const T &a, const T &b) const noexcept { return raw(Conv<T>::from(a), Conv<T>::from(b)); }
    bool equal(const T &a, const T &b) const noexcept { return compare(a, b) == 0; }
};

template<typename T> struct Arr {
    T *p;
    size_t n;
    explicit Arr(const std::vector<long> &v) : n{v.size()} {
        p = (T *)malloc(n ? n * sizeof(T) : 1);
        for(size_t i = 0; i < n; ++i) {
            new(p + i) T(Conv<T>::to(v[i]));
        }
    }
    ~Arr() {
        for(size_t i = 0; i < n; ++i) {
            p[i].~T();
        }
        free(p);
    }
    std::vector<long> out() const {
        std::vector<long> r;
        for(size_t i = 0; i < n; ++i) {
            r.push_back(Conv<T>::from(p[i]));
        }
        return r;
    }
};

// An adversary in the style of McIlroy: elements get their rank only when a comparison forces it.
struct Adversary {
    static inline std::vector<int> rank;
    static inline int solid, gas, candidate;
    static void reset(int n) {
        const bool was = blk::on;
        blk::on = false;
        rank.assign(n, gas = n);
        blk::on = was;
        solid = 0;
        candidate = 0;
    }
    int compare(const int &a, const int &b) const noexcept {
        const int x = a, y = b;
        if(x == y) {
            return 0;
        }
        if(rank[x] == gas && rank[y] == gas) {
            rank[x == candidate ? x : y] = solid++;
        }
        if(rank[x] == gas) {
            candidate = x;
        } else if(rank[y] == gas) {
            candidate = y;
        }
        return rank[x] - rank[y];
    }
    bool equal(const int &a, const int &b) const noexcept { return a == b; }
};

// Orders ids by a key table.
struct ByKey {
    const std::vector<int> *key;
    int compare(const int &a, const int &b) const noexcept { return (*key)[a] < (*key)[b] ? -1 : (*key)[a] > (*key)[b]; }
    bool equal(const int &a, const int &b) const noexcept { return (*key)[a] == (*key)[b]; }
};

static bool sat(long p, long v) { return p < 1000 ? v / W < p : v / W % 2 == 1; }

#if EPOCH == 2025
// The frozen edition: natural order only.
struct AlgoWorld : World {
    template<typename T> void typed(const Op &op, Ev &ev, const std::vector<long> &vals) {
        const auto &n = op.n;
        Arr<T> A(vals);
        auto done = [&](long ret) {
            auto o = A.out();
            o.insert(o.begin(), ret);
            ev.r = jl(o);
        };
        auto rng = [&](int i) { return std::pair<T *, T *>(A.p + op.I(i), A.p + op.I(i + 1)); };
        if((n == "sort" && op.I(3) == 0) || n == "dsort") {
            auto [b, e] = rng(n == "sort" ? 4 : 3);
            if(op.I(0) != 0) {
                unknown();
            }
            if(op.I(1) == 1) {
                ns::insertion_sort(ns::Span<T>(b, e - b));
            } else {
                ns::insertion_sort(b, e);
            }
            ev.r = jl(A.out());
        } else if(n == "partition" && op.I(0) == 0) {
            auto [b, e] = rng(3);
            const long p = op.I(2);
            done(ns::partition(b, e, [p](const T &v) { return sat(p, Conv<T>::from(v)); }) - A.p);
        } else if(n == "lower" && op.I(1) == 0) {
            auto [b, e] = rng(2);
            UNDEFINED_2025(b == e);
            const T q = Conv<T>::to(op.I(4));
            T *it = ns::lower_bound(b, e, q);
            ev.r = jl({it ? it - A.p : -1});
        } else if(n == "min" && op.I(1) == 0) {
            auto [b, e] = rng(2);
            ev.r = jl({ns::min_element(b, e) - A.p});
        } else if(n == "find") {
            auto [b, e] = rng(1);
            ev.r = jl({ns::find(b, e, Conv<T>::to(op.I(3))) - A.p});
        } else if(n == "findif") {
            auto [b, e] = rng(3);
            const long p = op.I(2);
            const auto pred = [p](const T &v) { return sat(p, Conv<T>::from(v)); };
            T *it;
            if(op.I(1)) {
                it = ns::find_if_not(b, e, [p](const T &v) { return sat(p, Conv<T>::from(v)); });
            } else {
#if EPOCH == 2026
                if(op.I(2) % 2) {
                    it = ns::find_if(b, (const T *)e, pred); // the end may be of another type
                } else
#endif
                {
                    it = ns::find_if<T *>(b, e, pred);
                }
            }
            ev.r = jl({it - A.p});
        } else {
            unknown();
        }
    }
    void exec(const Op &op, Ev &ev) override {
        const auto &n = op.n;
        if(n == "minmax") {
            UNDEFINED_2025(op.I(2) > 20);
            const int64_t a = op.I(0) << op.I(2), b = op.I(1) << op.I(2);
            const int64_t lo = ns::minval(a, b), hi = ns::maxval(a, b);
            ev.r = jl({lo >> op.I(2), hi >> op.I(2)});
            return;
        }
        if(n != "sort" && n != "dsort" && n != "partition" && n != "lower" && n != "min" && n != "find" && n != "findif") {
            unknown();
        }
        const auto &vals = op.a.back().l;
        switch(op.I(n == "sort" || n == "dsort" ? 2 : n == "partition" ? 1 : 0)) {
        case 0:
            return typed<int>(op, ev, vals);
        case 1:
            return typed<KT>(op, ev, vals);
        case 2:
            return typed<int64_t>(op, ev, vals);
        default:
            unknown();
        }
    }
};
#else
struct AlgoWorld : World {
    // Arrays too big to print: the result is a summary,
    // [adjacent pairs out of order, ids lost, equal neighbours whose order was changed, elements on the wrong side of the nth]
    static std::vector<long> bigsort(const Op &op) {
        const long alg = op.I(0), pattern = op.I(1), k = op.I(3);
        const int n = (int)op.I(2);
        uint64_t x = (uint64_t)op.I(4) * 0x9e3779b97f4a7c15ULL + 1;
        auto rnd = [&x] {
            x ^= x << 13;
            x ^= x >> 7;
            x ^= x << 17;
            return (x * 0x2545F4914F6CDD1DULL) >> 33;
        };
        std::vector<int> key(n);
        for(int i = 0; i < n; ++i) {
            switch(pattern) {
            case 1:
                key[i] = (int)rnd();
                break;
            case 2:
                key[i] = (int)(rnd() % 7);
                break;
            case 3:
                key[i] = i;
                break;
            case 4:
                key[i] = n - i;
                break;
            case 5:
                key[i] = i < n / 2 ? i : n - i;
                break;
            case 6:
                key[i] = i % 1000;
                break;
            case 7:
                key[i] = rnd() % 50 == 0 ? (int)rnd() : i;
                break;
            default:
                key[i] = rnd() % 3 == 0 ? (int)(rnd() % n) : 5;
            }
        }
        if(pattern >= 9) {
            // Nearly sorted (or reversed, or equal) with a few odd ones in places where samples are likely taken.
            for(int i = 0; i < n; ++i) {
                key[i] = pattern == 9 ? i : pattern == 10 ? n - i : i < n / 2 ? n / 2 : i;
            }
            for(int c = 1 + (int)(rnd() % 9); c > 0; --c) {
                const int m = 1 + (int)(rnd() % 24);
                long at = rnd() % 4 == 0 ? (long)(rnd() % 40) : rnd() % 3 == 0 ? n - 1 - (long)(rnd() % 40) : (long)(n / m) * (long)(rnd() % (m + 1));
                at = at < 0 ? 0 : at >= n ? n - 1 : at;
                const uint64_t what = rnd() % 4;
                key[at] = what == 0 ? 0 : what == 1 ? n + 1 : what == 2 ? (int)(rnd() % n) : key[rnd() % n];
            }
        }
        std::vector<long> ids;
        for(int i = 0; i < n; ++i) {
            ids.push_back(i);
        }
        long off = 0, lost = 0, unstable = 0, side = 0;
        auto judge = [&](auto at, auto less, long sorted_until) {
            std::vector<char> seen(n);
            for(int i = 0; i < n; ++i) {
                const long v = at(i);
                if(v < 0 || v >= n || seen[v]) {
                    ++lost;
                } else {
                    seen[v] = 1;
                }
            }
            if(lost) {
                return;
            }
            for(int i = 0; i + 1 < sorted_until; ++i) {
                off += less(at(i + 1), at(i));
                unstable += !less(at(i), at(i + 1)) && !less(at(i + 1), at(i)) && at(i) > at(i + 1);
            }
            if(alg == 5 || alg == 6) {
                for(int i = 0; i < n; ++i) {
                    side += i < k ? less(at(k), at(i)) : less(at(i), at(k));
                }
            }
        };
        if(alg == 7 || alg == 8) {
            std::vector<uint32_t> v(n), w;
            for(int i = 0; i < n; ++i) {
                v[i] = (uint32_t)key[i] * (pattern == 1 ? 2u : 1u);
            }
            w = v;
            std::sort(w.begin(), w.end());
            if(alg == 7) {
                ns::radix_sort(v.data(), v.data() + n);
            } else {
                ns::bucketsort(v.data(), v.data() + n);
            }
            for(int i = 0; i < n; ++i) {
                off += v[i] != w[i];
            }
            return {off, 0, 0, 0};
        }
        Arr<int> A(ids);
        int *b = A.p, *e = A.p + n;
        auto run = [&](const auto &cmp, auto less) {
            auto at = [b](long i) { return b[i]; };
            switch(alg) {
            case 5:
                ns::nth_element(b, e, (size_t)k, cmp);
                judge(at, less, 0);
                break;
            case 6:
                ns::partial_sort(b, e, (size_t)k, cmp);
                judge(at, less, k);
                break;
            case 10: {
                // The order of the indices is the order of the elements.
                auto ix = ns::indirect_stable_sort(b, e, cmp);
                judge([&](long i) { return (int)ix[i]; }, less, n);
                break;
            }
            default:
                do_sort(alg, b, e, cmp);
                judge(at, less, n);
            }
        };
        if(pattern == 0) {
            Adversary::reset(n);
            run(Adversary{}, [](int a, int c) { return Adversary::rank[a] < Adversary::rank[c]; });
        } else if(alg == 9) {
            const auto pred = [&key](const int &i) { return key[i] % 3 == 0; };
            const long split = ns::stable_partition(b, e, pred) - b;
            judge([b](long i) { return b[i]; }, [&](int a, int c) { return pred(a) && !pred(c); }, n);
            for(int i = 0; i < n; ++i) {
                side += pred(b[i]) != (i < split);
            }
        } else {
            run(ByKey{&key}, [&key](int a, int c) { return key[a] < key[c]; });
        }
        if(alg != 3 && alg != 9 && alg != 10) {
            unstable = 0;
        }
        return {off, lost, unstable, side};
    }
    template<typename It, typename C> static void do_sort(long alg, It b, It e, const C &c) {
        switch(alg) {
        case 0:
            ns::insertion_sort(b, e, c);
            break;
        case 1:
            ns::heapsort(b, e, c);
            break;
        case 2:
            ns::introsort(b, e, c);
            break;
        case 3:
            ns::mergesort(b, e, c);
            break;
        default:
            ns::shell_sort(b, e, c);
        }
    }
    template<typename T> static void def_sort(long alg, long form, T *b, T *e) {
        ns::Span<T> sp(b, e - b);
        if(form == 1 && alg < 4) {
            switch(alg) {
            case 0:
                return ns::insertion_sort(sp);
            case 1:
                return ns::heapsort(sp);
            case 2:
                return ns::introsort(sp);
            default:
                return ns::mergesort(sp);
            }
        }
        switch(alg) {
        case 0:
            return ns::insertion_sort(b, e);
        case 1:
            return ns::heapsort(b, e);
        case 2:
            return ns::introsort(b, e);
        case 3:
            return ns::mergesort(b, e);
        default:
            return ns::shell_sort(b, e);
        }
    }
    template<typename U> static void keyed(const Op &op, Ev &ev, bool limbs) {
        std::vector<long> in = op.L(5);
        std::vector<U> v;
        if(limbs) {
            for(size_t i = 0; i + 3 < in.size(); i += 4) {
                v.push_back((U)(((uint64_t)in[i] << 48) | ((uint64_t)in[i + 1] << 32) | ((uint64_t)in[i + 2] << 16) | (uint64_t)in[i + 3]));
            }
        } else {
            for(long x : in) {
                v.push_back((U)x);
            }
        }
        U *p = (U *)malloc(v.size() ? v.size() * sizeof(U) : 1);
        if(v.size()) {
            memcpy(p, v.data(), v.size() * sizeof(U));
        }
        U *b = p + op.I(3), *e = p + op.I(4);
        const long alg = op.I(0);
        if(alg == 0) {
            if(op.I(1) == 1) {
                ns::radix_sort(ns::Span<U>(b, e - b));
            } else {
                ns::radix_sort(b, e);
            }
        } else {
            ns::bucketsort(b, e);
        }
        std::vector<long> out;
        for(size_t i = 0; i < v.size(); ++i) {
            const uint64_t x = p[i];
            if(limbs) {
                out.push_back(x >> 48);
                out.push_back((x >> 32) & 0xffff);
                out.push_back((x >> 16) & 0xffff);
                out.push_back(x & 0xffff);
            } else {
                out.push_back((long)x);
            }
        }
        ev.r = jl(out);
        free(p);
    }
    template<typename T> void typed(const Op &op, Ev &ev, const std::vector<long> &vals) {
        const auto &n = op.n;
        Arr<T> A(vals);
        auto done = [&](long ret) {
            auto o = A.out();
            o.insert(o.begin(), ret);
            ev.r = jl(o);
        };
        auto rng = [&](int i) { return std::pair<T *, T *>(A.p + op.I(i), A.p + op.I(i + 1)); };
        if(n == "sort") {
            auto [b, e] = rng(4);
            if(op.I(3) == 0) {
                def_sort<T>(op.I(0), op.I(1), b, e);
            } else if(op.I(1) == 1 && op.I(0) == 3) {
                ns::mergesort(ns::Span<T>(b, e - b), Cmp<T>{(int)op.I(3)});
            } else {
                do_sort(op.I(0), b, e, Cmp<T>{(int)op.I(3)});
            }
            ev.r = jl(A.out());
        } else if(n == "dsort") {
            auto [b, e] = rng(3);
            def_sort<T>(op.I(0), op.I(1), b, e);
            ev.r = jl(A.out());
        } else if(n == "indirect") {
            const int c = (int)op.I(2);
            ns::Vector<size_t> ix;
            if(op.I(0) == 1) {
                ix = c == 0 ? ns::indirect_stable_sort(A.p, A.p + A.n) : ns::indirect_stable_sort(A.p, A.p + A.n, Cmp<T>{c});
            } else {
                ix = c == 0 ? ns::indirect_sort(A.p, A.p + A.n) : ns::indirect_sort(A.p, A.p + A.n, Cmp<T>{c});
            }
            std::vector<long> o;
            for(size_t i = 0; i < ix.size(); ++i) {
                o.push_back((long)ix[i]);
            }
            for(long v : A.out()) {
                o.push_back(v);
            }
            ev.r = jl(o);
        } else if(n == "partition" || n == "stablepart") {
            auto [b, e] = rng(3);
            const long p = op.I(2);
            auto pred = [p](const T &v) { return sat(p, Conv<T>::from(v)); };
            if(op.I(0) == 1) {
                ns::Span<T> sp(b, e - b);
                done((long)(n == "partition" ? ns::partition(sp, pred) : ns::stable_partition(sp, pred)));
            } else {
                done((n == "partition" ? ns::partition(b, e, pred) : ns::stable_partition(b, e, pred)) - A.p);
            }
        } else if(n == "rotate") {
            auto [b, m] = rng(2);
            T *e = A.p + op.I(4);
            if(op.I(0) == 1) {
                done(ns::rotate(ns::Span<T>(b, e - b), m - b) - A.p);
            } else {
                done(ns::rotate(b, m, e) - A.p);
            }
        } else if(n == "rotlast" || n == "rotfirst") {
            auto [b, e] = rng(1);
            if(n == "rotlast") {
                ns::rotate_last_to_front(b, e);
            } else {
                ns::rotate_first_to_back(b, e);
            }
            ev.r = jl(A.out());
        } else if(n == "insert1") {
            auto [b, e] = rng(2);
            T scratch{};
            ns::linear_insert(b, e - 1, scratch, Cmp<T>{(int)op.I(1)});
            ev.r = jl(A.out());
        } else if(n == "nth" || n == "psort") {
            auto [b, e] = rng(3);
            const int c = (int)op.I(2);
            const size_t k = op.Z(5);
            if(n == "psort") {
                done((c == 0 ? ns::partial_sort(b, e, k) : ns::partial_sort(b, e, k, Cmp<T>{c})) - A.p);
            } else if(op.I(0) == 1) {
                ns::Span<T> sp(b, e - b);
                done((long)(c == 0 ? ns::nth_element(sp, k) : ns::nth_element(sp, k, Cmp<T>{c})));
            } else {
                done((c == 0 ? ns::nth_element(b, e, k) : ns::nth_element(b, e, k, Cmp<T>{c})) - A.p);
            }
        } else if(n == "lower") {
            auto [b, e] = rng(2);
            const int c = (int)op.I(1);
            const T q = Conv<T>::to(op.I(4));
            ev.r = jl({(c == 0 ? ns::lower_bound(b, e, q) : ns::lower_bound(b, e, q, Cmp<T>{c})) - A.p});
        } else if(n == "min") {
            auto [b, e] = rng(2);
            const int c = (int)op.I(1);
            ev.r = jl({(c == 0 ? ns::min_element(b, e) : ns::min_element(b, e, Cmp<T>{c})) - A.p});
        } else if(n == "max") {
            auto [b, e] = rng(2);
            ev.r = jl({ns::max_element(b, e, Cmp<T>{(int)op.I(1)}) - A.p});
        } else if(n == "issorted") {
            auto [b, e] = rng(2);
            ev.r = jl({ns::is_sorted(b, e, Cmp<T>{(int)op.I(1)}) ? 1 : 0});
        } else if(n == "find") {
            auto [b, e] = rng(1);
            ev.r = jl({ns::find(b, e, Conv<T>::to(op.I(3))) - A.p});
        } else if(n == "findif") {
            auto [b, e] = rng(3);
            const long p = op.I(2);
            auto pred = [p](const T &v) { return sat(p, Conv<T>::from(v)); };
            T *it;
            if(op.I(1)) {
                it = ns::find_if_not(b, e, pred);
            } else {
#if EPOCH == 2026
                if(op.I(2) % 2) {
                    it = ns::find_if(b, (const T *)e, pred); // the end may be of another type
                } else
#endif
                {
                    it = ns::find_if<T *>(b, e, pred);
                }
            }
            ev.r = jl({it - A.p});
        } else {
            unknown();
        }
    }
    void exec(const Op &op, Ev &ev) override {
        const auto &n = op.n;
        if(n == "isort" || n == "isortu") {
            const bool l = n == "isort";
            switch(op.I(2)) {
            case 8:
                return keyed<uint8_t>(op, ev, l);
            case 16:
                return keyed<uint16_t>(op, ev, l);
            case 32:
                return keyed<uint32_t>(op, ev, l);
            default:
                return keyed<uint64_t>(op, ev, l);
            }
        }
        if(n == "adversary") {
            const int k = (int)op.I(1);
            Adversary::reset(k);
            std::vector<long> ids;
            for(int i = 0; i < k; ++i) {
                ids.push_back(i);
            }
            Arr<int> A(ids);
            if(op.I(0) == 5) {
                ns::nth_element(A.p, A.p + k, (size_t)op.I(2), Adversary{});
            } else if(op.I(0) == 6) {
                ns::partial_sort(A.p, A.p + k, (size_t)op.I(2), Adversary{});
            } else {
                do_sort(op.I(0), A.p, A.p + k, Adversary{});
            }
            auto o = A.out();
            for(int i = 0; i < k; ++i) {
                o.push_back(Adversary::rank[A.p[i]]);
            }
            ev.r = jl(o);
            return;
        }
        if(n == "bigsort") {
            ev.r = jl(bigsort(op));
            return;
        }
        if(n == "bigrotate") { // n mid samples
            const int k = (int)op.I(0);
            std::vector<int> v(k);
            for(int i = 0; i < k; ++i) {
                v[i] = i;
            }
            const long at = ns::rotate(v.data(), v.data() + op.I(1), v.data() + k) - v.data();
            std::vector<long> o{at};
            for(auto i : op.L(2)) {
                o.push_back(v[i]);
            }
            ev.r = jl(o);
            return;
        }
        if(n == "minmax") {
            const int64_t a = op.I(0) << op.I(2), b = op.I(1) << op.I(2);
            const int64_t lo = ns::minval(a, b), hi = ns::maxval(a, b);
            ev.r = jl({lo >> op.I(2), hi >> op.I(2)});
            return;
        }
        size_t tpos = n == "sort" || n == "dsort" ? 2 : n == "indirect" || n == "partition" || n == "stablepart" || n == "rotate" || n == "nth" || n == "psort" ? 1 : 0;
        const auto &vals = op.a.back().l;
        switch(op.I(tpos)) {
        case 0:
            return typed<int>(op, ev, vals);
        case 1:
            return typed<KT>(op, ev, vals);
        case 2:
            return typed<int64_t>(op, ev, vals);
        default:
            return typed<ns::CString>(op, ev, vals);
        }
    }
};
#endif
World *make_world(long) { return new AlgoWorld(); }
int main(int argc, char **argv) { return drv_main(argc, argv); }
