#include "drv.hpp"
#include "obj.hpp"
#include <algorithm>
#if EPOCH == 2026
#include <pystd2026_hashtable.hpp>
#endif

static int mode;
static size_t pick(size_t id) {
    switch(mode) {
    case 1:
        return 0;
    case 2:
        return id % 2;
    case 3:
        return id;
    case 4:
        return id % 3 == 0 ? 15 : 14;
    case 5:
        return id << 6;
    case 6:
        return (size_t)-1 - id;
    case 8:
        return (id % 4) * 0x41; // the low bits cancel out in the slot, not in the bloom
    default:
        return id * 0x9E3779B97F4A7C15ull;
    }
}

struct PickHash {
    size_t last = 0;
    PickHash() noexcept = default;
    PickHash(const PickHash &) noexcept = default;
    PickHash(PickHash &&) noexcept = default;
    PickHash &operator=(const PickHash &) noexcept = default;
    PickHash &operator=(PickHash &&) noexcept = default;
    void feed_bytes(const char *b, size_t n) noexcept {
        if(n == 8) {
            memcpy(&last, b, 8);
        }
    }
    size_t get_hash_value() const noexcept { return pick(last); }
    void reset() noexcept { last = 0; }
};

struct HK {
    Obj o;
    HK() noexcept = default;
    HK(int v) noexcept : o{v} {}
    HK(const HK &) noexcept = default;
    HK(HK &&) noexcept = default;
    HK &operator=(const HK &) noexcept = default;
    HK &operator=(HK &&) noexcept = default;
    bool operator==(const HK &k) const { return o == k.o; }
    template<typename Hasher> void feed_hash(Hasher &h) const {
#if EPOCH == 2025
        // Tables with an algorithm of their own can not be iterated: make the keys collide instead.
        h.feed_hash(pick(o.v()));
#else
        h.feed_hash((uint64_t)o.v());
#endif
    }
};
#if EPOCH == 2025
namespace pystd2025 {
template<typename Hasher> struct HashFeeder<Hasher, HK> {
    void operator()(Hasher &h, const HK &k) noexcept { k.feed_hash(h); }
};
}
#endif

template<typename K> struct Mk {
    static K make(int i) { return K(i); }
    static int back(const K &k) { return k; }
};
template<> struct Mk<HK> {
    static HK make(int i) { return HK(i); }
    static int back(const HK &k) { return k.o.v(); }
};
template<> struct Mk<Obj> {
    static Obj make(int i) { return Obj(i); }
    static int back(const Obj &k) { return k.v(); }
};
template<> struct Mk<ns::CString> {
    static ns::CString make(int i) { return ns::CString(("key number " + std::to_string(i)).c_str()); }
    static int back(const ns::CString &k) { return k.is_empty() ? 0 : atoi(k.c_str() + 11); }
};
template<> struct Mk<ns::U8String> {
    static ns::U8String make(int i) { return ns::U8String(("k\xc3\xa4y " + std::to_string(i)).c_str()); }
    static int back(const ns::U8String &k) { return k.is_empty() ? 0 : atoi(k.c_str() + 5); }
};

static long fillval(long k, long w) { return (k * 31 + w) % 1000; }

// One interface over maps and sets.
template<typename M, typename K, typename Val, bool IsSet> struct MapWorld : World {
    char *base;
    M &m(long i) { return *(M *)(base + i * 4096); }
    std::set<long> seen;
    // The earlier edition's tables never get rid of their removed slots except by growing: what
    // happens when they run out of empty ones, or when a present key is inserted again behind a
    // removed slot, is left out.
    size_t slots[2] = {16, 16};
    size_t holes[2] = {0, 0};
    void frozen_put(long h, long k) {
        if(EPOCH != 2025) {
            return;
        }
        M &x = m(h);
        UNDEFINED_2025(holes[h] > 0 && x.contains(Mk<K>::make(k)));
        if((double)x.size() / slots[h] >= .7) {
            slots[h] *= 2;
            holes[h] = 0;
        }
    }
    void frozen_cut(long h, long k) {
        if(EPOCH == 2025 && m(h).contains(Mk<K>::make(k))) {
            UNDEFINED_2025(holes[h] + 3 + slots[h] * 7 / 10 >= slots[h]);
            ++holes[h];
        }
    }
    MapWorld() {
        // The salt of a table is its address: keep it reproducible.
        base = (char *)mmap((void *)0x20000000000, 8192, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED_NOREPLACE,
                            -1, 0);
        if(base == MAP_FAILED) {
            base = (char *)mmap(nullptr, 8192, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
        }
        new(base) M();
        new(base + 4096) M();
    }
    ~MapWorld() {
        m(0).~M();
        m(1).~M();
        munmap(base, 8192);
    }
    std::string one(M &x) {
        std::vector<std::pair<long, long>> v;
        bool ok = true;
        const size_t cap = x.size() * 4 + 100;
#if EPOCH == 2025
        if constexpr(IsSet) {
            // Sets of the earlier edition can not be iterated.
            std::vector<long> r;
            for(long k : seen) {
                if(x.contains(Mk<K>::make(k))) {
                    r.push_back(k);
                    r.push_back(1);
                }
            }
            return "[" + jl({(long)x.size(), x.is_empty() ? 1 : 0, 1}) + "," + jl(r) + "]";
        } else {
#endif
        auto e = x.end();
        for(auto it = x.begin(); it != e; ++it) {
            if constexpr(IsSet) {
                const K &k = *it;
                v.push_back({Mk<K>::back(k), 1});
                ok = ok && x.contains(k);
            } else {
                auto kv = *it;
                v.push_back({Mk<K>::back(*kv.key), Mk<Val>::back(*kv.value)});
                ok = ok && x.lookup(*kv.key) == kv.value;
            }
            if(v.size() > cap) {
                ok = false;
                break;
            }
        }
        std::sort(v.begin(), v.end());
        std::set<long> have;
        std::vector<long> flat;
        for(auto &p : v) {
            have.insert(p.first);
            flat.push_back(p.first);
            flat.push_back(p.second);
        }
        for(long k : seen) {
            const K key = Mk<K>::make(k);
            ok = ok && x.contains(key) == (have.count(k) == 1);
        }
        return "[" + jl({(long)x.size(), x.is_empty() ? 1 : 0, ok ? 1 : 0}) + "," + jl(flat) + "]";
#if EPOCH == 2025
        }
#endif
    }
    std::string proj() override { return "[" + one(m(0)) + "," + one(m(1)) + "]"; }
    void put(M &x, long k, long v) {
        if constexpr(IsSet) {
            x.insert(Mk<K>::make(k));
        } else {
            x.insert(Mk<K>::make(k), Mk<Val>::make(v));
        }
    }
    // A table that was moved from can not be used.
    void fresh(long to, long from) {
        m(from).~M();
        new(&m(from)) M();
        slots[to] = slots[from];
        holes[to] = holes[from];
        slots[from] = 16;
        holes[from] = 0;
    }
    void exec(const Op &op, Ev &ev) override {
        const auto &n = op.n;
        M &x = m(op.I(0));
        const long k = op.a.size() > 1 ? op.I(1) : 0;
        if(n == "move") {
            x = ns::move(m(k));
            if(EPOCH == 2025 && !probing && op.I(0) != k) {
                fresh(op.I(0), k);
            }
            return;
        } else if(n == "movector") {
            x.~M();
            new(&x) M(ns::move(m(k)));
            if(EPOCH == 2025 && !probing && op.I(0) != k) {
                fresh(op.I(0), k);
            }
            return;
        } else if(n == "iteq") {
#if EPOCH == 2025
            throw Skip{};
#else
            auto at = [&](long c) {
                auto it = x.begin();
                for(; c > 0 && it != x.end(); --c) {
                    ++it;
                }
                return it;
            };
            ev.r = jl({!(at(k) != at(op.I(2)))});
            return;
#endif
        } else if(n == "bump") {
            if constexpr(IsSet || EPOCH == 2025) {
                throw Skip{};
            } else {
                for(auto it = x.begin(); it != x.end(); ++it) {
                    auto kv = *it;
                    *kv.value = Mk<Val>::make(Mk<Val>::back(*kv.value) + 1);
                }
            }
            return;
        } else if(n == "count") {
            ev.r = jl({(long)x.size(), x.is_empty()});
            return;
        } else if(n == "clear") {
            x.clear();
            holes[op.I(0)] = 0;
            return;
        } else if(n == "fill" || n == "sfill") {
            UNDEFINED_2025(holes[op.I(0)] > 0);
            for(long i = 0; i < op.I(3); ++i) {
                frozen_put(op.I(0), k + i * op.I(2));
                put(x, k + i * op.I(2), IsSet ? 1 : fillval(k + i * op.I(2), op.I(4)));
                seen.insert(k + i * op.I(2));
            }
            return;
        } else if(n == "cut") {
            UNDEFINED_2025(holes[op.I(0)] + op.I(3) + 4 + slots[op.I(0)] * 7 / 10 >= slots[op.I(0)]);
            for(long i = 0; i < op.I(3); ++i) {
                frozen_cut(op.I(0), k + i * op.I(2));
                x.remove(Mk<K>::make(k + i * op.I(2)));
            }
            return;
        } else if(n == "churn") {
            UNDEFINED_2025(true);
            for(long i = 0; i < op.I(2); ++i) {
                put(x, k + i, 7);
                x.remove(Mk<K>::make(k + i));
            }
            return;
        }
        seen.insert(k);
        const K key = Mk<K>::make(k);
        const long h = op.I(0);
        if(n == "has") {
            ev.r = jl({x.contains(key)});
        } else if(n == "rem") {
            frozen_cut(h, k);
            x.remove(key);
        } else if(n == "remown") {
#if EPOCH == 2025
            unknown();
#else
            for(auto it = x.begin(); it != x.end(); ++it) {
                if constexpr(IsSet) {
                    if(*it == key) {
                        x.remove(*it);
                        break;
                    }
                } else {
                    if(*(*it).key == key) {
                        x.remove(*(*it).key);
                        break;
                    }
                }
            }
#endif
        } else if constexpr(IsSet) {
            if(n == "sins") {
                frozen_put(h, k);
                ev.r = jl({x.insert(key).second});
            } else {
                unknown();
            }
        } else {
            if(n == "ins") {
                frozen_put(h, k);
                ev.r = jl({Mk<Val>::back(x.insert(key, Mk<Val>::make(op.I(2))))});
            } else if(n == "insown") {
                UNDEFINED_2025(true);
                for(auto it = x.begin(); it != x.end(); ++it) {
                    if(*(*it).key == key) {
                        ev.r = jl({Mk<Val>::back(x.insert(*(*it).key, Mk<Val>::make(op.I(2))))});
                        break;
                    }
                }
            } else if(n == "idx") {
                if(!x.contains(key)) {
                    frozen_put(h, k);
                }
                ev.r = jl({Mk<Val>::back(x[key])});
            } else if(n == "idxset") {
                if(!x.contains(key)) {
                    frozen_put(h, k);
                }
                x[key] = Mk<Val>::make(op.I(2));
            } else if(n == "look") {
                auto *p = x.lookup(key);
                ev.r = p ? jl({Mk<Val>::back(*p)}) : "[]";
            } else if(n == "at") {
                ev.r = jl({Mk<Val>::back(x.at(key))});
            } else {
                unknown();
            }
        }
    }
};

World *make_world(long w) {
    mode = w % 10;
    if(w == 0) {
        return new MapWorld<ns::HashMap<int, int>, int, int, false>();
    }
    if(w < 10) {
#if EPOCH == 2025
        return new MapWorld<ns::HashMap<HK, Obj>, HK, Obj, false>();
#else
        return new MapWorld<ns::HashMap<HK, Obj, PickHash>, HK, Obj, false>();
#endif
    }
    if(w == 10) {
        return new MapWorld<ns::HashSet<int>, int, int, true>();
    }
    if(w < 20) {
        return new MapWorld<ns::HashSet<HK, PickHash>, HK, int, true>();
    }
#if EPOCH == 2026
    if(w == 20) {
        return new MapWorld<ns::HashMap<ns::CString, ns::CString>, ns::CString, ns::CString, false>();
    }
#endif
    return new MapWorld<ns::HashMap<ns::U8String, ns::U8String>, ns::U8String, ns::U8String, false>();
}
int main(int argc, char **argv) { return drv_main(argc, argv); }
