// Instrumented element type.  It owns a heap cell (so the sanitizer sees stale or repeated use),
// compares by value and becomes -1 when moved from.
#pragma once

// What happens to every instrumented object, for the lifetime specification (DRV_LEAK=1): per
// operation and object (an address, numbered in order of appearance) what happened to it, 1
// constructed, 2 destroyed, 3 used: the first and the last and, as 10 * a + b, every pair of
// consecutive ones that occurred.
namespace life {
struct Slot {
    long id = 0, first = 0, last = 0;
    bool pair[34] = {};
};
inline std::map<const void *, Slot> *slots = nullptr;
inline std::vector<Slot *> *touched = nullptr;
inline void put(long what, const void *p) {
    if(!blk::enabled) {
        return;
    }
    const bool was = blk::on;
    blk::on = false;
    if(!slots) {
        slots = new std::map<const void *, Slot>;
        touched = new std::vector<Slot *>;
    }
    Slot &s = (*slots)[p];
    if(s.id == 0) {
        s.id = (long)slots->size();
    }
    if(!s.first) {
        s.first = what;
        touched->push_back(&s);
    } else {
        s.pair[10 * s.last + what] = true;
    }
    s.last = what;
    blk::on = was;
}
inline std::string take() {
    std::vector<std::string> v;
    if(touched) {
        for(auto *s : *touched) {
            std::vector<long> l{s->id, s->first, s->last};
            for(long k = 0; k < 34; ++k) {
                if(s->pair[k]) {
                    l.push_back(k);
                }
                s->pair[k] = false;
            }
            v.push_back(jl(l));
            s->first = s->last = 0;
        }
        touched->clear();
    }
    return jj(v);
}
inline void begin() {
    delete slots;
    delete touched;
    slots = nullptr;
    touched = nullptr;
}
struct Init {
    Init() {
        life_take = take;
        life_begin = begin;
    }
};
inline Init init;
} // namespace life

struct Obj {
    int *p;
    Obj() noexcept : p{new int(0)} { life::put(1, this); }
    Obj(int v) noexcept : p{new int(v)} { life::put(1, this); }
    Obj(const Obj &o) noexcept : p{new int(o.use())} { life::put(1, this); }
    Obj(Obj &&o) noexcept : p{new int(o.use())} {
        life::put(1, this);
        *o.p = -1;
    }
    ~Obj() {
        life::put(2, this);
        delete p;
        p = (int *)8;
    }
    Obj &operator=(const Obj &o) noexcept {
        use();
        *p = o.use();
        return *this;
    }
    Obj &operator=(Obj &&o) noexcept {
        use();
        if(this != &o) {
            *p = o.use();
            *o.p = -1;
        }
        return *this;
    }
    int use() const {
        life::put(3, this);
        return *p;
    }
    int v() const { return use(); }
    bool operator==(const Obj &o) const { return use() == o.use(); }
    bool operator!=(const Obj &o) const { return use() != o.use(); }
    bool operator<(const Obj &o) const { return use() < o.use(); }
    bool operator>(const Obj &o) const { return use() > o.use(); }
    int operator<=>(const Obj &o) const { return use() < o.use() ? -1 : *p > *o.p ? 1 : 0; }
};

// Over-aligned and padded element.
struct alignas(64) Wide {
    int val;
    char pad[70];
    Wide() noexcept : val{0} { check(); }
    Wide(int v) noexcept : val{v} { check(); }
    Wide(const Wide &o) noexcept : val{o.val} { check(); }
    Wide(Wide &&o) noexcept : val{o.val} { check(); }
    Wide &operator=(const Wide &o) noexcept = default;
    Wide &operator=(Wide &&o) noexcept = default;
    void check() const {
        if((uintptr_t)this % alignof(Wide)) {
            abort();
        }
    }
    bool operator==(const Wide &o) const { return val == o.val; }
    bool operator!=(const Wide &o) const { return val != o.val; }
};

inline long val(const int &i) { return i; }
inline long val(const unsigned char &i) { return i; }
inline long val(const long &i) { return i; }
inline long val(const Obj &o) { return o.v(); }
inline long val(const Wide &o) { return o.val; }
