#include "drv.hpp"
#include "obj.hpp"

template<typename T> struct VecWorld : World {
    typedef ns::Vector<T> V;
    alignas(V) char mem[2][sizeof(V)];
    V &v(long i) { return *(V *)mem[i]; }
    VecWorld() {
        new(mem[0]) V();
        new(mem[1]) V();
    }
    ~VecWorld() {
        v(0).~V();
        v(1).~V();
    }
    static std::vector<T> mk(const std::vector<long> &l) {
        std::vector<T> r;
        for(auto i : l) {
            r.emplace_back((int)i);
        }
        return r;
    }
    static std::string list(const V &x) {
        std::vector<long> r;
        for(size_t i = 0; i < x.size(); ++i) {
            r.push_back(val(x.begin()[i]));
        }
        return jl(r);
    }
    std::string proj() override { return jj({list(v(0)), list(v(1))}); }
    void exec(const Op &op, Ev &ev) override {
        const auto &n = op.n;
        V &c = v(op.I(0));
        const V &cc = c;
        if(n == "push") {
            const T t((int)op.I(1));
            c.push_back(t);
        } else if(n == "pushm") {
            c.push_back(T((int)op.I(1)));
        } else if(n == "emplace") {
            c.emplace_back((int)op.I(1));
        } else if(n == "pushself") {
            UNDEFINED_2025(c.capacity() > c.size());
            if(op.Z(1) < c.size()) {
                c.push_back(cc[op.Z(1)]);
            }
        } else if(n == "emplself") {
            UNDEFINED_2025(true);
            if(op.Z(1) < c.size()) {
                c.emplace_back(cc[op.Z(1)]);
            }
        } else if(n == "fill") {
            UNDEFINED_2025(op.I(1) > 2000); // every push copies the whole array
            for(long i = 1; i <= op.I(1); ++i) {
                c.push_back(T((int)((i * 7 + op.I(2)) % 100)));
            }
        } else if(n == "popn") {
            for(long i = 0; i < op.I(1); ++i) {
                c.pop_back();
            }
        } else if(n == "appendsub") {
            const V &s = v(op.I(1));
            if(op.Z(3) <= s.size() && op.Z(2) <= op.Z(3) && s.size() > 0) {
                c.append(s.begin() + op.Z(2), s.begin() + op.Z(3));
            }
        } else if(n == "pop") {
            auto o = c.pop_back();
            if(o) {
                ev.r = jl({val(*o)});
            }
        } else if(n == "clear") {
            c.clear();
        } else if(n == "reserve") {
            c.reserve(op.Z(1));
            ev.r = jl({c.capacity() >= c.size(), c.capacity() >= op.Z(1)});
        } else if(n == "append") {
            auto t = mk(op.L(1));
            c.append(t.data(), t.data() + t.size());
        } else if(n == "assign") {
            auto t = mk(op.L(1));
            c.assign(t.data(), t.data() + t.size());
        } else if(n == "ctor") {
            auto t = mk(op.L(1));
            V tmp(t.data(), t.data() + t.size());
            c = ns::move(tmp);
        } else if(n == "appendv") {
            const V &s = v(op.I(1));
            if(s.size() > 0) {
                c.append(s.begin(), s.end());
            }
        } else if(n == "assignv") {
            const V &s = v(op.I(1));
            if(s.size() > 0) {
                c.assign(s.begin(), s.end());
            } else if(&s != &c) {
                c.clear();
            }
        } else if(n == "copy") {
            V tmp(v(op.I(1)));
            c = ns::move(tmp);
        } else if(n == "move") {
            c = ns::move(v(op.I(1)));
        } else if(n == "movector") {
            c.~V();
            new(mem[op.I(0)]) V(ns::move(v(op.I(1))));
        } else if(n == "get") {
            ev.r = jl({val(c[op.Z(1)])});
        } else if(n == "cget") {
            ev.r = jl({val(cc[op.Z(1)])});
        } else if(n == "at") {
            ev.r = both([&] { return val(c.at(op.Z(1))); }, [&] { return val(cc.at(op.Z(1))); });
        } else if(n == "pushmself") {
            UNDEFINED_2025(true);
            if(op.Z(1) < c.size()) {
                c.push_back(ns::move(c[op.Z(1)]));
                c[op.Z(1)] = T(77); // what is left behind is not specified
            }
        } else if(n == "set") {
            c[op.Z(1)] = T((int)op.I(2));
        } else if(n == "front") {
            ev.r = both([&] { return val(c.front()); }, [&] { return val(cc.front()); });
        } else if(n == "back") {
            ev.r = both([&] { return val(c.back()); }, [&] { return val(cc.back()); });
        } else if(n == "size") {
            ev.r = jl({(long)c.size(), c.is_empty()});
        } else if(n == "iter") {
            std::vector<long> r;
            for(const auto &e : cc) {
                r.push_back(val(e));
            }
            size_t i = 0;
            for(auto it = cc.cbegin(); it != cc.cend(); ++it, ++i) {
                if(i >= r.size() || val(*it) != r[i] || &*it != &c.begin()[i]) {
                    r.push_back(-7);
                    break;
                }
            }
            if(i != c.size() || c.begin() + i != c.end() || cc.end() != cc.cend()) {
                r.push_back(-8);
            }
            ev.r = jl(r);
        } else if(n == "eq") {
            ev.r = jl({cc == v(op.I(1)), cc != v(op.I(1))});
        }
#if EPOCH == 2026
        else if(n == "span") {
            std::vector<long> r;
            auto s = cc.span();
            auto w = c.span();
            for(size_t i = 0; i < s.size(); ++i) {
                r.push_back(&s[i] == &w[i] ? val(s[i]) : -7);
            }
            if(w.size() != s.size()) {
                r.push_back(-8);
            }
            ev.r = jl(r);
        } else if(n == "appdef") {
            c.append_with_default(op.Z(1));
        } else if(n == "uat") {
            if(op.Z(1) < c.size()) {
                ev.r = both([&] { return val(c.unsafe_at(op.Z(1))); }, [&] { return val(cc.unsafe_at(op.Z(1))); });
            }
        }
#endif
        else {
            unknown();
        }
    }
};

template<typename T> struct StackWorld : World {
    typedef ns::Stack<T> S;
    alignas(S) char mem[2][sizeof(S)];
    S &v(long i) { return *(S *)mem[i]; }
    StackWorld() {
        new(mem[0]) S();
        new(mem[1]) S();
    }
    ~StackWorld() {
        v(0).~S();
        v(1).~S();
    }
    std::string one(S &s) {
        const S &cs = s;
        if(s.is_empty() || s.size() == 0) {
            return jl({(long)s.size()});
        }
        return jl({(long)s.size(), val(s.top()), val(cs.top())});
    }
    std::string proj() override { return jj({one(v(0)), one(v(1))}); }
    void exec(const Op &op, Ev &ev) override {
        const auto &n = op.n;
        S &c = v(op.I(0));
        if(n == "push") {
            c.push(T((int)op.I(1)));
        } else if(n == "pushself") {
            UNDEFINED_2025(true);
            if(c.size() > 0) {
                c.push(c.top());
            }
        } else if(n == "pop") {
            c.pop();
        } else if(n == "fill") {
            UNDEFINED_2025(op.I(1) > 2000); // every push copies the whole array
            for(long i = 1; i <= op.I(1); ++i) {
                c.push(T((int)((i * 7 + op.I(2)) % 100)));
            }
        } else if(n == "popn") {
            for(long i = 0; i < op.I(1); ++i) {
                c.pop();
            }
        } else if(n == "clear") {
            c.clear();
        } else if(n == "top") {
            ev.r = jl({val(c.top())});
        } else if(n == "set") {
            c.top() = T((int)op.I(1));
        } else if(n == "move") {
            c = ns::move(v(op.I(1)));
        } else if(n == "movector") {
            c.~S();
            new(mem[op.I(0)]) S(ns::move(v(op.I(1))));
        } else {
            unknown();
        }
    }
};

World *make_world(long kind) {
    switch(kind) {
    case 0:
        return new VecWorld<int>();
    case 1:
        return new VecWorld<Obj>();
    case 2:
        return new VecWorld<Wide>();
    case 4:
        return new StackWorld<int>();
    case 5:
        return new StackWorld<Obj>();
    default:
        return new VecWorld<unsigned char>();
    }
}
int main(int argc, char **argv) { return drv_main(argc, argv); }
