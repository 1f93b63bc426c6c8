// Regular expressions.
#include "drv.hpp"
#include <pystd_config.hpp>
#if EPOCH == 2025
#define PCRE2_CODE_UNIT_WIDTH 8
#include <pcre2.h>
#else
#include <pystd2026_regex.hpp>
#endif

using namespace ns;

struct RegexWorld : World {
    void search(const Op &op, Ev &ev) {
        const std::string ps = op.S(0), ts = op.S(2);
        U8String pat(ps.data(), ps.size());
        U8String text(ts.data(), ts.size());
        U8Regex re(pat);
        if(op.I(3) == 2) { // the same expression searches something else first
            try {
                U8String other("ab\nba");
                auto m = regex_search(re, other);
            } catch(const PyException &) {
            }
        }
        auto first = regex_search(re, text);
        U8Match m(ns::move(first));
        const size_t n = m.num_groups();
        std::vector<std::string> parts{jn((long)n)};
        for(size_t g = 0; g <= n; ++g) {
            std::vector<long> v;
#if EPOCH == 2025
            // A group that took no part can not be asked for.
            auto *pairs = pcre2_get_ovector_pointer((pcre2_match_data *)m.h());
            if(!probing && g < pcre2_get_ovector_count((pcre2_match_data *)m.h()) && pairs[2 * g] == PCRE2_UNSET) {
                parts.push_back("[]");
                continue;
            }
#endif
            bool refused = false;
            std::string sub;
            try {
                const U8StringView view = m.group(g);
                const char *b = view.raw_view().data();
                v = {(long)(b - text.c_str()), (long)view.size_bytes()};
            } catch(const PyException &) {
                refused = true;
            }
            try {
                const U8String s = m.get_submatch(g);
                sub.assign(s.c_str(), s.size_bytes());
                if(refused || sub != ts.substr(v[0], v[1])) {
                    v.push_back(-1);
                }
            } catch(const PyException &) {
                if(!refused) {
                    v.push_back(-2);
                }
            }
            parts.push_back(jl(v));
        }
        for(size_t g : {n + 1, n + 2, n + 100, (size_t)-1, (size_t)1 << 63}) {
            bool refused = false;
            if(EPOCH == 2025 && g == n + 1 && !probing) {
                continue;
            }
            try {
                m.group(g);
            } catch(const PyException &) {
                refused = true;
            }
            try {
                m.get_submatch(g);
                refused = false;
            } catch(const PyException &) {
            }
            if(!refused) {
                parts.push_back("-3");
            }
        }
        ev.r = jj(parts);
    }
    void exec(const Op &op, Ev &ev) override {
        if(op.n == "search") {
            search(op, ev);
        } else if(op.n == "bad") {
            const std::string ps = op.S(0);
            U8String pat(ps.data(), ps.size());
            U8Regex re(pat);
        }
    }
};

World *make_world(long) { return new RegexWorld; }

int main(int argc, char **argv) { return drv_main(argc, argv); }
