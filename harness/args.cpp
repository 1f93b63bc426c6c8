// Command line parsing.  A parse runs in a process of its own, because errors may end the process.
#include "drv.hpp"
#include <pystd2026_argparse.hpp>

using namespace ns;

static std::vector<std::string> tokens(const std::string &s) {
    std::vector<std::string> v;
    size_t i = 0;
    while(i < s.size()) {
        v.push_back(s.c_str() + i);
        i += v.back().size() + 1;
    }
    return v;
}

// An argument vector whose texts end exactly where their allocations do.
struct Argv {
    std::vector<char *> texts;
    const char **v;
    int n;
    explicit Argv(const std::string &s) {
        texts.push_back(strdup("prog"));
        for(const auto &t : tokens(s)) {
            texts.push_back(strdup(t.c_str()));
        }
        n = (int)texts.size();
        v = (const char **)malloc((n + 1) * sizeof(char *));
        for(int i = 0; i < n; ++i) {
            v[i] = texts[i];
        }
        v[n] = nullptr;
    }
};

static CString cs(const std::string &s) { return CString(s.c_str(), s.size()); }

struct ArgWorld : World {
    ArgParse ap{U8String("What this does.")};
    std::vector<std::string> names;

    static void value(std::vector<long> &out, const ArgumentValue *v) {
        if(!v) {
            return;
        }
        auto text = [&](const CString &s) {
            for(size_t i = 0; i < s.size(); ++i) {
                out.push_back((unsigned char)s.c_str()[i]);
            }
        };
        if(auto *s = v->get_if<CString>()) {
            out.push_back(0);
            text(*s);
        } else if(auto *a = v->get_if<Vector<CString>>()) {
            out.push_back(1);
            for(const auto &s : *a) {
                text(s);
                out.push_back(0);
            }
        } else if(auto *b = v->get_if<bool>()) {
            out.push_back(2);
            out.push_back(*b);
        } else if(auto *i = v->get_if<int64_t>()) {
            out.push_back(3);
            for(char c : std::to_string(*i)) {
                out.push_back(c);
            }
        }
    }

    void declare(const Op &op) {
        Argument a;
        a.name = cs(op.S(0));
        a.short_arg = (char)op.I(1);
        a.long_arg = cs(op.S(2));
        a.help = U8String("Helps.");
        a.type = op.I(3) == 0 ? ArgumentType::String : op.I(3) == 1 ? ArgumentType::StringArray : op.I(3) == 2 ? ArgumentType::Boolean : ArgumentType::Integer;
        a.aaction = op.I(4) == 0 ? ArgumentAction::Store : op.I(4) == 1 ? ArgumentAction::StoreTrue : op.I(4) == 2 ? ArgumentAction::StoreFalse : ArgumentAction::AppendArray;
        const auto &d = op.L(5);
        if(!d.empty()) {
            const std::string rest = op.S(5).substr(1);
            if(d[0] == 0) {
                a.default_value = ArgumentValue(cs(rest));
            } else if(d[0] == 1) {
                Vector<CString> v;
                for(const auto &t : tokens(rest)) {
                    v.push_back(cs(t));
                }
                a.default_value = ArgumentValue(ns::move(v));
            } else if(d[0] == 2) {
                a.default_value = ArgumentValue((bool)d[1]);
            } else {
                a.default_value = ArgumentValue((int64_t)strtoll(rest.c_str(), nullptr, 10));
            }
        }
        if(!op.L(6).empty()) {
            a.minval = (int64_t)strtoll(op.S(6).c_str(), nullptr, 10);
        }
        if(!op.L(7).empty()) {
            a.maxval = (int64_t)strtoll(op.S(7).c_str(), nullptr, 10);
        }
        ap.add_argument(ns::move(a));
        names.push_back(op.S(0));
    }

    // Status and values as JSON.
    std::string parse(const std::string &args) {
        Argv av(args);
        try {
            auto r = ap.parse_args(av.n, av.v);
            if(!r) {
                return "[1]";
            }
            ParseOutput po(ns::move(*r));
            std::vector<std::string> parts{"0"};
            for(const auto &n : names) {
                std::vector<long> v, w;
                const CString name = cs(n);
                value(v, po.value_of(name.view()));
                const ParseOutput &cpo = po;
                value(w, cpo.value_of(name.view()));
                if(v != w) {
                    v.push_back(-1);
                }
                parts.push_back(jl(v));
            }
            if(po.value_of("no such name")) {
                parts.push_back("-2");
            }
            return jj(parts);
        } catch(const PyException &) {
            return "[1]";
        }
    }

    void exec(const Op &op, Ev &ev) override {
        if(op.n == "add") {
            declare(op);
        } else if(op.n == "permit") {
            ap.permit_posargs();
        } else {
            int fd[2];
            if(pipe(fd) != 0) {
                _exit(98);
            }
            const pid_t pid = fork();
            if(pid == 0) {
                close(fd[0]);
                const int null = open("/dev/null", O_WRONLY);
                dup2(null, 1);
                dup2(null, 2);
                itimerval tv{};
                tv.it_value.tv_sec = 10;
                setitimer(ITIMER_PROF, &tv, nullptr);
                std::string r;
                if(op.n == "again") {
                    parse(op.S(0));
                    r = parse(op.S(1));
                } else {
                    r = parse(op.S(0));
                }
                write_all(fd[1], r.data(), r.size());
                _exit(42);
            }
            close(fd[1]);
            std::string got;
            char buf[4096];
            ssize_t k;
            while((k = read(fd[0], buf, sizeof buf)) > 0) {
                got.append(buf, k);
            }
            close(fd[0]);
            int status = 0;
            while(waitpid(pid, &status, 0) < 0) {
            }
            if(WIFEXITED(status) && WEXITSTATUS(status) == 42) {
                ev.r = got;
            } else if(WIFEXITED(status) && WEXITSTATUS(status) == 0) {
                ev.r = "[2]";
            } else if(WIFEXITED(status) && WEXITSTATUS(status) != 99) {
                ev.r = "[1]";
            } else {
                _exit(WIFEXITED(status) ? 99 : 66); // the library crashed
            }
        }
    }
};

World *make_world(long) { return new ArgWorld; }

int main(int argc, char **argv) { return drv_main(argc, argv); }
