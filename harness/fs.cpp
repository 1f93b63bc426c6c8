// Paths, directories, globbing, files.  Every scenario works in a scratch directory of its own,
// below the (private) working directory of the check.
#include <algorithm>
#include <filesystem>
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/un.h>
#include "drv.hpp"

static void spew(const std::string &name, const std::string &data) {
    FILE *f = fopen(name.c_str(), "wb");
    if(!f || fwrite(data.data(), 1, data.size(), f) != data.size() || fclose(f) != 0) {
        perror("driver: write");
        _exit(98);
    }
}

static std::string str(const ns::CString &s) { return std::string(s.c_str(), s.size()); }
static std::string str(const ns::Path &p) { return std::string(p.c_str(), p.size()); }
static std::string str(const ns::Bytes &b) {
    std::string s;
    for(size_t i = 0; i < b.size(); ++i) {
        s.push_back((char)b.data()[i]);
    }
    return s;
}

static std::string lined(const std::vector<std::string> &lines) {
    std::vector<long> v{(long)lines.size()};
    std::string all;
    for(const auto &l : lines) {
        v.push_back((long)l.size());
        all += l;
    }
    for(unsigned char c : all) {
        v.push_back(c);
    }
    return jl(v);
}

static std::string found(const std::string *s) {
    std::vector<long> v{s ? 1 : 0};
    if(s) {
        for(unsigned char c : *s) {
            v.push_back(c);
        }
    }
    return jl(v);
}

struct FsWorld : World {
    std::string home, dir;
    FsWorld() {
        home = std::filesystem::current_path().string();
        char t[] = "fs_XXXXXX";
        if(!mkdtemp(t) || chdir(t) != 0) {
            perror("driver: scratch");
            _exit(98);
        }
        dir = home + "/" + t;
    }
    ~FsWorld() {
        if(chdir(home.c_str()) == 0) {
            std::error_code ec;
            std::filesystem::remove_all(dir, ec);
        }
    }
    std::string nm(long i) { return std::string(1, (char)('a' + i - 1)); }
    long kind(long i) {
        struct stat sb;
        if(lstat(nm(i).c_str(), &sb) != 0) {
            return 0;
        }
        if(S_ISREG(sb.st_mode)) {
            return 1;
        }
        if(S_ISDIR(sb.st_mode)) {
            return 2;
        }
        if(S_ISLNK(sb.st_mode)) {
            return stat(nm(i).c_str(), &sb) != 0 ? 3 : S_ISDIR(sb.st_mode) ? 6 : 5;
        }
        return S_ISSOCK(sb.st_mode) ? 7 : 4;
    }
    std::string proj() override { return jl({kind(1), kind(2), kind(3), kind(4)}); }

    ns::Path make(const std::string &s, bool own = false) {
        if(own) {
            return ns::Path(ns::CString(s.c_str(), s.size()));
        }
        return ns::Path(s.c_str());
    }

    void tree(const std::string &t) {
        size_t i = 0;
        while(i < t.size()) {
            const char k = t[i];
            const std::string name(t.c_str() + i + 1);
            i += name.size() + 2;
            if(k == 2) {
                mkdir(name.c_str(), 0777);
            } else if(k == 3) {
                if(symlink("nowhere", name.c_str()) != 0) {
                    perror("driver: link");
                }
            } else {
                spew(name, "");
            }
        }
    }

    void glob(const Op &op, Ev &ev) {
        std::string root = op.S(0);
        const std::string pat = op.S(1);
        const long form = op.I(2);
        std::string cut;
        if(form == 3) {
            cut = root.empty() ? dir + "/" : dir + "/";
            root = root.empty() ? dir : dir + "/" + root;
        }
        std::vector<std::string> res;
        {
            ns::Path p = make(root);
            auto add = [&](const ns::Path &q) {
                std::string s = str(q);
                if(!cut.empty() && s.compare(0, cut.size(), cut) == 0) {
                    s = s.substr(cut.size());
                }
                res.push_back(s);
            };
            auto g = p.glob(pat.c_str());
#if EPOCH == 2026
            if(form == 4) { // assigned to an empty one
                ns::GlobResult h;
                if(h.next()) {
                    res.push_back("something from nothing");
                }
                h = ns::move(g);
                g = ns::move(h);
            }
            if(form == 1) { // moved around while being read
                while(true) {
                    ns::GlobResult h(ns::move(g));
                    auto q = h.next();
                    if(!q) {
                        break;
                    }
                    add(*q);
                    g = ns::move(h);
                }
            } else if(form == 2) { // two at once, of which the other one is dropped half way
                auto h = p.glob(pat.c_str());
                h.next();
                while(auto q = g.next()) {
                    add(*q);
                    h.next();
                    if(res.size() == 3) {
                        h = p.glob("*");
                    }
                }
            } else
#endif
            {
                while(auto q = g.next()) {
                    add(*q);
                }
                if(g.next()) {
                    res.push_back("more after the end");
                }
            }
        }
        std::vector<std::string> parts;
        std::sort(res.begin(), res.end());
        for(const auto &s : res) {
            parts.push_back(jb(s));
        }
        ev.r = jj(parts);
    }

    void mapped(const Op &op, Ev &ev) {
        auto m = ns::mmap_file("f");
        if(!m) {
            ev.r = found(nullptr);
            return;
        }
        auto out = [&](const ns::MMapping &x) {
#if EPOCH == 2026
            auto sp = x.span();
#else
            auto sp = x.view();
#endif
            std::string s(sp.data(), sp.size());
            ev.r = found(&s);
        };
        if(op.I(1) == 0) {
            out(*m);
        } else if(op.I(1) == 1) {
            ns::MMapping n(ns::move(*m));
            out(n);
        } else {
            spew("g", "another one");
            auto other = ns::mmap_file("g");
            ns::MMapping n(ns::move(*other));
            n = ns::move(*m);
            n = ns::move(n);
            out(n);
        }
    }

    void absent(const Op &op) {
        // There is no way to refuse in the frozen edition.
        UNDEFINED_2025(op.I(0) > 2 || op.I(1) == 1);
        const char *name = "missing";
        if(op.I(1) == 1) {
            mkdir("directory", 0777);
            name = "directory";
        }
        bool got = false;
        switch(op.I(0)) {
        case 0: got = (bool)ns::Path(name).load_bytes(); break;
        case 1: got = (bool)ns::Path(name).load_text(); break;
        case 2: got = (bool)ns::mmap_file(name); break;
        case 3: {
            ns::File f(name, "rb");
            f.readline_bytes();
            break;
        }
        default: {
            ns::File f(name, "rb");
            for(auto &&l : f) {
                (void)l;
            }
        }
        }
        was = got;
    }
    bool was = false;
    int made = 0;

    // Where the frozen edition takes the root for an empty path, and a dot anywhere for an extension.
    static bool roots(const std::string &s) { return !s.empty() && s.find_first_not_of('/') == std::string::npos; }
    static bool dots(const std::string &s) {
        const auto end = s.find_last_not_of('/');
        const auto t = s.substr(0, end == std::string::npos ? 0 : end + 1);
        const auto d = t.rfind('.'), l = t.rfind('/');
        return d != std::string::npos && l != std::string::npos && d < l;
    }

    void exec(const Op &op, Ev &ev) override {
        const auto &o = op.n;
        UNDEFINED_2025((o == "text" || o == "join" || o == "ext" || o == "name" || o == "split" || o == "repl") && roots(op.S(0)));
        UNDEFINED_2025(o == "join" && roots(op.S(1)));
        UNDEFINED_2025((o == "ext" || o == "repl") && dots(op.S(0)));
        if(o == "text") {
            const ns::Path p = make(op.S(0), op.I(1));
            std::vector<long> v{(long)p.size(), p.is_empty(), p.is_abs()};
            for(unsigned char c : str(p)) {
                v.push_back(c);
            }
            if(strlen(p.c_str()) != p.size()) {
                v.push_back(-1);
            }
            ev.r = jl(v);
        } else if(o == "join") {
            const ns::Path p = make(op.S(0));
            const std::string q = op.S(1);
            ev.r = jb(str(op.I(2) == 0 ? p / make(q, true) : op.I(2) == 1 ? p / q.c_str() : p / ns::CString(q.c_str(), q.size())));
        } else if(o == "ext") {
            ev.r = jb(str(make(op.S(0)).extension()));
        } else if(o == "name") {
            ev.r = jb(str(make(op.S(0)).filename()));
        } else if(o == "split") {
            std::string s;
            for(const auto &c : make(op.S(0)).split()) {
                s += str(c);
                s.push_back('\0');
            }
            ev.r = jb(s);
        } else if(o == "repl") {
            ns::Path p = make(op.S(0));
            const std::string e = op.S(1);
            if(op.I(2) == 0) {
                p.replace_extension(ns::CStringView(e.data(), e.size()));
            } else {
                p.replace_extension(e.c_str());
            }
            ev.r = jb(str(p));
        } else if(o == "mk") {
            const auto n = nm(op.I(0));
            switch(op.I(1)) {
            case 1: spew(n, op.S(2)); break;
            case 2: mkdir(n.c_str(), 0777); break;
            case 3: (void)!symlink("nowhere", n.c_str()); break;
            case 4: mkfifo(n.c_str(), 0666); break;
            case 6:
                mkdir(("dir_" + n).c_str(), 0777);
                (void)!symlink(("dir_" + n).c_str(), n.c_str());
                break;
            case 7: {
                sockaddr_un a = {};
                a.sun_family = AF_UNIX;
                a.sun_path[0] = n[0];
                const int s = socket(AF_UNIX, SOCK_STREAM, 0);
                if(s < 0 || bind(s, (sockaddr *)&a, sizeof(a)) != 0) {
                    perror("driver: socket");
                    ev.r = "[-1]"; // something is there that should not be
                }
                close(s);
                break;
            }
            default:
                spew("data_" + std::to_string(++made), op.S(2));
                (void)!symlink(("data_" + std::to_string(made)).c_str(), n.c_str());
            }
        } else if(o == "rm") {
            std::filesystem::remove_all(nm(op.I(0)));
        } else if(o == "query") {
            const ns::Path p = make(op.I(1) ? dir + "/" + nm(op.I(0)) : nm(op.I(0)));
            ev.r = jl({p.exists(), p.is_file(), p.is_dir()});
        } else if(o == "rename") {
            ns::Path p = make(nm(op.I(0))), q = make(nm(op.I(1)));
            ev.r = jl({p.rename_to(q)});
        } else if(o == "load") {
            const bool dirload = !op.a[0].list;
            UNDEFINED_2025(dirload && (kind(op.I(0)) == 2 || kind(op.I(0)) == 6));
            const std::string name = dirload ? nm(op.I(0)) : "f";
            if(!dirload) {
                spew(name, op.S(0));
            }
            auto b = make(name).load_bytes();
            std::string s = b ? str(*b) : "";
            ev.r = found(b ? &s : nullptr);
        } else if(o == "loadtext" || o == "loadtextz") {
            spew("f", op.S(0));
            auto b = make("f").load_text();
            std::string s = b ? std::string(b->c_str(), b->size_bytes()) : "";
            ev.r = found(b ? &s : nullptr);
        } else if(o == "mmap") {
            spew("f", op.S(0));
            mapped(op, ev);
#if EPOCH == 2025
        } else if(!probing && (o == "peek" || o == "skip" || o == "eof")) {
            unknown();
        } else if(o == "linesz" || o == "readlinez") {
            spew("f", op.S(0));
            ns::File f("f", "rb");
            std::vector<std::string> v;
            if(o == "linesz") {
                for(auto &&l : f) {
                    v.push_back(str(l));
                }
            } else {
                while(!f.eof()) {
                    v.push_back(str(f.readline_bytes()));
                }
            }
            ev.r = lined(v);
#endif
        } else if(o == "lines" || o == "peek" || o == "readline" || o == "skip" || o == "eof") {
            spew("f", op.S(0));
            ns::File f("f", "rb");
            std::vector<std::string> v;
            if(o == "lines") {
                for(auto &&l : f) {
                    v.push_back(str(l));
                }
            } else if(o == "peek") {
                auto it = f.begin();
                for(; it != f.end(); ++it) {
                    ns::Bytes &&a = *it;
                    const std::string first = str(a);
                    v.push_back(str(*it));
                    if(v.back() != first) {
                        v.push_back("two looks at one line differ");
                    }
                }
            } else if(o == "readline") {
                while(!f.eof()) {
                    v.push_back(str(f.readline_bytes()));
                }
            } else if(o == "skip") {
                bool take = true;
                std::string s;
                auto it = f.begin();
                for(; it != f.end(); ++it) {
                    if(take) {
                        s += str(*it);
                    }
                    take = !take;
                }
                ev.r = jb(s);
                return;
            } else {
                for(long i = 0; i < op.I(1); ++i) {
                    f.readline_bytes();
                }
                ev.r = jl({f.eof()});
                return;
            }
            ev.r = lined(v);
        } else if(o == "absent") {
            absent(op);
            ev.r = jl({was});
        } else if(o == "tree") {
            tree(op.S(0));
        } else if(o == "glob") {
            glob(op, ev);
        }
    }
};

World *make_world(long) { return new FsWorld; }

int main(int argc, char **argv) { return drv_main(argc, argv); }
