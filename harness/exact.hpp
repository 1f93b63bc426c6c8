#pragma once
// A heap copy without any slack, so that reads past (or before) the text are seen.
struct Exact {
    char *p;
    size_t n;
    Exact(const std::string &s, bool term) : n{s.size()} {
        p = (char *)malloc(n + (term ? 1 : 0) ? n + (term ? 1 : 0) : 1);
        memcpy(p, s.data(), n);
        if(term) {
            p[n] = 0;
        }
    }
    Exact(const Exact &) = delete;
    ~Exact() { free(p); }
};
