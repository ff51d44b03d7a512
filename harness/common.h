// Shared by the sequential harnesses: read scripts of operations, run each script in a forked child,
// print one JSON result per operation.  The specification is the only judge of the results.
#pragma once
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <fcntl.h>
#include <unistd.h>
#include <exception>
#include <fstream>
#include <functional>
#include <iostream>
#include <map>
#include <memory>
#include <sstream>
#include <string>
#include <vector>

namespace vt {

inline std::string jstr(const std::string& s) {
    std::string r = "\"";
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') {
            r += '\\';
            r += char(c);
        }
        else if (c < 32 || c > 126) {
            char b[8];
            snprintf(b, sizeof b, "\\u%04x", c);
            r += b;
        }
        else {
            r += char(c);
        }
    }
    return r + "\"";
}
inline std::string jnum(long long v) {
    return std::to_string(v);
}
inline std::string jbool(bool b) {
    return b ? "true" : "false";
}
template <class C, class F>
std::string jlist(const C& c, F f) {
    std::string r = "[";
    bool first = true;
    for (const auto& x : c) {
        if (!first) {
            r += ",";
        }
        first = false;
        r += f(x);
    }
    return r + "]";
}
template <class C>
std::string jnums(const C& c) {
    return jlist(c, [](auto x) { return std::to_string((long long)x); });
}
inline std::string jbytes(const void* p, size_t n) {
    const unsigned char* b = (const unsigned char*)p;
    std::string r = "[";
    for (size_t i = 0; i < n; i++) {
        if (i) {
            r += ",";
        }
        r += std::to_string(int(b[i]));
    }
    return r + "]";
}

struct Op {
    std::string name;
    std::vector<std::string> a;
    long i(size_t k) const { return k < a.size() ? atol(a[k].c_str()) : 0; }
    const std::string& s(size_t k) const {
        static std::string e;
        return k < a.size() ? a[k] : e;
    }
    // the bytes "1,2,3" (decimal); "-" is empty
    std::vector<unsigned char> bytes(size_t k) const {
        std::vector<unsigned char> r;
        for (long v : ints(k)) {
            r.push_back((unsigned char)v);
        }
        return r;
    }
    std::vector<long> ints(size_t k) const {
        std::vector<long> r;
        const std::string& x = s(k);
        if (x == "-" || x.empty()) {
            return r;
        }
        std::stringstream ss(x);
        std::string t;
        while (std::getline(ss, t, ',')) {
            r.push_back(atol(t.c_str()));
        }
        return r;
    }
};

inline std::string pctdec(const std::string& x) {
    std::string r;
    for (size_t i = 0; i < x.size(); i++) {
        if (x[i] == '%' && i + 2 < x.size()) {
            r += char(strtol(x.substr(i + 1, 2).c_str(), nullptr, 16));
            i += 2;
        }
        else {
            r += x[i];
        }
    }
    return r;
}

struct Script {
    std::string cfg;                 // free text after BEGIN
    std::vector<std::string> cfga;   // its words
    std::vector<Op> ops;
    long ci(size_t k) const { return k < cfga.size() ? atol(cfga[k].c_str()) : 0; }
    std::string cs(size_t k) const { return k < cfga.size() ? cfga[k] : std::string(); }
};

inline std::vector<std::string> words(const std::string& l) {
    std::vector<std::string> r;
    std::stringstream ss(l);
    std::string t;
    while (ss >> t) {
        r.push_back(pctdec(t));
    }
    return r;
}

inline std::vector<Script> readScripts(const std::string& path) {
    std::vector<Script> r;
    std::ifstream in(path);
    std::string l;
    while (std::getline(in, l)) {
        auto w = words(l);
        if (w.empty()) {
            continue;
        }
        if (w[0] == "BEGIN") {
            r.emplace_back();
            r.back().cfga.assign(w.begin() + 1, w.end());
        }
        else if (w[0] != "END") {
            Op o;
            o.name = w[0];
            o.a.assign(w.begin() + 1, w.end());
            r.back().ops.push_back(o);
        }
    }
    return r;
}

struct Out {
    long len;
    long done;
    char buf[32 << 20];
};
inline Out*& out() {
    static Out* o = nullptr;
    return o;
}
inline void put(const std::string& s) {
    Out* o = out();
    if (o->len + long(s.size()) + 1 < long(sizeof(o->buf))) {
        memcpy(o->buf + o->len, s.data(), s.size());
        o->len += s.size();
        o->buf[o->len++] = '\n';
    }
}

// main of a sequential harness: argv[1] scripts, argv[2] results
// results: for each script a line "BEGIN", one JSON value per executed op, optional {"crash":..}/{"hang":1}, "END"
inline int seqmain(int argc, char** argv, const std::function<void(const Script&)>& runScript, int timeout_s = 20) {
    if (argc < 3) {
        return 2;
    }
    auto scripts = readScripts(argv[1]);
    FILE* f      = fopen(argv[2], "w");
    out() = (Out*)mmap(nullptr, sizeof(Out), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    for (auto& s : scripts) {
        out()->len  = 0;
        out()->done = 0;
        fflush(f);
        pid_t p = fork();
        if (p == 0) {
            int devnull = open("/dev/null", O_WRONLY);
            if (!getenv("VT_VERBOSE")) {
                dup2(devnull, 1);
                dup2(devnull, 2);
            }
            alarm(timeout_s);
            try {
                runScript(s);
            }
            catch (std::exception& e) {
                put(std::string("{\"uncaught\":") + jstr(e.what()) + "}");
            }
            out()->done = 1;
            _exit(0);
        }
        int st = 0;
        while (waitpid(p, &st, 0) < 0) {
        }
        fprintf(f, "BEGIN\n");
        fwrite(out()->buf, 1, out()->len, f);
        if (!out()->done) {
            if (WIFSIGNALED(st) && WTERMSIG(st) == SIGALRM) {
                fprintf(f, "{\"hang\":1}\n");
            }
            else {
                fprintf(f, "{\"crash\":%d}\n", WIFSIGNALED(st) ? WTERMSIG(st) : 1000 + WEXITSTATUS(st));
            }
        }
        fprintf(f, "END\n");
    }
    fclose(f);
    return 0;
}

inline std::string scratch() {
    const char* d = getenv("VT_SCRATCH");
    return d ? d : "/tmp/vt_scratch";
}

}  // namespace vt
