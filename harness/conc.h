// Concurrent harness: script words are "<thread> <op> args..."; thread 0 is the main thread:
// its operations before the first other-thread line run first, the rest run after all threads were joined.
#pragma once
#include <thread>
#include "common.h"
#include "vsched.h"

namespace vt {

struct ConcObj {
    virtual ~ConcObj() {}
    virtual std::string apply(const Op& o, int t) = 0;  // JSON result
};

inline std::string evjson(const Op& o);

// JSON of the event record for an operation: ints become numbers, other words strings: {"op":..,"a":[..]}
inline std::string opjson(const Op& o) {
    std::string r = "{\"op\":" + jstr(o.name) + ",\"a\":[";
    for (size_t i = 0; i < o.a.size(); i++) {
        if (i) {
            r += ",";
        }
        char* e = nullptr;
        strtol(o.a[i].c_str(), &e, 10);
        r += (*e == 0 && !o.a[i].empty()) ? o.a[i] : jstr(o.a[i]);
    }
    return r + "]}";
}
inline void call(int t, const std::string& e) {
    vsched::NoYield n;
    vsched::emit("{\"op\":\"call\",\"t\":" + std::to_string(t) + ",\"e\":" + e + "}");
}
inline void ret(int t, const std::string& r) {
    vsched::NoYield n;
    vsched::emit("{\"op\":\"ret\",\"t\":" + std::to_string(t) + ",\"r\":" + r + "}");
}
inline void onStuck(const char* why) {
    vsched::emit("{\"op\":\"stuck\"}");
}

using ObjFactory = std::function<ConcObj*(const Script&)>;

inline void runConc(const Script& s, const ObjFactory& make) {
    std::unique_ptr<ConcObj> obj(make(s));
    std::map<int, std::vector<const Op*>> prog;
    std::vector<Op> ops;
    for (auto& o : s.ops) {
        Op x;
        x.name = o.a.at(0);
        x.a.assign(o.a.begin() + 1, o.a.end());
        ops.push_back(x);
    }
    std::vector<const Op*> pre, post;
    bool seen = false;
    for (size_t i = 0; i < ops.size(); i++) {
        int t = atoi(s.ops[i].name.c_str());
        if (t == 0) {
            (seen ? post : pre).push_back(&ops[i]);
        }
        else {
            seen = true;
            prog[t].push_back(&ops[i]);
        }
    }
    auto exec = [&](int t, const Op& o) {
        call(t, opjson(o));
        std::string r = obj->apply(o, t);
        ret(t, r);
    };
    for (auto* o : pre) {
        exec(0, *o);
    }
    std::vector<std::thread> th;
    for (auto& p : prog) {
        int t = p.first;
        auto* v = &p.second;
        th.emplace_back([t, v, &exec]() {
            for (auto* o : *v) {
                exec(t, *o);
            }
        });
    }
    for (auto& t : th) {
        t.join();
    }
    for (auto* o : post) {
        exec(0, *o);
    }
    // the object's destructor is part of the run
    obj.reset();
}

// argv: scripts out n seed mode max_steps preemptions spurious mem first
inline int schedmain(int argc, char** argv, const std::function<void(const Script&)>& body,
                     const std::function<void(const char*)>& stuck = onStuck) {
    auto scripts = readScripts(argv[1]);
    vsched::Explorer x;
    x.out         = argv[2];
    x.n           = atoi(argv[3]);
    x.seed        = strtoull(argv[4], nullptr, 10);
    x.mode        = argv[5];
    x.max_steps   = atol(argv[6]);
    x.preemptions = atoi(argv[7]);
    x.spurious    = atoi(argv[8]);
    x.mem         = atoi(argv[9]) != 0;
    x.first       = atol(argv[10]);
    x.timeout_s   = 20;
    if (!getenv("VT_VERBOSE")) {
        int devnull = open("/dev/null", O_WRONLY);
        dup2(devnull, 1);
        dup2(devnull, 2);
    }
    for (size_t i = 0; i < scripts.size(); i++) {
        const Script& s = scripts[i];
        vsched::explore(x, [&]() { body(s); }, stuck, std::to_string(i));
    }
    return 0;
}

}  // namespace vt
