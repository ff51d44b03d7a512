#include <algorithm>
#include <list>
#include "conc.h"
#include "eckit/thread/ThreadPool.h"
#include "eckit/exception/Exceptions.h"
#include "main_init.h"

using namespace vt;

static void ev(const std::string& s) {
    vsched::NoYield n;
    vsched::emit(s);
}

struct Task : eckit::ThreadPoolTask {
    int k;
    std::string kind;
    int child;
    Task(int k_, const std::string& kd, int c = 0) : k(k_), kind(kd), child(c) {}
    ~Task() override { ev("{\"op\":\"del\",\"k\":" + std::to_string(k) + "}"); }
    void execute() override {
        ev("{\"op\":\"start\",\"k\":" + std::to_string(k) + "}");
        vsched::yield_hint();
        if (kind == "spawn") {
            int t = 16 + k;
            call(t, "{\"op\":\"push\",\"a\":[" + std::to_string(child) + "]}");
            pool().push(new Task(child, "ok"));
            ret(t, "[\"ok\"]");
        }
        ev("{\"op\":\"end\",\"k\":" + std::to_string(k) + ",\"fail\":" + jbool(kind == "fail") + "}");
        if (kind == "fail") {
            throw eckit::UserError("task#" + std::to_string(k) + ";");
        }
    }
};

struct Pool : ConcObj {
    eckit::ThreadPool* pool;
    std::map<int, std::pair<std::string, int>> kinds;
    Pool(const Script& s) {
        pool = new eckit::ThreadPool("pool", s.ci(0));
        // cfg words after the count: kind of task 1, 2, ... ("ok", "fail", "spawnK")
        for (size_t i = 1; i < s.cfga.size(); i++) {
            std::string k = s.cfga[i];
            if (k.substr(0, 5) == "spawn") {
                kinds[i] = {"spawn", atoi(k.c_str() + 5)};
            }
            else {
                kinds[i] = {k, 0};
            }
        }
    }
    Task* mk(int k) {
        auto p = kinds.count(k) ? kinds[k] : std::make_pair(std::string("ok"), 0);
        return new Task(k, p.first, p.second);
    }
    std::string apply(const Op& o, int) override {
        if (o.name == "push") {
            pool->push(mk(o.i(0)));
            return "[\"ok\"]";
        }
        if (o.name == "pushlist") {
            std::list<eckit::ThreadPoolTask*> l;
            for (size_t i = 0; i < o.a.size(); i++) {
                l.push_back(mk(o.i(i)));
            }
            pool->push(l);
            return l.empty() ? "[\"ok\"]" : "[\"notcleared\"]";
        }
        if (o.name == "wait") {
            pool->wait();
            return "[\"ok\"]";
        }
        if (o.name == "done") {
            return "[\"ok\"," + jbool(pool->done()) + "]";
        }
        if (o.name == "resize") {
            pool->resize(o.i(0));
            return "[\"ok\"]";
        }
        if (o.name == "waitForThreads") {
            try {
                pool->waitForThreads();
                return "[\"ok\"]";
            }
            catch (eckit::Exception& e) {
                std::string w = e.what();
                std::vector<long> ks;
                size_t p = 0;
                while ((p = w.find("task#", p)) != std::string::npos) {
                    ks.push_back(atol(w.c_str() + p + 5));
                    p += 5;
                }
                return "[\"exc\"," + jnums(ks) + "]";
            }
        }
        if (o.name == "destroy") {
            delete pool;
            pool = nullptr;
            return "[\"ok\"]";
        }
        return "[\"badop\"]";
    }
};

int main(int argc, char** argv) {
    vt_main();
    auto make = [](const Script& s) -> ConcObj* { return new Pool(s); };
    return schedmain(argc, argv, [&](const Script& s) { runConc(s, make); });
}
