#include <dirent.h>
#include "conc.h"
#include "eckit/exception/Exceptions.h"
#include "eckit/filesystem/PathName.h"
#include "eckit/io/DataHandle.h"
#include "eckit/io/FilePool.h"
#include "main_init.h"
using namespace vt;
using namespace eckit;

static int seqno = 0;
struct FP : ConcObj {
    FilePool* pool;
    std::string dir;
    std::map<int, DataHandle*> held;
    FP(const Script& s) {
        dir = scratch() + "/fp" + std::to_string(getpid()) + "_" + std::to_string(seqno++);
        mkdir(dir.c_str(), 0777);
        pool = new FilePool(s.ci(0));
    }
    ~FP() override {
        int x = system(("rm -rf " + dir).c_str());
        (void)x;
    }
    std::string path(int p) { return dir + "/f" + std::to_string(p); }
    int nopen() {
        int n  = 0;
        DIR* d = opendir("/proc/self/fd");
        while (auto* e = readdir(d)) {
            char b[4096];
            ssize_t k = readlink((std::string("/proc/self/fd/") + e->d_name).c_str(), b, sizeof b);
            if (k > 0 && std::string(b, k).compare(0, dir.size() + 1, dir + "/") == 0) {
                n++;
            }
        }
        closedir(d);
        return n;
    }
    static std::string ok(long v) { return "[\"ok\"," + jnum(v) + "]"; }
    std::string apply(const Op& o, int) override {
        const std::string& n = o.name;
        int p                = o.i(0);
        try {
            if (n == "checkout") {
                DataHandle* h = pool->checkout(PathName(path(p)));
                vsched::NoYield ny;
                held[p] = h;
                return ok(0);
            }
            if (n == "put") {
                unsigned char c = o.i(1);
                if (held[p]->write(&c, 1) != 1) {
                    return "[\"short\"]";
                }
                return ok(0);
            }
            if (n == "checkin") {
                DataHandle* h;
                {
                    vsched::NoYield ny;
                    h = held[p];
                }
                pool->checkin(h);
                return ok(0);
            }
            if (n == "remove") return ok(pool->remove(PathName(path(p))));
            if (n == "unlink") return ok(::unlink(path(p).c_str()) == 0);
            if (n == "size") return ok(pool->size());
            if (n == "usage") return ok(pool->usage());
            if (n == "open") { vsched::NoYield ny; return ok(nopen()); }
            if (n == "setcap") { pool->capacity(p); return ok(0); }
            if (n == "getcap") return ok(pool->capacity());
            if (n == "destroy") { delete pool; pool = nullptr; return ok(0); }
            if (n == "content") {
                std::ifstream f(path(p), std::ios::binary);
                if (!f) {
                    return "[\"none\"]";
                }
                std::string b((std::istreambuf_iterator<char>(f)), std::istreambuf_iterator<char>());
                return "[\"ok\"," + jbytes(b.data(), b.size()) + "]";
            }
        }
        catch (Exception& e) {
            return "[\"exc\"]";
        }
        return "[\"badop\"]";
    }
};
int main(int argc, char** argv) {
    vt_main();
    auto make = [](const Script& s) -> ConcObj* { return new FP(s); };
    return schedmain(argc, argv, [&](const Script& s) { runConc(s, make); });
}
