// readers of pooled files, each a cursor of its own
#include <fstream>
#include <sys/stat.h>
#include <unistd.h>
#include "conc.h"
#include "eckit/exception/Exceptions.h"
#include "eckit/io/PooledFile.h"
#include "eckit/io/PooledFileDescriptor.h"
#include "eckit/io/PooledHandle.h"
#include "main_init.h"

using namespace vt;
using namespace eckit;

static const int SIZE[] = {40, 3, 7};
static std::string path(int f) {
    return scratch() + "/pooled" + std::to_string(f);
}
static void make(int f) {
    std::string r;
    for (int i = 1; i <= SIZE[f]; i++) r += char((f + i * 7 + i / 5) % 256);
    std::ofstream(path(f), std::ios::binary) << r;
}
struct Pooled : ConcObj {
    std::unique_ptr<PooledFile> pf[6];
    std::unique_ptr<PooledHandle> ph[6];
    std::unique_ptr<PooledFileDescriptor> pd[6];
    Pooled() {
        mkdir(scratch().c_str(), 0777);
        make(0);
        make(1);
        ::unlink(path(2).c_str());
    }
    static std::string ok(long v) { return "[\"ok\"," + std::to_string(v) + "]"; }
    std::string apply(const Op& o, int) override {
        int x                = o.i(0);
        const std::string& n = o.name;
        char buf[256];
        try {
            if (n == "create") { make(2); return ok(0); }
            if (n == "new") {
                std::string k = o.a.at(1);
                if (k == "PF") pf[x].reset(new PooledFile(path(o.i(2))));
                if (k == "PH") ph[x].reset(new PooledHandle(path(o.i(2))));
                if (k == "PD") pd[x].reset(new PooledFileDescriptor(path(o.i(2)), true));
                return ok(0);
            }
            if (n == "del") { pf[x].reset(); ph[x].reset(); pd[x].reset(); return ok(0); }
            if (n == "open") {
                if (ph[x]) return ok(ph[x]->openForRead());
                pf[x] ? pf[x]->open() : pd[x]->open();
                return ok(0);
            }
            if (n == "close") { ph[x] ? ph[x]->close() : pf[x] ? pf[x]->close() : pd[x]->close(); return ok(0); }
            if (n == "read") {
                long k = ph[x] ? ph[x]->read(buf, o.i(1)) : pf[x] ? pf[x]->read(buf, o.i(1)) : pd[x]->read(buf, o.i(1));
                return "[\"ok\"," + jbytes(buf, k) + "]";
            }
            if (n == "seek") return ok(ph[x] ? (long)ph[x]->seek(o.i(1)) : pf[x] ? pf[x]->seek(o.i(1)) : pd[x]->seek(o.i(1)));
            if (n == "end") return ok(pf[x] ? pf[x]->seekEnd() : pd[x]->seekEnd());
            if (n == "pos") return ok(ph[x]->position());
        }
        catch (std::exception& e) { return "[\"err\"]"; }
        return "[\"badop\"]";
    }
};
int main(int argc, char** argv) {
    vt_main();
    auto mk = [](const Script& s) -> ConcObj* { return new Pooled(); };
    return schedmain(argc, argv, [&](const Script& s) { runConc(s, mk); });
}
