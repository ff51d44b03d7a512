// Locks of every kind driven by concurrent threads / simulated processes
#include "conc.h"
#include "main_init.h"
#include <set>
#include <fcntl.h>
#include "eckit/filesystem/PathName.h"
#include "eckit/io/FileLock.h"
#include "eckit/io/FileLocker.h"
#include "eckit/os/Semaphore.h"
#include "eckit/os/SharedInt.h"
#include "eckit/thread/AutoLock.h"
#include "eckit/thread/Mutex.h"
#include "eckit/thread/Once.h"
#include "eckit/thread/StaticMutex.h"
#include "eckit/thread/ThreadSingleton.h"
#include "vproc.h"
using namespace vt;
using namespace eckit;

static int made = 0, owner = 0;
static struct { int v = 0; void operator++(int) { vsched::NoYield n; v++; } void operator--(int) { vsched::NoYield n; v--; } } live;
struct V {
    int k;
    V() { int m = made; vsched::yield_hint(); made = m + 1; k = owner; live++; }
    ~V() { live--; }
};
struct S {
    int t;
    explicit S(int) : t(0) { live++; }
    ~S() { live--; }
};
static StaticMutex smutex;
static Once<V> onceV;
static ThreadSingleton<S, NewAlloc1<S, int>>* tsing = nullptr;

template <class F>
static std::string g(F f) {
    try { return "[\"ok\"," + jnum(long(f())) + "]"; }
    catch (std::exception& e) { return "[\"exc\"," + jstr(e.what()) + "]"; }
}
struct Obj : ConcObj {
    std::string kind;
    Mutex& mutex = *new Mutex;
    Semaphore* sem[16]   = {};
    SharedInt* sint[16]  = {};
    FileLock* fl[16]     = {};
    int fd[16];
    long cnt = 0;
    int depth[16] = {};
    PathName file;
    Obj(const Script& s, const std::string& f) : kind(s.cs(0)), file(f) {
        for (auto& x : fd) x = -1;
        tsing = new ThreadSingleton<S, NewAlloc1<S, int>>(NewAlloc1<S, int>(0));
        if (kind == "int" || kind == "sem" || kind == "sem2") {
            file.touch();
            for (int t = 0; t < 6; t++) {
                vproc::process(t);
                if (kind == "int") sint[t] = new SharedInt(file, 1);
                else if (kind == "sem" || t < 3 || t == 3) sem[t] = kind == "sem2" && t == 2 ? sem[1] : new Semaphore(file);
            }
        }
        if (kind == "range") {
            file.touch();
            for (int t = 0; t < 6; t++) fd[t] = ::open(file.localPath(), O_RDWR);
        }
    }
    std::string apply(const Op& o, int t) override {
        vproc::process(kind == "sem2" && t == 2 ? 1 : t);
        const std::string& n = o.name;
        if (n == "lock") return g([&] {
            if (kind == "mutex") mutex.lock();
            else if (kind == "smutex") smutex.lock();
            else if (kind == "flock") fl[t]->lock();
            else sem[t]->lock();
            return 0;
        });
        if (n == "try") return g([&] {
            return kind == "mutex" ? mutex.tryLock() : sem[t]->tryLock();
        });
        if (n == "unlock") return g([&] {
            if (kind == "mutex") mutex.unlock();
            else if (kind == "smutex") smutex.unlock();
            else if (kind == "flock") fl[t]->unlock();
            else sem[t]->unlock();
            return 0;
        });
        if (n == "bump") return g([&] {
            long c = cnt;
            vsched::yield_hint();
            vsched::yield_hint();
            cnt = c + 1;
            return cnt;
        });
        if (n == "open") return g([&] { fl[t] = new FileLock(file, o.i(1) != 0); return 0; });
        if (n == "close") return g([&] { delete fl[t]; fl[t] = nullptr; return 0; });
        if (n == "range") return g([&] {
            FileLocker l(fd[t]);
            if (o.i(3)) l.lockExclusive(o.i(1), o.i(2));
            else l.lockShared(o.i(1), o.i(2));
            return 0;
        });
        if (n == "unrange") return g([&] { FileLocker l(fd[t]); l.unlock(o.i(1), o.i(2)); return 0; });
        if (n == "limit") return g([&] { sint[t]->newLimit(o.i(1)); return 0; });
        if (n == "use") return g([&] { if (o.i(1) == 1) sint[t]->use(); else sint[t]->use(0, o.i(1)); return 0; });
        if (n == "release") return g([&] { if (o.i(1) == 1) sint[t]->release(); else sint[t]->release(0, o.i(1)); return 0; });
        if (n == "free") return g([&] { return sint[t]->free(); });
        if (n == "getlimit") return g([&] { return sint[t]->limit(); });
        if (n == "once") return g([&] { V& v = onceV; return v.k == owner ? made : -1; });
        if (n == "inst") return g([&] {
            S& s = tsing->instance();
            vsched::yield_hint();
            if (s.t == 0) s.t = t;
            return s.t;
        });
        if (n == "alive") return g([&] { return live.v; });
        return "[\"badop\"]";
    }
};

int main(int argc, char** argv) {
    vt_main();
    std::string base = std::string(getenv("VT_SCRATCH")) + "/k" + std::to_string(getpid()) + "_";
    return schedmain(argc, argv, [&](const Script& s) {
        runConc(s, [&](const Script& s) -> ConcObj* {
            vproc::points(true);
            struct timespec t;
            clock_gettime(CLOCK_MONOTONIC, &t);
            return new Obj(s, base + std::to_string(getpid()) + "_" + std::to_string(t.tv_sec * 1000000000L + t.tv_nsec));
        });
    });
}
