// CacheManager over scratch roots: sequential histories with crash points, or concurrent simulated processes
#include "conc.h"
#include "crash.h"
#include "main_init.h"
#include <fstream>
#include <sstream>
#include "eckit/container/BTree.h"
#include "eckit/container/CacheManager.h"
#include "eckit/filesystem/PathExpander.h"
#include "eckit/os/AutoUmask.h"
#include "eckit/config/LibEcKit.h"
#include "eckit/exception/Exceptions.h"
#include "eckit/filesystem/PathName.h"
#include "vproc.h"

using namespace vt;
using namespace eckit;

static void writefile(const PathName& p, const std::string& s) {
    int fd = ::open(p.localPath(), O_CREAT | O_WRONLY | O_TRUNC, 0666);
    size_t h = s.size() / 2;
    if (fd < 0 || ::write(fd, s.data(), h) < 0 || ::write(fd, s.data() + h, s.size() - h) < 0) throw std::runtime_error("write");
    ::close(fd);
}
static std::string content(long id, long size) {
    std::string s = std::to_string(id) + " ";
    while (long(s.size()) < size - 1) s += 'x';
    return s + "\n";
}
// identity of complete content; -1 for anything else
static long identity(const std::string& s) {
    return !s.empty() && s.back() == '\n' ? atol(s.c_str()) : -1;
}
struct NoLock {
    explicit NoLock(const PathName&) {}
    void lock() {}
    void unlock() {}
};
template <class LOCK>
struct Traits {
    using value_type = std::string;
    using Locker     = LOCK;
    static const char* name() { return "vt"; }
    static const char* extension() { return ".ext"; }
    static int version() { return 3; }
    static void save(const CacheManagerBase&, const value_type& v, const PathName& path) { writefile(path, v); }
    static void load(const CacheManagerBase&, value_type& v, const PathName& path) {
        std::ifstream in(path.localPath());
        std::stringstream b;
        b << in.rdbuf();
        v = b.str();
    }
};
static int creating[16];  // key -> creators at work

struct Any {
    virtual ~Any() {}
    virtual std::string get(long k, long m, long id, long size) = 0;
};
template <class LOCK>
struct Man : Any {
    using M = CacheManager<Traits<LOCK>>;
    M m;
    bool miss;
    Man(const std::string& roots, bool miss, size_t max) : m("vtloader", roots, miss, max), miss(miss) {}
    struct C : M::CacheContentCreator {
        long k, mode, id, size;
        bool ran = false, over = false;
        void create(const PathName& p, std::string& v, bool& saved) override {
            ran = true;
            struct Count {
                long k;
                Count(long k) : k(k) { creating[k]++; }
                ~Count() { creating[k]--; }
            } n(k);
            over |= creating[k] > 1;
            for (int i = 0; i < 3; i++) vsched::yield_hint();
            v = content(id, size);
            if (mode == 1) { writefile(p, v); saved = true; }
            if (mode == 2) {
                over |= creating[k] > 1;
                throw std::runtime_error("creator");
            }
            for (int i = 0; i < 3; i++) vsched::yield_hint();
            over |= creating[k] > 1;
        }
    };
    std::string get(long k, long mode, long id, long size) override {
        C c;
        c.k = k; c.mode = mode; c.id = id; c.size = size;
        std::string v;
        try {
            PathName p = m.getOrCreate("d/k" + std::to_string(k), c, v);
        }
        catch (UserError& e) { return "[\"miss\"]"; }
        catch (std::exception& e) {
            if (c.over) return "[\"two creators\"]";
            if (!strcmp(e.what(), "creator")) return "[\"fail\"]";
            return "[\"exc\"," + jstr(e.what()) + "]";
        }
        if (c.over && !std::is_same<LOCK, NoLock>::value) return "[\"two creators\"]";
        return std::string(c.ran ? "[\"created\"," : "[\"loaded\",") + jnum(identity(v)) + "]";
    }
};

struct Obj : ConcObj {
    std::string base, roots, lock;
    std::vector<std::string> rootv;
    std::set<std::string> ro;
    long max;
    bool miss, conc;
    std::unique_ptr<Any> mans[16];
    Obj(const Script& s, const std::string& b, bool conc) : base(b), conc(conc) {
        // cfg: lock max miss w...
        lock = s.cs(0);
        max  = s.ci(1);
        miss = s.ci(2);
        for (size_t i = 3; i < s.cfga.size(); i++) {
            std::string r = base + "/r" + std::to_string(i - 2);
            PathName(r).mkdir();
            if (!s.ci(i)) ro.insert(r);
            rootv.push_back(r);
            roots += (i > 3 ? ":" : "") + r;
        }
        vproc::unwritable = [this](const char* p) {
            for (auto& r : ro) if (!strncmp(p, r.c_str(), r.size())) return true;
            return false;
        };
        vproc::now = 1600000000;
        memset(creating, 0, sizeof creating);
    }
    ~Obj() { vproc::unwritable = nullptr; }
    Any* man(int t) {
        auto& m = mans[t];
        if (!m) {
            if (lock == "flock") m.reset(new Man<CacheManagerFileFlock>(roots, miss, max));
            else if (lock == "sem") m.reset(new Man<CacheManagerFileSemaphoreLock>(roots, miss, max));
            else m.reset(new Man<NoLock>(roots, miss, max));
        }
        return m.get();
    }
    std::string apply(const Op& o, int t) override {
        if (conc) vproc::process(t);
        vproc::now += 1;
        if (o.name == "get") return man(t)->get(o.i(0), o.i(1), o.i(2), o.i(3));
        if (o.name == "crash") return crash::run(o.i(0), o.i(1), [&] { return man(t)->get(o.i(2), o.i(3), o.i(4), o.i(5)); });
        if (o.name == "reopen") { mans[t].reset(); return "[\"ok\",0]"; }
        if (o.name == "plant") {
            PathName p(rootv.at(o.i(0) - 1) + "/vt/3/d/k" + std::to_string(o.i(1)) + ".ext");
            p.dirName().mkdir();
            p.unlink();
            writefile(p, content(o.i(2), 10));
            return "[\"ok\",0]";
        }
        if (o.name == "list") {
            std::vector<std::string> v;
            for (size_t r = 0; r < rootv.size(); r++) {
                for (int k = 0; k < 10; k++) {
                    PathName p(rootv[r] + "/vt/3/d/k" + std::to_string(k) + ".ext");
                    if (!p.exists()) continue;
                    std::ifstream in(p.localPath());
                    std::stringstream b;
                    b << in.rdbuf();
                    v.push_back("[" + jnum(r + 1) + "," + jnum(k) + "," + jnum(identity(b.str())) + "]");
                }
            }
            return "[\"ok\"," + jlist(v, [](auto& x) { return x; }) + "]";
        }
        return "[\"badop\"]";
    }
};

int main(int argc, char** argv) {
    vt_main();
    std::string base = std::string(getenv("VT_SCRATCH")) + "/c" + std::to_string(getpid()) + "_";
    static int n = 0;
    auto unique = [&] {
        struct timespec t;
        clock_gettime(CLOCK_MONOTONIC, &t);
        return base + std::to_string(getpid()) + "_" + std::to_string(t.tv_sec * 1000000000L + t.tv_nsec);
    };
    if (argc > 4) {
        return schedmain(argc, argv, [&](const Script& s) {
            runConc(s, [&](const Script& s) -> ConcObj* {
                vproc::points(true);
                return new Obj(s, unique(), true);
            });
        });
    }
    return seqmain(argc, argv, [&](const Script& s) {
        Obj obj(s, unique(), false);
        for (auto& o : s.ops) put(obj.apply(o, 0));
    }, 60);
}
