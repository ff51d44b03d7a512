// TxnLog driven by scripts: sequential histories with crash points, or concurrent simulated processes
#include "conc.h"
#include "crash.h"
#include "main_init.h"
#include <atomic>
#include <sys/sem.h>
#include "eckit/container/MappedArray.h"
#include "eckit/container/SharedMemArray.h"
#include "eckit/exception/Exceptions.h"
#include "eckit/filesystem/PathName.h"
#include "eckit/serialisation/Reanimator.h"
#include "eckit/serialisation/Stream.h"
#include "eckit/thread/AutoLock.h"
#include "eckit/transaction/TxnEvent.h"
#include "eckit/transaction/TxnLog.h"
#include "vproc.h"

using namespace vt;
using namespace eckit;

class Ev : public TxnEvent {
public:
    long v;
    Ev(long x) : v(x) {}
    Ev(Stream& s) : TxnEvent(s) { s >> v; }
    void encode(Stream& s) const override { TxnEvent::encode(s); s << v; }
    const ReanimatorBase& reanimator() const override { return reanimator_; }
    static const ClassSpec& classSpec() { return classSpec_; }
    static ClassSpec classSpec_;
    static Reanimator<Ev> reanimator_;
};
ClassSpec Ev::classSpec_ = {&TxnEvent::classSpec(), "VtEv"};
Reanimator<Ev> Ev::reanimator_;

using L = std::vector<std::pair<long, long>>;
struct Rec : TxnRecoverer<Ev> {
    L l;
    std::atomic<int> n{0};
    void push(Ev* e) override { l.push_back({long(e->transactionID()), e->v}); delete e; n++; }
};
struct Fnd : TxnFinder<Ev> {
    L l;
    bool o;
    Fnd(bool old) : o(old) {}
    bool found(Ev& e) override { l.push_back({long(e.transactionID()), e.v}); return false; }
    bool active() override { return !o; }
    bool old() override { return o; }
};
static std::string lst(const L& l) {
    return "[\"ok\"," + jlist(l, [](auto& x) { return "[" + jnum(x.first) + "," + jnum(x.second) + "]"; }) + "]";
}

struct Obj : ConcObj {
    std::string name;
    TxnLog<Ev>* logs[16] = {};
    std::vector<long> ids;      // by order of begin
    std::map<long, long> vals;
    bool conc;
    Obj(const std::string& n, bool c) : name(n), conc(c) { log(0); }
    TxnLog<Ev>* log(int t) {
        auto& l = logs[t];
        if (!l) l = new TxnLog<Ev>(name);
        return l;
    }
    PathName next() { return PathName("~/txn/" + name + "/next"); }
    void dropsem() {
        key_t k = ftok(next().localPath(), 1);
        int id  = k == -1 ? -1 : semget(k, 1, 0666);
        if (id >= 0) semctl(id, 0, IPC_RMID, 0);
    }
    ~Obj() { if (!conc) dropsem(); }
    std::string doit(const std::string& n, const std::vector<long>& a, int t, bool keep) {
        TxnLog<Ev>& l = *log(t);
        if (n == "begin") {
            Ev e(a[0]);
            l.begin(e);
            if (keep) { vsched::NoYield ny; ids.push_back(long(e.transactionID())); }
            return "[\"ok\"," + jnum(long(e.transactionID())) + "]";
        }
        auto ev = [&](size_t k) {
            Ev* e = new Ev(0);
            e->transactionID(k <= ids.size() ? ids[k - 1] : 999999);
            return e;
        };
        if (n == "update") {
            std::unique_ptr<Ev> e(ev(a[0]));
            if (!l.exists(*e)) return "[\"none\"]";
            e->v = a[1];
            l.update(*e);
            return "[\"ok\",0]";
        }
        if (n == "end") {
            std::unique_ptr<Ev> e(ev(a[0]));
            if (!l.exists(*e)) return "[\"none\"]";
            // the caller passes the event as it stands in the log
            Fnd f(false);
            l.find(f);
            for (auto& x : f.l) if (x.first == long(e->transactionID())) e->v = x.second;
            l.end(*e, a[1] != 0);
            return "[\"ok\",0]";
        }
        if (n == "exists") {
            std::unique_ptr<Ev> e(ev(a[0]));
            return "[\"ok\"," + jnum(l.exists(*e)) + "]";
        }
        if (n == "find" || n == "findold") {
            Fnd f(n == "findold");
            l.find(f);
            if (n == "find") std::sort(f.l.begin(), f.l.end());
            return lst(f.l);
        }
        if (n == "recover" || n == "recoveryoung" || n == "recoverthread") {
            Rec* r = new Rec;
            l.recover(*r, n == "recoverthread", n == "recoveryoung" ? 100000 : -10);
            if (n == "recoverthread") {
                for (int i = 0, last = -1; i < 400; i++) {
                    usleep(5000);
                    if (i % 12 == 11) { if (r->n == last) break; last = r->n; }
                }
            }
            return lst(r->l);
        }
        if (n == "reopen") { logs[t] = nullptr; log(t); return "[\"ok\",0]"; }
        if (n == "lose") {
            dropsem();
            next().unlink();
            logs[t] = nullptr;
            Rec r;
            log(t)->recover(r, false, -10);
            // identifiers of transactions that had ended may be issued again: those calls no longer name anything
            for (auto& i : ids) if (!std::any_of(r.l.begin(), r.l.end(), [&](auto& x) { return x.first == i; })) i = 999999;
            return lst(r.l);
        }
        return "[\"badop\"]";
    }
    static std::string guard(const std::function<std::string()>& f) {
        try { return f(); }
        catch (std::exception& e) { return "[\"exc\"," + jstr(e.what()) + "]"; }
    }
    std::string apply(const Op& o, int t) override {
        if (conc) vproc::process(t);
        std::vector<long> a;
        if (o.name != "crash") {
            for (size_t i = 0; i < o.a.size(); i++) a.push_back(o.i(i));
            return guard([&] { return doit(o.name, a, t, true); });
        }
        for (size_t i = 3; i < o.a.size(); i++) a.push_back(o.i(i));
        bool beg = o.s(2) == "begin";
        std::string r = crash::run(o.i(0), o.i(1), [&] { return guard([&] { return doit(o.s(2), a, t, false); }); });
        if (beg && r.compare(0, 6, "[\"ok\",") == 0) ids.push_back(atol(r.c_str() + 6));
        return r;
    }
};

static std::string unique() {
    struct timespec t;
    clock_gettime(CLOCK_MONOTONIC, &t);
    return std::to_string(getpid()) + "_" + std::to_string(t.tv_sec * 1000000000L + t.tv_nsec);
}

int main(int argc, char** argv) {
    vt_main();
    std::string base = "l" + std::to_string(getpid()) + "_";
    if (argc > 4) {
        return schedmain(argc, argv, [&](const Script& s) {
            runConc(s, [&](const Script&) -> ConcObj* {
                vproc::points(true);
                return new Obj(base + unique(), true);
            });
        });
    }
    return seqmain(argc, argv, [&](const Script& s) {
        Obj obj(base + unique(), false);
        for (auto& o : s.ops) put(obj.apply(o, 0));
    }, 60);
}
