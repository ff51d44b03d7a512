// ProducerConsumer, AsyncHandle, DblBuffer/saveInto/copyTo under controlled schedules
#include <set>
#include "conc.h"
#include "eckit/io/AsyncHandle.h"
#include "eckit/io/DataHandle.h"
#include "eckit/io/DblBuffer.h"
#include "eckit/runtime/ProducerConsumer.h"
#include "main_init.h"

using namespace vt;
using namespace eckit;

static void ev(const std::string& s) {
    vsched::NoYield n;
    vsched::emit(s);
}
static std::string N(long v) {
    return std::to_string(v);
}
static long num(const std::string& w, const char* tag) {
    size_t p = w.find(tag);
    return p == std::string::npos ? -1 : atol(w.c_str() + p + strlen(tag));
}

// ---- ProducerConsumer: cfg pc <slots> <items> <pfail item or 0> <cfail item or 0> <rounds>
struct P : Producer<int> {
    int n, fail, k = 0;
    P(int n_, int f) : n(n_), fail(f) {}
    bool done() override {
        ev("{\"op\":\"done\",\"b\":" + jbool(k == n) + "}");
        return k == n;
    }
    void produce(int& x) override {
        k++;
        ev("{\"op\":\"pstart\",\"k\":" + N(k) + "}");
        vsched::yield_hint();
        bool f = (k == fail);
        x      = f ? -1 : k;
        vsched::yield_hint();
        ev("{\"op\":\"pend\",\"k\":" + N(k) + ",\"ok\":" + jbool(!f) + "}");
        if (f) {
            throw UserError("producer#" + N(k));
        }
    }
};
struct C : Consumer<int> {
    int fail;
    C(int f) : fail(f) {}
    void consume(int& x) override {
        int k = x;
        ev("{\"op\":\"cstart\",\"k\":" + N(k) + "}");
        vsched::yield_hint();
        if (x != k) {
            k = -2;  // payload changed while being consumed
        }
        ev("{\"op\":\"cend\",\"k\":" + N(k) + ",\"ok\":" + jbool(k != fail) + "}");
        if (k == fail) {
            throw UserError("consumer#" + N(k));
        }
    }
};
static void prodcons(const Script& s) {
    ProducerConsumer<int> pc(s.ci(1));
    for (int r = 0; r < s.ci(5); r++) {
        P p(s.ci(2), r ? 0 : s.ci(3));
        C c(r ? 0 : s.ci(4));
        ev("{\"op\":\"call\"}");
        try {
            pc.execute(p, c);
            ev("{\"op\":\"ret\",\"r\":[\"ok\"]}");
        }
        catch (Exception& e) {
            std::string w = e.what();
            long a = num(w, "producer#"), b = num(w, "consumer#");
            ev("{\"op\":\"ret\",\"r\":[\"exc\",[" + std::string(a >= 0 ? "\"p\"," : "\"c\",") + N(a >= 0 ? a : b) + "]]}");
        }
    }
}

// ---- AsyncHandle: cfg async <max> <rounding> <fault at write i or 0> <kind>
struct Sink : DataHandle {
    int fault, i = 0;
    std::string kind;
    Sink(int f, const std::string& k) : fault(f), kind(k) {}
    void print(std::ostream& o) const override { o << "Sink"; }
    void openForWrite(const Length&) override {}
    void openForAppend(const Length&) override {}
    long write(const void* p, long n) override {
        i++;
        bool f        = (i == fault);
        std::string a = jbytes(p, n);
        vsched::yield_hint();
        ev("{\"op\":\"wr\",\"a\":" + a + ",\"out\":\"" + (f ? (kind == "throw" ? "boom" : "written") : "ok") + "\"}");
        vsched::yield_hint();
        if (f) {
            if (kind == "throw") {
                throw WriteError("boom");
            }
            return n - 1;
        }
        return n;
    }
    void flush() override { ev("{\"op\":\"hflush\"}"); }
    void close() override { ev("{\"op\":\"hclose\"}"); }
};
static void async(const Script& s) {
    Sink sink(s.ci(3), s.cs(4));
    AsyncHandle* h = new AsyncHandle(sink, s.ci(1), s.ci(2));
    for (auto& o : s.ops) {
        // a write is "write n v": n bytes of value v
        std::vector<unsigned char> b;
        std::string e = "{\"op\":\"" + o.name + "\",\"a\":[]}";
        if (o.name == "write") {
            b.assign(o.i(0), (unsigned char)o.i(1));
            e = "{\"op\":\"write\",\"a\":" + jbytes(b.data(), b.size()) + "}";
        }
        ev("{\"op\":\"call\",\"e\":" + e + "}");
        std::string r = "[\"ok\"]";
        try {
            if (o.name == "write") {
                if (h->write(b.data(), b.size()) != long(b.size())) {
                    r = "[\"short\"]";
                }
            }
            else if (o.name == "open") {
                h->openForWrite(0);
            }
            else if (o.name == "flush") {
                h->flush();
            }
            else if (o.name == "close") {
                h->close();
            }
            else if (o.name == "destroy") {
                delete h;
                h = nullptr;
            }
        }
        catch (Exception& x) {
            std::string w = x.what();
            r             = std::string("[\"exc\",\"") + (w.find("boom") != std::string::npos ? "boom" : w.find("written") != std::string::npos ? "written" : "?") + "\"]";
        }
        ev("{\"op\":\"ret\",\"r\":" + r + "}");
    }
}

// ---- transfers: cfg xfer <mode dbl|save|copy> <N> <est> <slots> <bufsize> <maxs> <chunks a,b,..> <rfaults i:kind:p;..> <wfaults>
struct Fault {
    int i;
    std::string kind;
    long p;
};
static std::vector<Fault> faults(const std::string& x) {
    std::vector<Fault> r;
    std::stringstream ss(x);
    std::string t;
    while (std::getline(ss, t, ';')) {
        if (t == "-") {
            continue;
        }
        std::stringstream s2(t);
        std::string a, b, c;
        std::getline(s2, a, ':');
        std::getline(s2, b, ':');
        std::getline(s2, c, ':');
        r.push_back({atoi(a.c_str()), b, atol(c.c_str())});
    }
    return r;
}
static long written;
struct XSrc : DataHandle {
    long n, est, pos = 0;
    int calls = 0;
    std::vector<long> chunks;
    std::vector<Fault> fl;
    void print(std::ostream& o) const override { o << "XSrc"; }
    Length estimate() override { return est; }
    std::string title() const override { return "XSrc"; }
    Length openForRead() override {
        ev("{\"op\":\"ropen\"}");
        return est;
    }
    long read(void* b, long len) override {
        calls++;
        vsched::yield_hint();
        for (auto& f : fl) {
            if (f.i == calls) {
                if (f.kind == "restart") {
                    vsched::NoYield atomic;
                    long p = std::min(f.p, written);
                    ev("{\"op\":\"rrestart\",\"p\":" + N(p) + "}");
                    throw RestartTransfer(Offset(p));
                }
                ev("{\"op\":\"rfault\"}");
                if (f.kind == "neg") {
                    return -1;
                }
                throw ReadError("rfault");
            }
        }
        long k = std::min(len, n - pos);
        if (!chunks.empty()) {
            k = std::min(k, chunks[(calls - 1) % chunks.size()]);
        }
        unsigned char* c = (unsigned char*)b;
        for (long i = 0; i < k; i++) {
            c[i] = (unsigned char)(pos + i);
        }
        pos += k;
        ev("{\"op\":\"rd\",\"n\":" + N(k) + "}");
        return k;
    }
    void restartReadFrom(const Offset& o) override {
        pos = o;
        ev("{\"op\":\"readfrom\",\"p\":" + N(pos) + "}");
    }
    void close() override { ev("{\"op\":\"rclose\"}"); }
};
struct XDst : DataHandle {
    int calls = 0;
    std::vector<Fault> fl;
    void print(std::ostream& o) const override { o << "XDst"; }
    std::string title() const override { return "XDst"; }
    void openForWrite(const Length& l) override { ev("{\"op\":\"wopen\",\"n\":" + N((long long)l) + "}"); }
    long write(const void* b, long len) override {
        calls++;
        vsched::yield_hint();
        for (auto& f : fl) {
            if (f.i == calls) {
                if (f.kind == "restart") {
                    long p = std::min(f.p, written);
                    ev("{\"op\":\"wrestart\",\"p\":" + N(p) + "}");
                    throw RestartTransfer(Offset(p));
                }
                ev("{\"op\":\"wfault\"}");
                if (f.kind == "short") {
                    return len - 1;
                }
                throw WriteError("wfault");
            }
        }
        std::string a = len < 0 ? "[-1]" : jbytes(b, len);
        vsched::NoYield atomic;
        written += len;
        ev("{\"op\":\"wr\",\"b\":" + a + "}");
        return len;
    }
    void restartWriteFrom(const Offset& o) override {
        written = o;
        ev("{\"op\":\"writefrom\",\"p\":" + N(written) + "}");
    }
    void close() override { ev("{\"op\":\"wclose\"}"); }
};
static void xfer(const Script& s) {
    written = 0;
    XSrc a;
    XDst b;
    a.n   = s.ci(2);
    a.est = s.ci(3);
    {
        Op o;
        o.a.push_back(s.cs(7));
        a.chunks = o.ints(0);
    }
    a.fl = faults(s.cs(8));
    b.fl = faults(s.cs(9));
    ev("{\"op\":\"call\"}");
    std::string r;
    try {
        long long n;
        if (s.cs(1) == "dbl") {
            DblBuffer d(s.ci(4), s.ci(5));
            n = d.copy(a, b);
        }
        else if (s.cs(1) == "save") {
            n = a.saveInto(b);
        }
        else {
            n = a.copyTo(b, s.ci(5), s.ci(6));
        }
        r = "[\"ok\"," + N(n) + "]";
    }
    catch (Exception& e) {
        r = "[\"exc\"]";
    }
    catch (RestartTransfer&) {
        r = "[\"exc\"]";
    }
    ev("{\"op\":\"ret\",\"r\":" + r + "}");
}

int main(int argc, char** argv) {
    vt_main();
    return schedmain(argc, argv, [&](const Script& s) {
        if (s.cs(0) == "pc") {
            prodcons(s);
        }
        else if (s.cs(0) == "async") {
            async(s);
        }
        else {
            xfer(s);
        }
    });
}
