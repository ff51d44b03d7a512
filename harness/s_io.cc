// data handles composed in every way, driven by scripts; the configuration is a tree in prefix form
#include "common.h"
#include "main_init.h"
#include <functional>
#include <memory>
#include "eckit/exception/Exceptions.h"
#include "eckit/filesystem/PathName.h"
#include "eckit/io/AIOHandle.h"
#include "eckit/io/BitIO.h"
#include "eckit/io/Buffer.h"
#include "eckit/io/BufferedHandle.h"
#include "eckit/io/EmptyHandle.h"
#include "eckit/io/FileDescHandle.h"
#include "eckit/io/FileHandle.h"
#include "eckit/io/HandleBuf.h"
#include "eckit/io/MMappedFileHandle.h"
#include "eckit/io/MemoryHandle.h"
#include "eckit/io/MultiHandle.h"
#include "eckit/io/PartFileHandle.h"
#include "eckit/io/PartHandle.h"
#include "eckit/io/PeekHandle.h"
#include "eckit/io/PooledFile.h"
#include "eckit/io/PooledHandle.h"
#include "eckit/io/RawFileHandle.h"
#include "eckit/io/SeekableHandle.h"
#include "eckit/io/SharedHandle.h"
#include "eckit/io/StatsHandle.h"
#include "eckit/io/StdioBuf.h"
#include "eckit/io/TeeHandle.h"
#include "eckit/serialisation/MemoryStream.h"
#include "eckit/serialisation/ResizableMemoryStream.h"

using namespace vt;
using namespace eckit;

static std::string ok(const std::string& v) { return "[\"ok\"," + v + "]"; }
static std::string ok(long v) { return ok(jnum(v)); }
static const std::string ERR = "[\"err\"]";
static std::string dir;

static std::string bytes(long n, long b) {
    std::string r;
    for (long i = 1; i <= n; i++) r += char((b + i * 7 + i / 5) % 256);
    return r;
}
static std::string file(long n, long b) {
    std::string p = dir + "/f" + std::to_string(n) + "_" + std::to_string(b);
    std::ofstream(p, std::ios::binary) << bytes(n, b);
    return p;
}
// a source of the kit: short reads, or failing from some offset on
struct Src : DataHandle {
    std::string d;
    long chunk, bad, how, p = 0;
    Src(const std::string& d, long chunk, long bad, long how) : d(d), chunk(chunk), bad(bad), how(how) {}
    void print(std::ostream& s) const override { s << "Src"; }
    Length openForRead() override { p = 0; return d.size(); }
    long read(void* b, long n) override {
        long lim = bad >= 0 ? bad : d.size();
        if (bad >= 0 && p >= bad && p < long(d.size()) && n > 0) {
            if (how) throw ReadError("bad");
            return -1;
        }
        long m = std::min(n, lim - p);
        if (chunk && m > chunk) m = chunk;
        if (m < 0) m = 0;
        memcpy(b, d.data() + p, m);
        p += m;
        return m;
    }
    void close() override {}
    Length size() override { return d.size(); }
    Length estimate() override { return d.size(); }
    Offset position() override { return p; }
    Offset seek(const Offset& o) override { p = o; return o; }
    bool canSeek() const override { return true; }
    void rewind() override { p = 0; }
    void restartReadFrom(const Offset& o) override { p = o; }
};
static bool top = true;
struct Tree {
    const Script& s;
    size_t i;
    std::vector<DataHandle*> shared;
    explicit Tree(const Script& s, size_t i) : s(s), i(i) {}
    long n() { return s.ci(i++); }
    DataHandle* make() {
        std::string k = s.cs(i++);
        if (k == "empty") return new EmptyHandle();
        if (k == "mem") {
            long a = n(), b = n();
            std::string d = bytes(a, b);
            char* p = new char[d.size() + 1];
            memcpy(p, d.data(), d.size());
            return new MemoryHandle((const void*)p, d.size());
        }
        if (k == "file") { long a = n(), b = n(); return new FileHandle(file(a, b)); }
        if (k == "path") { long a = n(), b = n(); return PathName(file(a, b)).fileHandle(); }
        if (k == "pooled") { long a = n(), b = n(); return new PooledHandle(file(a, b)); }
        if (k == "mmap") { long a = n(), b = n(); return new MMappedFileHandle(file(a, b)); }
        if (k == "raw") { long a = n(), b = n(); return new RawFileHandle(file(a, b)); }
        if (k == "fd") { long a = n(), b = n(); return new FileDescHandle(::open(file(a, b).c_str(), O_RDONLY), true); }
        if (k == "chunk") { long a = n(), b = n(), z = n(); return new Src(bytes(a, b), z, -1, 0); }
        if (k == "bad") { long a = n(), b = n(), at = n(), how = n(); return new Src(bytes(a, b), 0, at, how); }
        if (k == "pfile" || k == "part") {
            DataHandle* h = nullptr;
            std::string f;
            if (k == "part") h = make();
            else { long a = n(), b = n(); f = file(a, b); }
            long m = n();
            OffsetList o;
            LengthList l;
            for (long j = 0; j < m; j++) { o.push_back(n()); l.push_back(n()); }
            if (h) return m == 1 ? new PartHandle(h, o[0], l[0]) : new PartHandle(h, o, l);
            return m == 1 ? new PartFileHandle(f, o[0], l[0]) : new PartFileHandle(f, o, l);
        }
        if (k == "multi") {
            long m = n();
            MultiHandle* h = new MultiHandle();
            for (long j = 0; j < m; j++) *h += make();
            return h;
        }
        if (k == "buf") { long z = n(); DataHandle* h = make(); return new BufferedHandle(h, z); }
        if (k == "stats") return new StatsHandle(make());
        if (k == "shared") { DataHandle* h = make(); shared.push_back(h); h->openForRead(); return new SharedHandle(*h); }
        if (k == "peek") return new PeekHandle(make());
        if (k == "seekable") { DataHandle* h = make(); return new SeekableHandle(dynamic_cast<PeekHandle*>(h)); }
        if (k == "fopen") { fopen = true; return make(); }
        put("[\"badtree\"]");
        _exit(0);
    }
    bool fopen = false;
};
static DataHandle* viaStream(DataHandle* h) {
    Buffer b(1 << 16);
    MemoryStream w(b);
    w << *h;
    MemoryStream r(b);
    return Reanimator<DataHandle>::reanimate(r);
}
static void readTree(const Script& s) {
    Tree t(s, 1);
    std::unique_ptr<DataHandle> h(t.make());
    std::unique_ptr<DataHandle> h2;
    FILE* f   = nullptr;
    bool dead = false;
    std::vector<char> buf(1 << 16);
    auto op = [&](const Op& o) -> std::string {
        const std::string& n = o.name;
        auto* pk = dynamic_cast<PeekHandle*>(h.get());
        if (n == "open") {
            if (t.fopen) { f = h->openf("r"); return f ? ok(0) : ERR; }
            return ok((long long)h->openForRead());
        }
        if (n == "close") {
            if (t.fopen) { int r = fclose(f); f = nullptr; return r ? ERR : ok(0); }
            h->close();
            return ok(0);
        }
        if (n == "read") {
            memset(buf.data(), 0x5a, 64 + o.i(0));
            if (f) {
                clearerr(f);
                size_t k = fread(buf.data(), 1, o.i(0), f);
                if (ferror(f) && !k) return ERR;
                return ok(jbytes(buf.data(), k));
            }
            long k = h->read(buf.data(), o.i(0));
            for (int j = 0; j < 64; j++) if (buf[o.i(0) + j] != 0x5a) return "[\"overrun\"]";
            return k < 0 ? ERR : ok(jbytes(buf.data(), k));
        }
        if (n == "pos") return ok(f ? ftell(f) : (long long)h->position());
        if (n == "est") return ok((long long)h->estimate());
        if (n == "size") return ok((long long)h->size());
        if (n == "seek") {
            if (f) return fseek(f, o.i(0), SEEK_SET) ? ERR : ok(o.i(0));
            return ok((long long)h->seek(o.i(0)));
        }
        if (n == "seekcur") return fseek(f, o.i(0), SEEK_CUR) ? ERR : ok(0);
        if (n == "seekend") return fseek(f, o.i(0), SEEK_END) ? ERR : ok(0);
        if (n == "skip" || n == "skippeeked") { h->skip(o.i(0)); return ok(0); }
        if (n == "rewind") { if (f) ::rewind(f); else h->rewind(); return ok(0); }
        if (n == "restart") { h->restartReadFrom(o.i(0)); return ok(0); }
        if (n == "peek") return ok(pk->peek(o.i(0)));
        if (n == "peekn") { long k = pk->peek(buf.data(), o.i(0), o.i(1)); return ok(jbytes(buf.data(), k)); }
        if (n == "clear") { dynamic_cast<SeekableHandle&>(*h).clear(); return ok(0); }
        if (n == "clone") { h.reset(h->clone()); return ok(0); }
        if (n == "stream") { h.reset(viaStream(h.get())); return ok(0); }
        if (n == "compress") { h->compress(); return ok(0); }
        if (n == "copy") {
            MemoryHandle m;
            long long k = h->copyTo(m, o.i(0));
            std::string r = m.str();
            if (k != (long long)r.size()) return "[\"length\"]";
            return ok(jbytes(r.data(), r.size()));
        }
        if (n == "compare") {
            size_t j = 0;
            while (s.cs(j) != "/") j++;
            Tree t2(s, j + 1);
            if (!h2) h2.reset(t2.make());
            return ok(h->compare(*h2));
        }
        return "[\"badop\"]";
    };
    for (auto& o : s.ops) {
        if (dead) { put("[\"dead\"]"); continue; }
        std::string r;
        try { r = op(o); }
        catch (std::exception& e) { r = ERR; }
        if (r == ERR) dead = true;
        put(r);
    }
}
// a sink of the kit: takes n bytes, then: 0 short, 1 throws, 2 negative; 3: fails when it is closed
struct Sink : DataHandle {
    std::string& d;
    long n, how;
    size_t p = 0;
    Sink(std::string& d, long n, long how) : d(d), n(n), how(how) {}
    void print(std::ostream& s) const override { s << "Sink"; }
    void openForWrite(const Length&) override { p = 0; d.clear(); }
    long write(const void* b, long len) override {
        long m = len;
        if (long(p) + len > n) {
            if (how == 1) throw WriteError("bad");
            if (how == 2) return -1;
            m = std::max(0L, n - long(p));
        }
        if (d.size() < p + m) d.resize(p + m);
        memcpy(&d[0] + p, b, m);
        p += m;
        return m;
    }
    void close() override { if (how == 3) throw WriteError("bad close"); }
    void flush() override {}
    Offset position() override { return p; }
    Offset seek(const Offset& o) override { p = o; return o; }
    bool canSeek() const override { return true; }
    void rewind() override { p = 0; }
};
struct WTree {
    const Script& s;
    size_t i = 1;
    int serial = 0, tag;
    std::vector<std::function<std::string()>> leaves;
    std::vector<std::unique_ptr<DataHandle>> keep;
    std::string root;
    long total = 0;
    WTree(const Script& s, int tag) : s(s), tag(tag) {}
    long n() { return s.ci(i++); }
    std::string path() {
        std::string p = dir + "/w" + std::to_string(tag) + "_" + std::to_string(serial++);
        ::unlink(p.c_str());
        leaves.push_back([p] {
            std::ifstream f(p, std::ios::binary);
            std::stringstream o;
            o << f.rdbuf();
            return o.str();
        });
        return p;
    }
    DataHandle* make() {
        std::string k = s.cs(i++);
        if (k == "file") return new FileHandle(path());
        if (k == "raw") return new RawFileHandle(path());
        if (k == "aio") { long z = n(); return new AIOHandle(path(), z, 1024, z % 2); }
        if (k == "fd") return new FileDescHandle(::open(path().c_str(), O_RDWR | O_CREAT, 0666), true);
        if (k == "mem") {
            long z = n();
            auto b = std::make_shared<std::string>(z, '\0');
            leaves.push_back([b] { return *b; });
            return new MemoryHandle((void*)&(*b)[0], z);
        }
        if (k == "grow" || k == "own") {
            auto* m = new MemoryHandle(size_t(n()), k == "grow");
            leaves.push_back([m] { return std::string((const char*)m->data(), (long long)m->size()); });
            return m;
        }
        if (k == "sink") {
            long z = n(), how = n();
            auto b = std::make_shared<std::string>();
            leaves.push_back([b] { return *b; });
            return new Sink(*b, z, how);
        }
        if (k == "buf") { long z = n(); DataHandle* h = make(); return new BufferedHandle(h, z); }
        if (k == "stats") return new StatsHandle(make());
        if (k == "shared") { DataHandle* h = make(); keep.emplace_back(h); h->openForWrite(0); return new SharedHandle(*h); }
        if (k == "tee") {
            long m = n();
            std::vector<DataHandle*> v;
            for (long j = 0; j < m; j++) v.push_back(make());
            return new TeeHandle(v);
        }
        if (k == "multi") {
            long m = n();
            MultiHandle* h = new MultiHandle();
            long sum = 0;
            for (long j = 0; j < m; j++) { long l = n(); sum += l; *h += make(); *h += Length(l); }
            total = sum;
            return h;
        }
        if (k == "fopen" || k == "ostream") { root = k; return make(); }
        put("[\"badtree\"]");
        _exit(0);
    }
};
static void writeTree(const Script& s) {
    static int tag = 0;
    WTree t(s, tag++ % 4);
    std::unique_ptr<DataHandle> h(t.make());
    FILE* f = nullptr;
    std::unique_ptr<HandleBuf> hb;
    std::unique_ptr<std::ostream> os;
    bool dead = false;
    auto content = [&] {
        std::string r = "[";
        for (auto& l : t.leaves) { std::string d = l(); r += (r.size() > 1 ? "," : "") + jbytes(d.data(), d.size()); }
        return r + "]";
    };
    auto op = [&](const Op& o) -> std::string {
        const std::string& n = o.name;
        if (n == "open" || n == "append") {
            if (t.root == "fopen") { f = h->openf(n == "open" ? "w" : "a"); return f ? ok(0) : ERR; }
            if (n == "open") h->openForWrite(t.total);
            else h->openForAppend(0);
            if (t.root == "ostream") { hb.reset(new HandleBuf(*h, o.a.size())); os.reset(new std::ostream(hb.get())); }
            return ok(0);
        }
        if (n == "write") {
            std::string d;
            for (long i = 1; i <= o.i(1); i++) d += char((o.i(0) + i * 3) % 256);
            long k;
            if (f) {
                clearerr(f);
                k = fwrite(d.data(), 1, d.size(), f);
                if (ferror(f)) return ERR;
            }
            else if (os) {
                os->write(d.data(), d.size());
                if (!*os) return ERR;
                k = d.size();
            }
            else k = h->write(d.data(), d.size());
            return k < 0 ? ERR : ok(k);
        }
        if (n == "close") {
            if (f) { FILE* g = f; f = nullptr; return fclose(g) ? ERR : ok(content()); }
            if (os) { os->flush(); if (!*os) return ERR; }
            h->close();
            return ok(content());
        }
        if (n == "flush") {
            if (f) return fflush(f) ? ERR : ok(0);
            if (os) { os->flush(); if (!*os) return ERR; }
            h->flush();
            return ok(content());
        }
        if (n == "pos") return ok(f ? ftell(f) : (long long)h->position());
        if (n == "seek") {
            if (f) return fseek(f, o.i(0), SEEK_SET) ? ERR : ok(o.i(0));
            return ok((long long)h->seek(o.i(0)));
        }
        if (n == "rewind") { h->rewind(); return ok(0); }
        return "[\"badop\"]";
    };
    for (auto& o : s.ops) {
        if (dead) { put("[\"dead\"]"); continue; }
        std::string r;
        try { r = op(o); }
        catch (std::exception& e) { r = ERR; }
        if (r == ERR) dead = true;
        put(r);
    }
}
int main(int argc, char** argv) {
    vt_main();
    dir = scratch() + "/io";
    return seqmain(argc, argv, [&](const Script& s) {
        mkdir(scratch().c_str(), 0777);
        mkdir(dir.c_str(), 0777);
        if (s.cs(0) == "read") readTree(s);
        if (s.cs(0) == "write") writeTree(s);
    });
}
