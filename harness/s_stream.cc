// eckit::Stream over its media, driven by scripts.  cfg: medium cap
#include "common.h"
#include "eckit/filesystem/PathName.h"
#include "eckit/io/Buffer.h"
#include "eckit/io/FileHandle.h"
#include "eckit/io/MemoryHandle.h"
#include "eckit/serialisation/FileStream.h"
#include "eckit/serialisation/FstreamStream.h"
#include "eckit/serialisation/HandleStream.h"
#include "eckit/serialisation/IfstreamStream.h"
#include "eckit/serialisation/MemoryStream.h"
#include "eckit/serialisation/PipeStream.h"
#include "eckit/serialisation/ResizableMemoryStream.h"
#include "eckit/serialisation/Streamable.h"
#include "main_init.h"

using namespace vt;
using namespace eckit;

static std::string ok(const std::string& v) {
    return "[\"ok\"," + v + "]";
}
static std::string ok(long v) {
    return ok(jnum(v));
}
static std::string hex(const std::string& s) {
    std::string r;
    char b[4];
    for (unsigned char c : s) {
        snprintf(b, 4, "%02x", c);
        r += b;
    }
    return r;
}
static std::string unhex(const std::string& s) {
    std::string r;
    for (size_t i = 0; i + 1 < s.size(); i += 2) r += char(strtol(s.substr(i, 2).c_str(), nullptr, 16));
    return r;
}

class N0 : public Streamable {
public:
    long long v_;
    std::vector<N0*> kids_;
    N0(long long v) : v_(v) {}
    N0(Stream& s) : Streamable(s) {
        s >> v_;
        int n;
        s >> n;
        for (int i = 0; i < n; i++) {
            N0* k = Reanimator<N0>::reanimate(s);
            if (!k) throw SeriousBug("no child");
            kids_.push_back(k);
        }
    }
    void encode(Stream& s) const override {
        Streamable::encode(s);
        s << v_ << int(kids_.size());
        for (auto* k : kids_) s << *k;
    }
    virtual std::string show(const char* c = "n0", const std::string& y = "") const {
        return "[" + jstr(c) + "," + jstr(std::to_string(v_)) + "," + jlist(kids_, [](N0* k) { return k->show(); }) + "," + jstr(hex(y)) + "]";
    }
    const ReanimatorBase& reanimator() const override { return reanimator_; }
    static const ClassSpec& classSpec() { return classSpec_; }
    static ClassSpec classSpec_;
    static Reanimator<N0> reanimator_;
};
ClassSpec N0::classSpec_ = {&Streamable::classSpec(), "n0"};
Reanimator<N0> N0::reanimator_;
class N1 : public N0 {
public:
    std::string y_;
    N1(long long v, const std::string& y) : N0(v), y_(y) {}
    N1(Stream& s) : N0(s) { s >> y_; }
    void encode(Stream& s) const override {
        N0::encode(s);
        s << y_;
    }
    std::string show(const char* c, const std::string&) const override { return N0::show("n1", y_); }
    const ReanimatorBase& reanimator() const override { return reanimator_; }
    static const ClassSpec& classSpec() { return classSpec_; }
    static ClassSpec classSpec_;
    static Reanimator<N1> reanimator_;
};
ClassSpec N1::classSpec_ = {&N0::classSpec(), "n1"};
Reanimator<N1> N1::reanimator_;

// prefix notation: class value nkids kids... [string]
static N0* build(const std::vector<std::string>& w, size_t& i) {
    std::string c = w.at(i++);
    long long v   = atoll(w.at(i++).c_str());
    int n         = atoi(w.at(i++).c_str());
    std::vector<N0*> kids;
    for (int k = 0; k < n; k++) kids.push_back(build(w, i));
    N0* r = c == "n1" ? new N1(v, unhex(w.at(i++).substr(1))) : new N0(v);
    r->kids_ = kids;
    return r;
}
// reads short now and then
struct Chunk : DataHandle {
    std::string d;
    size_t p = 0, n = 0;
    void print(std::ostream& s) const override { s << "chunk"; }
    Length openForRead() override { return d.size(); }
    void openForWrite(const Length&) override {}
    long read(void* b, long len) override {
        size_t m = std::min<size_t>({size_t(len), d.size() - p, 1 + (n++ * 5) % 7});
        memcpy(b, d.data() + p, m);
        p += m;
        return m;
    }
    long write(const void* b, long len) override {
        d.append((const char*)b, len);
        return len;
    }
    void close() override {}
};

struct H {
    std::string kind, path, mem;
    long cap;
    std::unique_ptr<Stream> s;
    Buffer buf{0};
    std::unique_ptr<DataHandle> h;
    std::unique_ptr<std::fstream> f;
    std::unique_ptr<std::ifstream> inf;
    int fd[2] = {-1, -1};
    size_t written = 0;
    H(const Script& x) : kind(x.cs(0)), cap(x.ci(1)) {
        static int n = 0;
        path         = scratch() + "/st" + std::to_string(getpid()) + "_" + std::to_string(n++);
        if (kind == "mem") { mem.resize(cap + 16, '\xEE'); s.reset(new MemoryStream(&mem[0], cap)); }
        if (kind == "res") { buf.resize(cap < 0 ? 3 : 3); s.reset(new ResizableMemoryStream(buf)); }
        if (kind == "file") s.reset(new FileStream(path, "w"));
        if (kind == "handle") { h.reset(new FileHandle(path)); h->openForWrite(0); s.reset(new HandleStream(*h)); }
        if (kind == "memh") { h.reset(new MemoryHandle(7, true)); h->openForWrite(0); s.reset(new HandleStream(*h)); }
        if (kind == "chunk") { h.reset(new Chunk); s.reset(new HandleStream(*h)); }
        if (kind == "fstream" || kind == "ifstream") { f.reset(new std::fstream(path, std::ios::in | std::ios::out | std::ios::trunc | std::ios::binary)); s.reset(new FstreamStream(*f)); }
        if (kind == "pipe") { if (pipe(fd)) abort(); fcntl(fd[1], 1031, 1 << 20); s.reset(new PipeStream(-1, fd[1])); }
    }
    void content(std::string d) {  // read this
        if (kind == "mem") { mem = d; s.reset(new MemoryStream((const void*)mem.data(), mem.size())); }
        if (kind == "res") { buf.resize(0); buf.resize(d.size()); memcpy(buf.data(), d.data(), d.size()); s.reset(new ResizableMemoryStream(buf)); }
        if (kind == "memh") { mem = d; h.reset(new MemoryHandle(mem.data(), mem.size())); h->openForRead(); s.reset(new HandleStream(*h)); }
        if (kind == "chunk") { Chunk* c = new Chunk; c->d = d; h.reset(c); s.reset(new HandleStream(*h)); }
        if (kind == "pipe") { int p[2]; if (pipe(p)) abort(); fcntl(p[1], 1031, 1 << 20); if (write(p[1], d.data(), d.size()) < 0) {} ::close(p[1]); s.reset(new PipeStream(p[0], -1)); }
        if (!path.empty() && (kind == "file" || kind == "handle" || kind == "fstream" || kind == "ifstream")) {
            if (kind == "file") { close(); s.reset(); }
            { std::ofstream o(path, std::ios::binary | std::ios::trunc); o << d; }
            reader();
        }
    }
    void close() {
        if (auto* p = dynamic_cast<FileStream*>(s.get())) p->close();
    }
    void reader() {
        s.reset();
        if (kind == "file") s.reset(new FileStream(path, "r"));
        if (kind == "handle") { h.reset(new FileHandle(path)); h->openForRead(); s.reset(new HandleStream(*h)); }
        if (kind == "fstream") { f.reset(new std::fstream(path, std::ios::in | std::ios::binary)); s.reset(new FstreamStream(*f)); }
        if (kind == "ifstream") { inf.reset(new std::ifstream(path, std::ios::in | std::ios::binary)); s.reset(new IfstreamStream(*inf)); }
    }
    std::string all() {
        std::ifstream i(path, std::ios::binary);
        std::stringstream o;
        o << i.rdbuf();
        return o.str();
    }
    std::string data;
    void flip() {
        if (kind == "mem") {
            size_t p = static_cast<MemoryStream&>(*s).position();
            for (size_t i = cap; i < mem.size(); i++) if (mem[i] != '\xEE') throw SeriousBug("overrun");
            data = mem.substr(0, p);
        }
        if (kind == "res") data = std::string((const char*)buf.data(), static_cast<ResizableMemoryStream&>(*s).position());
        if (kind == "file") { close(); s.reset(); data = all(); }
        if (kind == "handle") { h->close(); s.reset(); data = all(); }
        if (kind == "memh") data = std::string((const char*)static_cast<MemoryHandle&>(*h).data(), size_t(static_cast<MemoryHandle&>(*h).size()));
        if (kind == "chunk") data = static_cast<Chunk&>(*h).d;
        if (kind == "fstream" || kind == "ifstream") { f->close(); data = all(); }
        if (kind == "pipe") {
            s.reset();
            char b[4096];
            for (ssize_t n; (n = read(fd[0], b, sizeof b)) > 0;) data.append(b, n);
            ::close(fd[0]);
        }
        content(data);
    }
    std::string apply(const Op& o) {
        const std::string& n = o.name;
        Stream& t            = *s;
        if (n == "bytes") return ok(t.bytesWritten());
        if (n == "flip") { flip(); return ok(0l); }
        if (n == "cut") { content(data = data.substr(0, o.i(0))); return ok(0l); }
        if (n == "rewind") { t.rewind(); return ok(0l); }
        if (n == "next") return ok(t.next());
        if (n == "endfound") return ok(t.endObjectFound());
        if (n == "skipend") { t.skipEndObject(); return ok(0l); }
        if (n == "obj") { size_t i = 0; std::unique_ptr<N0> x(build(o.a, i)); t << *x; return ok(0l); }
        if (n == "revive") {
            N0* x = o.s(0) == "n0" ? Reanimator<N0>::reanimate(t) : o.s(0) == "n1" ? Reanimator<N1>::reanimate(t) : dynamic_cast<N0*>(Reanimator<Streamable>::reanimate(t));
            return ok(x ? x->show() : "[\"null\"]");
        }
        const std::string& k = o.s(0);
        if (n == "nextval") {
            if (k == "string") { std::string x; return t.next(x) ? ok(jstr(hex(x))) : "[\"end\"]"; }
            if (k == "int") { int x; return t.next(x) ? ok(jstr(std::to_string(x))) : "[\"end\"]"; }
            if (k == "bool") { bool x; return t.next(x) ? ok(jstr(x ? "1" : "0")) : "[\"end\"]"; }
        }
        if (n == "put") {
            std::string v = o.s(1).substr(1);  // a leading character keeps empty values in the script
            long long i   = atoll(v.c_str());
            unsigned long long u = strtoull(v.c_str(), nullptr, 10);
            if (k == "char") t << char(i);
            else if (k == "uchar") t << (unsigned char)i;
            else if (k == "bool") t << bool(i);
            else if (k == "int") t << int(i);
            else if (k == "uint") t << (unsigned int)i;
            else if (k == "short") t << short(i);
            else if (k == "ushort") t << (unsigned short)i;
            else if (k == "long") t << long(i);
            else if (k == "ulong") t << (unsigned long)i;
            else if (k == "llong") t << i;
            else if (k == "ullong") t << u;
            else if (k == "double") { double d; memcpy(&d, &u, 8); t << d; }
            else if (k == "string") t << unhex(v);
            else if (k == "cstr") t << unhex(v).c_str();
            else if (k == "blob") { std::string b = unhex(v); Buffer x(b.data(), b.size()); t << x; }
            else if (k == "mem") { std::string b = unhex(v); t.writeBlob(b.data(), b.size()); }
            else if (k == "lblob") { std::string b = unhex(v); t.writeLargeBlob(b.data(), b.size()); }
            else if (k == "exc") t << static_cast<const std::exception&>(std::runtime_error(unhex(v)));
            else if (k == "start") t.startObject();
            else if (k == "end") t.endObject();
            else return "[\"badop\"]";
            return ok(0l);
        }
        if (n == "get") {
#define G(name, T) if (k == name) { T x; t >> x; return ok(jstr(std::to_string(x))); }
            G("uchar", unsigned char) G("bool", bool) G("int", int) G("uint", unsigned int) G("short", short) G("ushort", unsigned short) G("long", long)
            G("ulong", unsigned long) G("llong", long long) G("ullong", unsigned long long)
            if (k == "char") { char x; t >> x; return ok(jstr(std::to_string(int(x)))); }
            if (k == "double") { double x; t >> x; unsigned long long u; memcpy(&u, &x, 8); return ok(jstr(std::to_string(u))); }
            if (k == "string") { std::string x; t >> x; return ok(jstr(hex(x))); }
            std::string b(o.i(1) + 1, '\xEE');
            if (k == "blob") { Buffer x(o.i(1)); t >> x; return ok(jstr(hex(std::string((const char*)x.data(), x.size())))); }
            if (k == "mem") t.readBlob(&b[0], o.i(1));
            else if (k == "lblob") t.readLargeBlob(&b[0], o.i(1));
            else return "[\"badop\"]";
            if (b.back() != '\xEE') return "[\"overrun\"]";
            b.pop_back();
            return ok(jstr(hex(b)));
        }
        return "[\"badop\"]";
    }
};

int main(int argc, char** argv) {
    vt_main();
    return seqmain(argc, argv, [](const Script& s) {
        H h(s);
        for (auto& x : s.ops) {
            std::string r;
            try {
                r = h.apply(x);
            }
            catch (RemoteException& e) {
                std::string w = e.what();
                size_t b      = w.rfind("(RemoteException from ");
                r = "[\"remote\"," + (b == std::string::npos ? jstr(w) : jstr(hex(w.substr(0, b)))) + "]";
            }
            catch (std::exception& e) {
                r = "[\"exc\"]";
            }
            put(r);
        }
        try { h.close(); } catch (std::exception&) {}
        if (!h.path.empty()) unlink(h.path.c_str());
    });
}
