// U01, U02: encodings and digests
#include <time.h>
#include "common.h"
#include "main_init.h"
#include "eckit/io/Base64.h"
#include "eckit/io/BitIO.h"
#include "eckit/io/Buffer.h"
#include "eckit/io/MemoryHandle.h"
#include "eckit/serialisation/ResizableMemoryStream.h"
#include "eckit/serialisation/MemoryStream.h"
#include "eckit/utils/Compressor.h"
#include "eckit/utils/Hash.h"
#include "eckit/utils/MD4.h"
#include "eckit/utils/MD5.h"
#include "eckit/utils/SHA1.h"
#include "eckit/utils/HyperCube.h"
#include <algorithm>
namespace eckit { using std::equal; }
#include "eckit/utils/RLE.h"
#include "eckit/parser/JSONParser.h"
#include "eckit/value/Value.h"
using namespace vt;
using namespace eckit;

// the time allowed to an encoding ends at the clock's ticks-th reading
static thread_local long ticks = -1;
extern "C" int clock_gettime(clockid_t id, struct timespec* t) {
    static auto real = [](clockid_t i, struct timespec* x) { return (int)syscall(228, i, x); };
    if (ticks < 0 || id != CLOCK_MONOTONIC) return real(id, t);
    t->tv_sec  = ticks > 0 ? 1000 : 1000000;
    t->tv_nsec = 0;
    if (ticks > 0) ticks--;
    return 0;
}

static std::vector<long long> nums(const Value& v) {
    std::vector<long long> r;
    for (size_t i = 0; i < v.size(); i++) r.push_back((long long)v[i]);
    return r;
}
static std::vector<long long> nums(const Op& o, size_t k) { return nums(JSONParser::decodeString(o.s(k))); }
static std::string str(const std::vector<long long>& v) {
    std::string r;
    for (auto x : v) r += char(x);
    return r;
}
static std::string str(const Op& o, size_t k) { return str(nums(o, k)); }
static std::string shown(const std::string& s) { return jbytes(s.data(), s.size()); }
static std::string contents(MemoryHandle& h, size_t n) { return std::string((const char*)h.data(), n); }

static std::string bits(const Op& o) {
    Value codes = JSONParser::decodeString(o.s(0));
    MemoryHandle h(size_t(1), true);
    size_t n, bytes;
    {
        BitIO b(h);
        for (size_t i = 0; i < codes.size(); i++) {
            size_t c = 0;
            auto v   = nums(codes[i]);
            for (auto x : v) c = (c << 1) | x;
            // bits beyond those asked for are of no importance
            if (v.size() < 64 && o.i(4)) c |= ~size_t(0) << v.size();
            b.write(c, v.size());
        }
        n     = b.bitCount();
        bytes = b.byteCount();
    }
    std::string w = contents(h, (n + 7) / 8);
    if (bytes != w.size()) return "[\"count\"]";
    MemoryHandle in(w.data(), w.size());
    BitIO r(in, o.i(2));
    const size_t END = (size_t(1) << 63) | 987654321;
    std::string reads;
    for (auto l : nums(o, 1)) {
        std::string x;
        try {
            size_t v = r.read(l, o.i(3) ? END : 0);
            if (v == END) x = "2";
            else
                for (long i = l - 1; i >= 0; i--) x += std::string((v >> i) & 1 ? "1" : "0") + (i ? "," : "");
            if (v != END && l < 64 && v >> l) x = "9";
        }
        catch (std::exception&) {
            x = "3";
        }
        reads += (reads.size() ? ",[" : "[") + x + "]";
    }
    return "[\"ok\"," + shown(w) + "," + std::to_string(n) + ",[" + reads + "]]";
}

static std::string base64(const Op& o) {
    std::string t = str(o, 0);
    Base64 b(o.i(1));
    MemoryHandle in(t.data(), t.size()), out(size_t(1), true), back(size_t(1), true);
    size_t n      = b.encode(in, out);
    std::string e = contents(out, n);
    MemoryHandle in2(e.data(), e.size());
    size_t m = b.decode(in2, back);
    return "[\"ok\"," + shown(e) + "," + shown(contents(back, m)) + "]";
}

static std::string rle(const Op& o) {
    auto v = nums(o, 0);
    std::vector<long long> enc, dec;
    long long n;
    // nothing may be read beyond the values
    static char* page = nullptr;
    if (!page) {
        page = (char*)mmap(nullptr, 8192, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
        mprotect(page + 4096, 4096, PROT_NONE);
    }
    const long long *last = (long long*)(page + 4096), *first = last - v.size();
    std::copy(v.begin(), v.end(), const_cast<long long*>(first));
    if (o.i(2) < 0) n = RLEencode2(first, last, std::back_inserter(enc), o.i(1));
    else {
        ticks = o.i(2) + 1;  // the first reading sets the deadline
        n     = RLEencode2(first, last, std::back_inserter(enc), o.i(1), std::chrono::seconds(100), o.i(3));
        ticks = -1;
    }
    if (n != (long long)enc.size()) return "[\"size\"," + jnums(enc) + "," + std::to_string(n) + "]";
    // a code that is cut is not decoded
    struct Limit {
        std::vector<long long>& d;
        Limit& operator*() { return *this; }
        Limit& operator++() { return *this; }
        Limit& operator++(int) { return *this; }
        void operator=(long long x) {
            if (d.size() > 10000) throw std::runtime_error("too long");
            d.push_back(x);
        }
    };
    try {
        enc.push_back(0);
        enc.push_back(0);
        RLEdecode2(enc.begin(), enc.end() - 2, Limit{dec});
    }
    catch (std::exception&) {
    }
    return dec == v ? "[\"ok\"," + jnums(dec) + "]" : "[\"ok\"," + jnums(dec) + "," + jnums(enc) + "]";
}

static std::string stream(const Op& o, bool diff) {
    std::vector<long> v, w, x;
    for (auto n : nums(o, 0)) v.push_back(n);
    Buffer buf(1 << 20);
    {
        MemoryStream s(buf);
        for (int i = 0; i < 2; i++) diff ? RLEDIFFwrite(s, v.begin(), v.end(), o.i(1)) : RLEwrite(s, v.begin(), v.end(), o.i(1));
    }
    MemoryStream s(buf);
    diff ? RLEDIFFread(s, std::back_inserter(w), (long*)nullptr) : RLEread(s, std::back_inserter(w), (long*)nullptr);
    diff ? RLEDIFFread(s, std::back_inserter(x), (long*)nullptr) : RLEread(s, std::back_inserter(x), (long*)nullptr);
    return "[\"ok\"," + jnums(w) + "," + jnums(x) + "]";
}

static std::string compress(const Op& o) {
    std::string t;
    Value v = JSONParser::decodeString(o.s(1));
    for (size_t i = 0; i < v.size(); i++) t += std::string(size_t((long long)v[i][1]), char((long long)v[i][0]));
    std::unique_ptr<Compressor> c(CompressorFactory::instance().build(o.s(0)));
    Buffer out(o.i(2)), back(o.i(3));
    size_t n = c->compress(t.data(), t.size(), out);
    if (n > out.size()) return "[\"size\"]";
    std::string z((const char*)out.data(), n);
    c->uncompress(z.data(), z.size(), back, t.size());
    std::string b((const char*)back.data(), t.size()), r;
    for (size_t i = 0, j; i < b.size(); i = j) {
        for (j = i; j < b.size() && b[j] == b[i]; j++)
            ;
        r += (i ? ",[" : "[") + std::to_string(int((unsigned char)b[i])) + "," + std::to_string(j - i) + "]";
    }
    return "[\"ok\",[" + r + "]]";
}

static std::string cube(const Op& o) {
    HyperCube::Dimensions d;
    for (auto x : nums(o, 0)) d.push_back(x);
    auto w = nums(o, 1), w2 = nums(o, 2);
    HyperCube c(d);
    std::string coords;
    for (size_t i = 0; i < c.count(); i++) {
        HyperCube::Coordinates x(d.size());
        c.coordinates(i, x);
        if (c.index(x) != i) return "[\"index\"]";
        coords += (i ? "," : "") + jnums(x);
    }
    HyperCube::Remapping m, m2;
    HyperCube e = c.addToDimension(w[0] - 1, w[1], w[2], m), f = e.addToDimension(w2[0] - 1, w2[1], w2[2], m2);
    std::string first = jnums(m);
    HyperCube::combine(m, m2);
    return "[\"ok\"," + std::to_string(c.count()) + ",[" + coords + "]," + first + "," + std::to_string(e.count()) + "," + jnums(m) + "]";
}

static void add(Hash& h, const std::string& t, int how) {
    auto as = [&](auto x) {
        memcpy(&x, t.data(), sizeof x);
        how & 8 ? (void)(h << x) : h.add(x);
    };
    switch (t.size() * (how & 4 ? 1 : 0)) {
        case 1: how & 1 ? as(char()) : as((unsigned char)0); break;
        case 2: how & 1 ? as(short()) : as((unsigned short)0); break;
        case 4: how & 1 ? as(int()) : how & 2 ? as(float()) : as(0u); break;
        case 8: how & 1 ? (how & 2 ? as(0ll) : as(0l)) : how & 2 ? as(double()) : as(0ull); break;
        default:
            if (how & 1) h.add(t);
            else if (how & 2 && t.find('\0') == std::string::npos) h.add(t.c_str());
            else h.add(t.data(), long(t.size()));
    }
}

static void run(const Script& s) {
    std::map<long, std::unique_ptr<Hash>> hs;
    std::string alg = s.cs(1);
    auto make       = [&](long k) -> Hash& {
        if (!hs[k]) hs[k].reset(HashFactory::instance().build(alg));
        return *hs[k];
    };
    for (auto& o : s.ops) {
        std::string r = "[\"ok\"]";
        try {
            const std::string& n = o.name;
            if (n == "bits") r = bits(o);
            else if (n == "base64") r = base64(o);
            else if (n == "rle") r = rle(o);
            else if (n == "unrle") {
                auto v = nums(o, 0);
                std::vector<long long> d;
                RLEdecode2(v.begin(), v.end(), std::back_inserter(d));
                r = "[\"ok\"," + jnums(d) + "]";
            }
            else if (n == "diff") {
                auto v = nums(o, 0);
                std::vector<long long> d, b;
                if (DIFFencode(v.begin(), v.end(), std::back_inserter(d))) {
                    DIFFdecode(d.begin(), d.end(), std::back_inserter(b), (long long*)nullptr);
                    r = "[\"ok\"," + jnums(d) + "," + jnums(b) + "]";
                }
                else r = "[\"no\"]";
            }
            else if (n == "stream" || n == "streamdiff") r = stream(o, n != "stream");
            else if (n == "compress") r = compress(o);
            else if (n == "cube") r = cube(o);
            else if (n == "new") {
                std::string t = str(o, 1);
                hs[o.i(0)].reset(HashFactory::instance().build(alg, t));
            }
            else if (n == "add") add(make(o.i(0)), str(o, 1), o.i(2));
            else if (n == "reset") make(o.i(0)).reset();
            else if (n == "compute") {
                std::string t = str(o, 1);
                r = "[\"ok\"," + jstr(make(o.i(0)).compute(t.data(), t.size())) + "]";
            }
            else if (n == "digest") r = "[\"ok\"," + jstr(make(o.i(0)).digest()) + "]";
            else if (n == "text") r = "[\"ok\"," + jstr(make(o.i(0))) + "]";
            else if (n == "number") {
                if (auto* m = dynamic_cast<MD5*>(&make(o.i(0)))) {
                    unsigned char d[16];
                    m->numericalDigest(d);
                    char x[33];
                    for (int i = 0; i < 16; i++) sprintf(x + 2 * i, "%02x", d[i]);
                    r = "[\"ok\"," + jstr(x) + "]";
                }
                else r = "[\"ok\"," + jstr(make(o.i(0)).digest()) + "]";
            }
            else r = "[\"unknown\"]";
        }
        catch (std::exception& e) {
            ticks = -1;
            r     = "[\"exc\"]";
        }
        put(r);
    }
}

int main(int argc, char** argv) {
    vt_main();
    if (argc > 1 && std::string(argv[1]) == "--list") {
        for (auto& k : CompressorFactory::instance().keys()) printf("compress %s\n", k.c_str());
        for (auto k : {"MD4", "MD5", "SHA1", "xxh64"})
            if (HashFactory::instance().has(k)) printf("hash %s\n", k);
        return 0;
    }
    return seqmain(argc, argv, run);
}
