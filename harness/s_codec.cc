// eckit::codec records: writing, reading through files, streams and memory, damage and interrupted writing
#include "common.h"
#include <sys/resource.h>
#include <sys/stat.h>
#include "eckit/codec/codec.h"
#include "eckit/codec/detail/Link.h"
#include "eckit/config/LocalConfiguration.h"
#include "eckit/exception/Exceptions.h"
#include "eckit/io/FileHandle.h"
#include "eckit/io/MemoryHandle.h"
#include "eckit/utils/Compressor.h"
#include "main_init.h"

using namespace vt;
using namespace eckit;
namespace co = eckit::codec;

static const std::string OK = "[\"ok\",0]";
static std::string hex(const void* p, size_t n) {
    std::string r;
    char b[3];
    for (size_t i = 0; i < n; i++) {
        snprintf(b, 3, "%02x", ((const unsigned char*)p)[i]);
        r += b;
    }
    return r;
}
static std::string unhex(const std::string& h) {
    std::string r;
    for (size_t i = 0; i + 1 < h.size(); i += 2) r += char(strtol(h.substr(i, 2).c_str(), nullptr, 16));
    return r;
}
// arrays: "length.seed"
template <class T>
static std::vector<T> arr(const std::string& v) {
    long n = atol(v.c_str()), s = atol(v.substr(v.find('.') + 1).c_str());
    std::vector<T> a(n);
    for (long i = 0; i < n; i++) a[i] = s % 2 ? T(i % 5 + s) : T((i * 2654435761u + s * 40503u) % 251);
    return a;
}
using A3 = std::vector<std::array<double, 3>>;
static A3 arr3(const std::string& v) {
    auto a = arr<double>(v);
    A3 b(a.size());
    for (size_t i = 0; i < a.size(); i++) b[i] = {a[i], -a[i], double(i)};
    return b;
}
static std::string path(const std::string& f) {
    static std::string d = scratch();
    static bool made     = [] {
        mkdir((d + "/below").c_str(), 0777);
        mkdir((d + "/below/further down").c_str(), 0777);
        return true;
    }();
    (void)made;
    return d + (f == "f" ? "/" : f == "g" ? "/below/" : "/below/further down/") + "rec" + std::to_string(getpid()) + "_" + f;
}
static std::string slurp(const std::string& p) {
    std::ifstream i(p, std::ios::binary);
    std::stringstream s;
    s << i.rdbuf();
    return s.str();
}

// keeps what was written, in order
struct Recorder : DataHandle {
    std::vector<std::pair<size_t, std::string>> w;
    size_t pos = 0;
    explicit Recorder(size_t p) : pos(p) {}
    void print(std::ostream& s) const override { s << "Recorder"; }
    Length openForRead() override { NOTIMP; }
    void openForWrite(const Length&) override {}
    void openForAppend(const Length&) override {}
    long read(void*, long) override { NOTIMP; }
    long write(const void* p, long n) override {
        w.emplace_back(pos, std::string((const char*)p, n));
        pos += n;
        return n;
    }
    void close() override {}
    void flush() override {}
    Offset position() override { return pos; }
    Offset seek(const Offset& o) override { return pos = o; }
    bool canSeek() const override { return true; }
};

struct Want {
    std::string key, type;
};
struct Rec {
    std::unique_ptr<co::RecordWriter> w;
    std::map<std::string, std::vector<std::string>> seen;       // values by type
    std::map<std::string, std::vector<size_t>> off;             // records of a file
    std::map<std::string, std::vector<std::map<std::string, std::string>>> types;
    std::map<std::string, std::string> wt;                      // types in the writer
    std::vector<std::shared_ptr<void>> keep;

    Rec() {
        w.reset(new co::RecordWriter());
        for (auto f : {"f", "g", "h"}) {
            off[f];
            types[f];
            unlink(path(f).c_str());
        }
    }
    ~Rec() {
        for (auto f : {"f", "g", "h"}) unlink(path(f).c_str());
    }
    template <class T>
    void give(const std::string& k, T v, int form, const Configuration& c) {
        auto p = std::make_shared<T>(std::move(v));
        keep.push_back(p);
        if (form == 1) w->set(k, co::ref(*p), c);
        else if (form == 2) {
            w->set(k, co::copy(*p), c);
            for (auto& e : *p) e = typename T::value_type{};
        }
        else w->set(k, const_cast<const T&>(*p), c);
    }
    void set(const std::string& k, const std::string& t, const std::string& v, const std::string& comp, int form) {
        LocalConfiguration c;
        if (comp != "default") c.set("compression", CompressorFactory::instance().has(comp) ? comp : std::string("none"));
        else w->compression(CompressorFactory::instance().has("lz4") ? "lz4" : "none");
        if (t[0] == 'a') seen[t].push_back(v);
        if (t == "i") w->set(k, int(atoi(v.c_str())), c);
        else if (t == "l") w->set(k, long(strtol(v.c_str(), 0, 10)), c);
        else if (t == "u") w->set(k, (unsigned long)(strtoul(v.c_str(), 0, 10)), c);
        else if (t == "f") {
            std::string b = unhex(v);
            float x;
            memcpy(&x, b.data(), 4);
            w->set(k, x, c);
        }
        else if (t == "d") {
            std::string b = unhex(v);
            double x;
            memcpy(&x, b.data(), 8);
            w->set(k, x, c);
        }
        else if (t == "s") w->set(k, unhex(v), c);
        else if (t == "ai") give(k, arr<int>(v), form, c);
        else if (t == "al") give(k, arr<long>(v), form, c);
        else if (t == "af") give(k, arr<float>(v), form, c);
        else if (t == "ad") give(k, arr<double>(v), form, c);
        else if (t == "ab") give(k, arr<std::byte>(v), form, c);
        else if (t == "a3") give(k, arr3(v), form, c);
        wt[k] = t;
    }
    struct Var {
        std::string t;
        int i = -77;
        long l = -77;
        unsigned long u = 77;
        float f = -77;
        double d = -77;
        std::string s = "unset";
        std::vector<int> ai{-77};
        std::vector<long> al{-77};
        std::vector<float> af{-77};
        std::vector<double> ad{-77};
        std::vector<std::byte> ab{std::byte(77), std::byte(0)};
        A3 a3{{-77, 0, 0}};
    };
    template <class F>
    static void with(Var& v, F f) {
        if (v.t == "i") f(v.i);
        else if (v.t == "l") f(v.l);
        else if (v.t == "u") f(v.u);
        else if (v.t == "f") f(v.f);
        else if (v.t == "d") f(v.d);
        else if (v.t == "s") f(v.s);
        else if (v.t == "ai") f(v.ai);
        else if (v.t == "al") f(v.al);
        else if (v.t == "af") f(v.af);
        else if (v.t == "ad") f(v.ad);
        else if (v.t == "ab") f(v.ab);
        else if (v.t == "a3") f(v.a3);
    }
    template <class A, class M>
    std::string find(const std::string& t, const A& a, M m) {
        for (auto& v : seen[t])
            if (m(v) == a) return v;
        return "unknown " + std::to_string(a.size());
    }
    std::string show(Var& v) {
        if (v.t == "i") return std::to_string(v.i);
        if (v.t == "l") return std::to_string(v.l);
        if (v.t == "u") return std::to_string(v.u);
        if (v.t == "f") return hex(&v.f, 4);
        if (v.t == "d") return hex(&v.d, 8);
        if (v.t == "s") return hex(v.s.data(), v.s.size());
        if (v.t == "ai") return find(v.t, v.ai, arr<int>);
        if (v.t == "al") return find(v.t, v.al, arr<long>);
        if (v.t == "af") return find(v.t, v.af, arr<float>);
        if (v.t == "ad") return find(v.t, v.ad, arr<double>);
        if (v.t == "ab") return find(v.t, v.ab, arr<std::byte>);
        if (v.t == "a3") return find(v.t, v.a3, arr3);
        return "?";
    }
    // through: path, wait (path, each request waited for at once), item, stream (one open file), mem
    std::string read(const std::string& p, size_t o, const std::string& how, const std::vector<Want>& wants, const std::string* bytes = nullptr) {
        std::vector<Var> v(wants.size());
        for (size_t i = 0; i < v.size(); i++) v[i].t = wants[i].type;
        if (how == "item") {
            for (size_t i = 0; i < v.size(); i++) {
                co::RecordItem it;
                co::RecordItem::URI u(p, o, wants[i].key);
                co::RecordItemReader r(u.str());
                r.read(it);
                it.decompress();
                with(v[i], [&](auto& x) {
                    using co::decode;
                    decode(it.metadata(), it.data(), x);
                });
            }
        }
        else if (how == "path" || how == "wait") {
            co::RecordReader r(p, o);
            for (size_t i = 0; i < v.size(); i++) {
                with(v[i], [&](auto& x) { r.read(wants[i].key, x); });
                if (how == "wait") r.wait(wants[i].key);
            }
            r.wait();
        }
        else {
            std::string all;
            if (how == "mem") all = bytes ? *bytes : slurp(p);
            std::unique_ptr<DataHandle> h(how == "mem" ? (DataHandle*)new MemoryHandle(all.data(), all.size()) : new FileHandle(p));
            h->openForRead();
            AutoClose c(*h);
            co::RecordReader r(co::Stream(*h), o);
            for (size_t i = 0; i < v.size(); i++) with(v[i], [&](auto& x) { r.read(wants[i].key, x); });
            r.wait();
        }
        return "[\"ok\"," + jlist(v, [this](const Var& x) { return jstr(show(const_cast<Var&>(x))); }) + "]";
    }
    std::string tryread(const std::string& bytes, size_t o, const std::vector<Want>& wants) {
        try {
            return read("", o, "mem", wants, &bytes);
        }
        catch (std::exception& e) {
            if (getenv("VT_VERBOSE") && 0) std::cerr << e.what() << std::endl;
            return "exc";
        }
    }
    std::vector<std::vector<Want>> all(const std::string& f) {
        std::vector<std::vector<Want>> r;
        for (auto& m : types[f]) {
            r.emplace_back();
            for (auto& x : m)
                if (x.second != "L") r.back().push_back({x.first, x.second});
        }
        return r;
    }
    std::string damage(const std::string& f, const std::string& what, const std::string& b, const std::string& orig,
                       const std::vector<std::vector<Want>>& w, size_t intact) {
        for (size_t r = 0; r < w.size(); r++)
            for (auto& x : w[r]) {
                std::string o = tryread(orig, off[f][r], {x}), n = tryread(b, off[f][r], {x});
                if (n != o && (n != "exc" || (r + 1 < off[f].size() ? off[f][r + 1] <= intact : orig.size() <= intact)))
                    return "[\"bad\"," + jstr(what + " record " + std::to_string(r + 1) + " key " + x.key + ": " + n + " for " + o) + "]";
            }
        return "";
    }
    std::string apply(const Op& x) {
        const std::string& n = x.name;
        if (n == "new") {
            w.reset(new co::RecordWriter());
            wt.clear();
            return OK;
        }
        if (n == "set") {
            set(x.s(0), x.s(1), x.s(2), x.s(3), x.i(4));
            return OK;
        }
        if (n == "link") {
            std::string p = path(x.s(1)), o = x.s(4);
            if (o != "abs") p = p.substr(path(o).rfind('/') + 1);  // relative to the directory of that file
            std::string uri = co::RecordItem::URI(p, off[x.s(1)].at(x.i(2) - 1), x.s(3)).str();
            w->set(x.s(0), co::link(uri));
            wt[x.s(0)] = "L";
            return OK;
        }
        if (n == "write") {
            std::string f = x.s(0), p = path(f), how = x.s(2);
            bool app      = x.s(1) == "a" && !off[f].empty();
            size_t before = app ? slurp(p).size() : 0, len = 0, first = 0;
            bool twice    = how.back() == '2';
            if (twice) how.pop_back();
            auto put = [&](auto& to) {
                if (twice) first = w->write(to);
                len = first + w->write(to);
            };
            if (how == "path") len = w->write(PathName(p), x.s(1) == "a" ? co::Mode::append : co::Mode::write);
            else if (how == "stream") {
                co::OutputFileStream o(PathName(p), x.s(1) == "a" ? co::Mode::append : co::Mode::write);
                put(o);
            }
            else if (how == "mem") {
                std::string b(2 * w->estimateMaximumSize() + 64, '#');
                MemoryHandle h(&b[0], b.size());
                h.openForWrite(0);
                put(h);
                h.close();
                std::ofstream o(p, app ? std::ios::binary | std::ios::app : std::ios::binary | std::ios::trunc);
                o.write(b.data(), len);
            }
            else {
                FileHandle h(p, app);
                if (app) {
                    h.openForWrite(before);
                    h.seek(before);
                }
                else h.openForWrite(0);
                put(h);
                h.close();
            }
            if (slurp(p).size() - before != len) return "[\"bad\",\"size\"," + jnum(len) + "," + jnum(slurp(p).size() - before) + "]";
            if (!app) {
                off[f].clear();
                types[f].clear();
            }
            for (int i = 0; i <= twice; i++) {
                off[f].push_back(before + i * first);
                types[f].push_back(wt);
            }
            return OK;
        }
        if (n == "size") {
            Recorder r(100);
            size_t l = w->write(r), e = w->estimateMaximumSize();
            return "[\"ok\",[" + jnum(l == e) + "," + jnum(l <= e) + "]]";
        }
        if (n == "read") {
            std::vector<Want> v;
            for (size_t i = 3; i + 1 < x.a.size(); i += 2) v.push_back({x.a[i], x.a[i + 1]});
            return read(path(x.s(0)), off[x.s(0)].at(x.i(1) - 1), x.s(2), v);
        }
        if (n == "meta") {
            co::RecordReader r(path(x.s(0)), off[x.s(0)].at(x.i(1) - 1));
            return "[\"ok\"," + jstr(std::string(r.metadata(x.s(2)).type())) + "]";
        }
        if (n == "keys") {
            co::InputFileStream in(path(x.s(0)));
            in.seek(off[x.s(0)].at(x.i(1) - 1));
            co::Record r;
            r.read(in, true);
            return "[\"ok\"," + jlist(r.keys(), jstr) + "]";
        }
        if (n == "bytes") {
            co::ArrayShape sh;
            std::stringstream ss(x.s(0));
            std::string t;
            while (std::getline(ss, t, 'x')) sh.push_back(strtoul(t.c_str(), 0, 10));
            co::ArrayMetadata m(co::make_datatype<double>(), sh);
            return "[\"ok\"," + jstr(std::to_string(m.bytes())) + "]";
        }
        if (n == "flips") {
            // flips file seed count
            auto& f          = x.s(0);
            std::string orig = slurp(path(f));
            auto w           = all(f);
            unsigned long s  = x.i(1) * 7919 + 1;
            for (long i = 0; i < x.i(2) && !orig.empty(); i++) {
                std::string b = orig;
                s             = s * 6364136223846793005ul + 1442695040888963407ul;
                size_t at     = (s >> 33) % b.size();
                int k         = (s >> 20) % 10;
                if (k < 7) b[at] ^= char(1 << ((s >> 25) % 8));
                else if (k == 7) b[at] = char(s >> 27);
                else if (k == 8) memset(&b[at], 0, std::min<size_t>(b.size() - at, 1 + (s >> 27) % 64));
                else {
                    at &= ~7ul;
                    memset(&b[at], 0, std::min<size_t>(b.size() - at, 8 * (1 + (s >> 27) % 64)));
                }
                auto r = damage(f, "byte " + std::to_string(at) + " kind " + std::to_string(k), b, orig, w, 0);
                if (!r.empty()) return r;
            }
            return OK;
        }
        if (n == "cuts") {
            auto& f          = x.s(0);
            std::string orig = slurp(path(f));
            auto w           = all(f);
            for (long i = 0; i < x.i(2) && !orig.empty(); i++) {
                size_t at = orig.size() - 1 - (i < 40 ? i : (i * 7919 + x.i(1) * 104729) % orig.size());
                if (at >= orig.size()) continue;
                auto r = damage(f, "cut at " + std::to_string(at), orig.substr(0, at), orig, w, at);
                if (!r.empty()) return r;
            }
            return OK;
        }
        if (n == "crash") {
            // the record in the writer is being appended to the file when the process vanishes
            auto& f          = x.s(0);
            std::string base = slurp(path(f));
            Recorder h(base.size());
            w->write(h);
            std::string b = base;
            auto ws       = all(f);
            size_t at     = base.size();
            std::vector<Want> nw;
            for (auto& t : wt)
                if (t.second != "L") nw.push_back({t.first, t.second});
            auto app = [&](size_t o, const std::string& d) {
                if (b.size() < o + d.size()) b.resize(o + d.size(), 0);
                memcpy(&b[o], d.data(), d.size());
            };
            std::string full = base;
            std::swap(full, b);
            for (auto& y : h.w) app(y.first, y.second);
            std::swap(full, b);
            size_t i = 0;
            for (auto& y : h.w) {
                std::vector<size_t> parts;
                for (size_t k = 1; k < y.second.size(); k += (y.second.size() > 300 ? 97 : 9)) parts.push_back(k);
                parts.push_back(y.second.size());
                for (size_t k : parts) {
                    app(y.first, y.second.substr(0, k));
                    std::string what = "write " + std::to_string(i) + " part " + std::to_string(k);
                    auto r           = damage(f, what, b, base, ws, base.size());
                    if (!r.empty()) return r;
                    for (auto& q : nw) {
                        auto got = tryread(b, at, {q});
                        if (got != "exc" && got != tryread(full, at, {q})) return "[\"bad\"," + jstr(what + " key " + q.key + ": " + got) + "]";
                    }
                }
                i++;
            }
            for (auto& q : nw)
                if (tryread(b, at, {q}) == "exc") return "[\"bad\"," + jstr("complete, yet " + q.key) + "]";
            return OK;
        }
        return "[\"badop\"]";
    }
};

int main(int argc, char** argv) {
    vt_main();
    struct rlimit l = {6ul << 30, 6ul << 30};
    long big        = 64 << 20;
    (void)big;
    return seqmain(argc, argv, [&](const Script& s) {
        setrlimit(RLIMIT_AS, &l);
        Rec r;
        for (auto& x : s.ops) {
            std::string o;
            try {
                o = r.apply(x);
            }
            catch (std::exception& e) {
                o = "[\"exc\"]";
                if (getenv("VT_VERBOSE")) fprintf(stderr, "%s: %s\n", x.name.c_str(), e.what());
            }
            put(o);
        }
    }, 60);
}
