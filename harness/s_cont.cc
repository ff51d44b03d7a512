// in-memory and persistent containers, driven by scripts; one class per kind (first cfg word)
#include "common.h"
#include "eckit/container/BloomFilter.h"
#include "eckit/container/Cache.h"
#include "eckit/container/CacheLRU.h"
#include "eckit/container/DenseMap.h"
#include "eckit/container/DenseSet.h"
#include "eckit/container/Recycler.h"
#include "eckit/container/Trie.h"
#include "eckit/exception/Exceptions.h"
#include "eckit/filesystem/PathName.h"
#include "eckit/io/CircularBuffer.h"
#include "main_init.h"

using namespace vt;
using namespace eckit;

struct Obj {
    virtual ~Obj() {}
    virtual std::string apply(const Op&) = 0;
};
static std::string ok(const std::string& v) {
    return "[\"ok\"," + v + "]";
}
static std::string ok(long v) {
    return ok(jnum(v));
}
static const std::string NONE = "[\"none\"]";
static const std::string BAD  = "[\"badop\"]";

static std::vector<std::pair<long, long>> purged;
static void onPurge(long& k, long& v) {
    purged.push_back({k, v});
}
struct Lru : Obj {
    CacheLRU<long, long>* c;
    Lru(const Script& s) { c = new CacheLRU<long, long>(s.ci(1), onPurge); }
    std::string res(long v) {
        std::string p = jlist(purged, [](const std::pair<long, long>& x) { return "[" + jnum(x.first) + "," + jnum(x.second) + "]"; });
        purged.clear();
        return ok("[" + jnum(v) + "," + p + "]");
    }
    std::string apply(const Op& o) override {
        const std::string& n = o.name;
        if (n == "insert") return res(c->insert(o.i(0), o.i(1)));
        if (n == "access") return res(c->access(o.i(0)));
        if (n == "extract") return res(c->extract(o.i(0)));
        if (n == "remove") return res(c->remove(o.i(0)));
        if (n == "exists") return res(c->exists(o.i(0)));
        if (n == "size") return res(c->size());
        if (n == "getcap") return res(c->capacity());
        if (n == "clear") { c->clear(); return res(0); }
        if (n == "setcap") { c->capacity(o.i(0)); return res(0); }
        if (n == "destroy") { delete c; c = nullptr; return res(0); }
        return BAD;
    }
};
struct Exp : Obj {
    Cache<long, long> c;
    std::string apply(const Op& o) override {
        const std::string& n = o.name;
        if (n == "insert") return ok(c.insert(o.i(0), o.i(1)));
        if (n == "update") return ok(c.update(o.i(0), o.i(1)));
        if (n == "fetch") { long v = -7; return c.fetch(o.i(0), v) ? ok(v) : NONE; }
        if (n == "expire") return ok(c.expire(o.i(0)));
        if (n == "valid") return ok(c.valid(o.i(0)));
        if (n == "size") return ok(c.size());
        if (n == "purge") { c.purge(); return ok(0l); }
        if (n == "clear") { c.clear(); return ok(0l); }
        return BAD;
    }
};
struct Dm : Obj {
    DenseMap<long, std::string> m;
    static long v(const std::string& s) { return atol(s.c_str()); }
    std::string apply(const Op& o) override {
        const std::string& n = o.name;
        const DenseMap<long, std::string>& cm = m;
        if (n == "insert") { m.insert(o.i(0), o.s(1)); return ok(0l); }
        if (n == "replace") { m.replace(o.i(0), o.s(1)); return ok(0l); }
        if (n == "sort") { m.sort(); return ok(0l); }
        if (n == "clear") { m.clear(); return ok(0l); }
        if (n == "size") return ok(m.size());
        if (n == "sorted") return ok(m.sorted());
        if (n == "empty") return ok(m.empty());
        if (n == "contains") return ok(cm.contains(o.i(0)));
        if (n == "get") {
            bool f = m.find(o.i(0)) != m.end(), g = cm.find(o.i(0)) != cm.cend();
            if (f != g) return "[\"constdiffers\"]";
            if (!f) return NONE;
            long a = v(m.get(o.i(0))), b = v(cm.get(o.i(0))), c = v(cm[o.i(0)]);
            return a == b && b == c ? ok(a) : "[\"differs\"]";
        }
        if (n == "at") { long a = v(m.at(o.i(0))), b = v(cm.at(o.i(0))); return a == b ? ok(a) : "[\"differs\"]"; }
        if (n == "list") return ok(jlist(m, [](const std::pair<long, std::string>& x) { return "[" + jnum(x.first) + "," + jnum(v(x.second)) + "]"; }));
        return BAD;
    }
};
struct Ds : Obj {
    DenseSet<long> m;
    std::string apply(const Op& o) override {
        const std::string& n = o.name;
        const DenseSet<long>& cm = m;
        if (n == "insert") { m.insert(o.i(0)); return ok(0l); }
        if (n == "sort") { m.sort(); return ok(0l); }
        if (n == "clear") { m.clear(); return ok(0l); }
        if (n == "size") return ok(m.size());
        if (n == "sorted") return ok(m.sorted());
        if (n == "empty") return ok(m.empty());
        if (n == "contains") return ok(cm.contains(o.i(0)));
        if (n == "find") {
            auto i = m.find(o.i(0));
            auto j = cm.find(o.i(0));
            long a = i == m.end() ? 0 : (i - m.begin()) + 1, b = j == cm.cend() ? 0 : (j - cm.cbegin()) + 1;
            return a == b ? ok(a) : "[\"differs\"]";
        }
        if (n == "at") return ok(m.at(o.i(0)));
        if (n == "list") return ok(jnums(m));
        DenseSet<long> x;
        for (size_t i = 0; i < o.a.size(); i++) x.insert(o.i(i));
        if (n == "merge") { m.merge(x); return ok(0l); }
        if (n == "mergesorted") { x.sort(); m.merge(x); return ok(0l); }
        if (n == "eq") { bool a = (m == x), b = (x == m), c = !(m != x); return a == b && b == c ? ok(a) : "[\"differs\"]"; }
        return BAD;
    }
};
struct Tr : Obj {
    Trie<long> t;
    std::string apply(const Op& o) override {
        const std::string& n = o.name;
        std::string k        = o.s(0).c_str();
        if (n == "insert") { t.insert(k, o.i(1)); return ok(0l); }
        if (n == "remove") { t.remove(k); return ok(0l); }
        if (n == "contains") return ok(t.contains(k));
        if (n == "find") { long* p = t.find(k); return p ? ok(*p) : NONE; }
        return BAD;
    }
};
struct Ci : Obj {
    CircularBuffer c;
    Ci(const Script& s) : c(s.ci(1), s.ci(2)) {}
    std::string apply(const Op& o) override {
        const std::string& n = o.name;
        if (n == "write") {
            std::vector<unsigned char> b;
            for (size_t i = 0; i < o.a.size(); i++) b.push_back((unsigned char)o.i(i));
            return ok(c.write(b.data(), b.size()));
        }
        if (n == "read") {
            std::vector<unsigned char> b(o.i(0) + 1, 0xEE);
            size_t k = c.read(b.data(), o.i(0));
            if (b[o.i(0)] != 0xEE || k > size_t(o.i(0))) return "[\"overrun\"]";
            return ok(jbytes(b.data(), k));
        }
        if (n == "length") return ok(c.length());
        if (n == "size") return ok(c.size());
        if (n == "capacity") return ok(c.capacity());
        if (n == "clear") { c.clear(); return ok(0l); }
        return BAD;
    }
};
struct Bl : Obj {
    BloomFilter<std::string> b;
    Bl(const Script& s) : b(s.ci(1)) {}
    std::string apply(const Op& o) override {
        const std::string& n = o.name;
        if (n == "insert") { b.insert(o.s(0)); return ok(0l); }
        if (n == "contains") return ok(b.contains(o.s(0)));
        if (n == "empty") return ok(b.empty());
        return BAD;
    }
};
struct Re : Obj {
    std::string p;
    Recycler<long>* r[3];
    Re() {
        static int n = 0;
        p            = scratch() + "/rec" + std::to_string(getpid()) + "_" + std::to_string(n++) + "/f";
        for (int i = 1; i < 3; i++) r[i] = new Recycler<long>(p);
    }
    std::string apply(const Op& o) override {
        const std::string& n = o.name;
        int i                = o.i(0);
        if (n == "push") {
            std::vector<long> v;
            for (size_t k = 1; k < o.a.size(); k++) v.push_back(o.i(k));
            if (v.size() == 1) r[i]->push(v[0]);
            else r[i]->push(v.begin(), v.end());
            return ok(0l);
        }
        if (n == "pop") {
            std::vector<long> v(o.i(1) + 1, -9);
            long k = r[i]->pop(v.begin(), o.i(1));
            v.resize(k);
            return ok(jnums(v));
        }
        if (n == "pop1") { long v; return r[i]->pop(v) ? ok(v) : NONE; }
        if (n == "reopen") { delete r[i]; r[i] = new Recycler<long>(p); return ok(0l); }
        return BAD;
    }
};

int main(int argc, char** argv) {
    vt_main();
    return seqmain(argc, argv, [](const Script& s) {
        Obj* o = nullptr;
        std::string k = s.cs(0);
        if (k == "lru") o = new Lru(s);
        if (k == "exp") o = new Exp;
        if (k == "dmap") o = new Dm;
        if (k == "dset") o = new Ds;
        if (k == "trie") o = new Tr;
        if (k == "circ") o = new Ci(s);
        if (k == "bloom") o = new Bl(s);
        if (k == "recyc") o = new Re;
        for (auto& x : s.ops) {
            std::string r;
            try {
                r = o->apply(x);
            }
            catch (Exception& e) {
                r = "[\"exc\"]";
            }
            put(r);
        }
    });
}
