// k-d trees, in memory and mapped from a file
#include <limits>
#include "common.h"
#include "eckit/container/KDTree.h"
#include "eckit/exception/Exceptions.h"
#include "eckit/filesystem/PathName.h"
#include "eckit/geometry/Point2.h"
#include "eckit/geometry/Point3.h"
#include "main_init.h"
#include "vtree.h"

template <class P>
struct Tr {
    using Point   = P;
    using Payload = long;
};
static std::string ids(const std::vector<long>& v) {
    return "[\"got\"," + jlist(v, [](long x) { return jnum(x); }) + "]";
}
static const std::string OK = "[\"ok\",0]", EXC = "[\"exc\"]";

template <class P>
static P pt(const T& t) {
    P p;
    std::vector<double> x;
    for (auto& c : t.a) x.push_back(c.n);
    return P(x.data());
}
struct Count {
    long in = 0, out = 0;
    template <class P>
    void enter(const P&, bool, int) { in++; }
    template <class P>
    void leave(const P&, bool, int) { out++; }
};

template <class T_>
static bool meta(KDTreeMemory<T_>&) {
    return true;  // nowhere to keep it
}
template <class T_>
static bool meta(KDTreeMapped<T_>& t) {
    using P    = typename T_::Point;
    double a[] = {1, 2, 3}, b[] = {4, 5, 6};
    P x(a), y(b), u, v;
    t.setMetadata(x, y);
    t.getMetadata(u, v);
    return u == x && v == y;
}

template <class Tree, class P>
struct Run {
    std::unique_ptr<Tree> t;
    std::vector<P> pts;
    std::function<Tree*(bool)> make;
    using V = typename Tree::Value;

    std::string list(const typename Tree::NodeList& l, const P& q) {
        std::vector<long> v;
        for (auto& n : l) {
            long i = n.payload();
            v.push_back(i);
            if (i < 1 || i > long(pts.size()) || !(n.point() == pts[i - 1]) || n.distance() != P::distance(q, pts[i - 1])) return "[\"node\"]";
            if (!(t->nodeByID(n.id()).payload() == i)) return "[\"id\"]";
        }
        return ids(v);
    }
    std::string op(const Op& o) {
        const std::string& n = o.name;
        if (n == "build") {
            T a = parse(o.s(0));
            std::vector<V> v;
            std::vector<P> q;
            for (auto& x : a.a) { q.push_back(pt<P>(x)); v.push_back(V(q.back(), long(q.size()))); }
            if (turn % 2) t->build(v); else t->build(v.begin(), v.end());
            pts = q;
            return OK;
        }
        if (n == "ins") {
            P p = pt<P>(parse(o.s(0)));
            t->insert(V(p, long(pts.size() + 1)));
            pts.push_back(p);
            return OK;
        }
        if (n == "nn") {
            P p = pt<P>(parse(o.s(0)));
            typename Tree::NodeList l;
            l.push_back(t->nearestNeighbour(p));
            return list(l, p);
        }
        if (n == "knn") { P p = pt<P>(parse(o.s(0))); return list(t->kNearestNeighbours(p, o.i(1)), p); }
        if (n == "ball") { P p = pt<P>(parse(o.s(0))); return list(t->findInSphere(p, double(o.i(1))), p); }
        if (n == "iter") {
            std::vector<long> v;
            for (auto i = t->begin(); i != t->end() && v.size() <= pts.size(); ++i) {
                long k = i->payload();
                if (k < 1 || k > long(pts.size()) || !(i->point() == pts[k - 1])) return "[\"item\"]";
                v.push_back(k);
            }
            if (!pts.empty()) { Count c; t->visit(c); if (c.in != long(pts.size()) || c.out != c.in) return "[\"visit\"]"; }
            return ids(v);
        }
        if (n == "size") return t->empty() != (t->size() == 0) ? "[\"empty\"]" : "[\"got\"," + jnum(t->size()) + "]";
        if (n == "reopen") { if (auto* x = make(false)) { t.reset(); delete x; t.reset(make(false)); } return OK; }
        if (n == "meta") return meta(*t) ? OK : "[\"meta\"]";
        return "[\"badop\"]";
    }
    void all(const Script& s) {
        t.reset(make(true));
        for (auto& o : s.ops) {
            turn++;
            std::string r;
            try { r = op(o); }
            catch (std::exception&) { r = EXC; }
            put(r);
        }
    }
};

template <class P>
static void go(const Script& s) {
    using Mem = KDTreeMemory<Tr<P>>;
    using Map = KDTreeMapped<Tr<P>>;
    if (s.cs(0) == "mem") {
        Run<Mem, P> r;
        r.make = [](bool first) { return first ? new Mem() : nullptr; };
        r.all(s);
    }
    else {
        std::string f = scratch() + "/tree";
        size_t cap = s.ci(2);
        Run<Map, P> r;
        r.make = [=](bool first) { return new Map(PathName(f), first ? cap : 0, first ? sizeof(typename Map::Metadata) : 0); };
        r.all(s);
    }
}

static void run(const Script& s) {
    if (s.ci(1) == 2) go<eckit::geometry::Point2>(s); else go<eckit::geometry::Point3>(s);
}

int main(int argc, char** argv) {
    vt_main();
    return seqmain(argc, argv, run);
}
