// eckit::Value and eckit::LocalConfiguration, a few variables of each
#include "common.h"
#include "eckit/config/LocalConfiguration.h"
#include "eckit/exception/Exceptions.h"
#include "eckit/io/Buffer.h"
#include "eckit/serialisation/MemoryStream.h"
#include "eckit/utils/MD5.h"
#include "eckit/value/Value.h"
#include "main_init.h"
#include "vtree.h"

using namespace vt;
using namespace eckit;

static std::string ok(const std::string& v) {
    return "[\"ok\"," + v + "]";
}
static const std::string EXC = "[\"exc\"]", SKIP = "[\"skip\"]", NONE = "[\"none\"]";
template <class C, class F>
static std::string all(const C& c, F f) {
    return ok(jlist(c, f));
}
static bool isList(const Value& v) { return v.isList(); }
static bool step(const Value& v, const Value& k, Value& r) {
    if (v.isMap() || v.isOrderedMap()) { if (!v.contains(k)) return false; }
    else if (!(v.isList() && k.isNumber() && v.contains(k))) return false;
    r = v[k];
    return true;
}
static bool walk(const Value& v, const std::vector<Value>& p, size_t n, Value& r) {
    r = v;
    for (size_t i = 0; i < n; i++) { Value x; if (!step(r, p[i], x)) return false; r = x; }
    return true;
}
static Value& at(Value& v, const Value& k) {
    turn++;
    if (turn % 2 && k.isString()) { std::string s = k; return turn % 4 == 1 ? v[s] : v[s.c_str()]; }
    if (turn % 2 && k.isNumber() && (long long)(k) < 1000 && (long long)(k) > -1000) return v[int(k)];
    return turn % 4 ? v[k] : v.element(k);
}
static Value cat(const Value& v, const Value& k) {
    turn++;
    if (turn % 2 && k.isString()) { std::string s = k; return turn % 4 == 1 ? v[s] : v[s.c_str()]; }
    if (turn % 2 && k.isNumber() && (long long)(k) < 1000 && (long long)(k) > -1000) return v[int(k)];
    return turn % 4 ? v[k] : v.element(k);
}
static std::string digest(const Value& v) { MD5 h; v.hash(h); return h.digest(); }
static int sgn(int x) { return x < 0 ? -1 : x > 0; }

static void values(const Script& s) {
    std::vector<Value> v(s.ci(1));
    auto state = [&] { return all(v, [](const Value& x) { return tree(x); }); };
    auto path = [](const std::string& w) { std::vector<Value> p; T t = parse(w); for (auto& x : t.a) p.push_back(make(x)); return p; };
    for (auto& o : s.ops) {
        const std::string& n = o.name;
        std::string r;
        auto x = [&](size_t k) -> Value& { return v.at(o.i(k) - 1); };
        turn++;
        try {
            if (n == "lit") { x(0) = make(parse(o.s(1))); r = state(); }
            else if (n == "cp") { if (turn % 2) { Value t(x(1)); x(0) = t; } else x(0) = x(1); r = state(); }
            else if (n == "put") {
                auto p = path(o.s(1)); Value u, tmp = x(2);
                if (!walk(x(0), p, p.size() - 1, u) || (isList(u) && !p.back().isNumber())) { put(SKIP); continue; }
                u = Value();
                Value* q = &x(0);
                for (auto& k : p) q = &at(*q, k);
                *q = tmp; r = state();
            }
            else if (n == "get") {
                auto p = path(o.s(1)); Value u;
                if (!walk(x(0), p, p.empty() ? 0 : p.size() - 1, u) || (!p.empty() && isList(u) && !p.back().isNumber())) { put(SKIP); continue; }
                const Value* c = &x(0); std::vector<Value> keep; keep.reserve(p.size());
                for (auto& k : p) { keep.push_back(cat(*c, k)); c = &keep.back(); }
                r = "[\"tree\"," + tree(*c) + "]";
            }
            else if (n == "take") {
                auto p = path(o.s(2)); Value u;
                if (!walk(x(1), p, p.size(), u)) { put(SKIP); continue; }
                if (turn % 2) x(0) = u;
                else { u = Value(); Value* q = &x(1); for (auto& k : p) q = &at(*q, k); Value t(*q); x(0) = t; }
                r = state();
            }
            else if (n == "rm") {
                auto p = path(o.s(1)); Value u;
                if (!walk(x(0), p, p.size() - 1, u)) { put(SKIP); continue; }
                u = Value();
                Value* q = &x(0);
                for (size_t i = 0; i + 1 < p.size(); i++) q = &at(*q, p[i]);
                Value g = q->remove(p.back());
                r = "[\"tree\"," + tree(g) + "]";
            }
            else if (n == "has") {
                Value k = make(parse(o.s(1)));
                if (x(0).isList() && !k.isNumber()) { put(SKIP); continue; }
                bool b = turn % 2 && k.isString() ? (turn % 4 == 1 ? x(0).contains(std::string(k)) : x(0).contains(std::string(k).c_str())) : x(0).contains(k);
                r = ok(jnum(b));
            }
            else if (n == "keys") r = "[\"tree\"," + tree(x(0).keys()) + "]";
            else if (n == "size") r = ok(jnum(x(0).size()));
            else if (n == "app") {
                auto p = path(o.s(1)); Value u, tmp = x(2);
                if (!walk(x(0), p, p.size(), u)) { put(SKIP); continue; }
                u = Value();
                Value* q = &x(0);
                for (auto& k : p) q = &at(*q, k);
                q->append(tmp); r = state();
            }
            else if (n == "arith") {
                char c = o.s(1)[0]; Value& a = x(2); Value& b = x(3);
                auto small = [](const Value& y) { return y.isNumber() && (long long)(y) >= -20000 && (long long)(y) <= 20000; };
                bool mp = a.isMap() || a.isOrderedMap() || b.isMap() || b.isOrderedMap();
                bool can = (a.isString() && b.isString() && c == '+') || (a.isList() && b.isList() && c == '+') || (small(a) && small(b)) || (a.isDouble() && b.isDouble() && c != '*') || mp;
                if (!can) { put(SKIP); continue; }
                if (turn % 2 || o.i(0) != o.i(2)) x(0) = c == '+' ? a + b : c == '-' ? a - b : a * b;
                else if (c == '+') x(0) += b; else if (c == '-') x(0) -= b; else x(0) *= b;
                r = state();
            }
            else if (n == "cmp") {
                Value &a = x(0), &b = x(1);
                int c = sgn(a.compare(b));
                bool good = (a == b) == (c == 0) && (a != b) == (c != 0) && (a < b) == (c < 0) && (a > b) == (c > 0) && (a <= b) == (c <= 0) && (a >= b) == (c >= 0);
                r = good ? ok(jnum(c)) : "[\"inconsistent\"]";
            }
            else if (n == "conv") {
                const Value& a = x(0); const std::string& ty = o.s(1);
                if (ty == "int") { long l(a); ASSERT(int(l) == l); r = ok(tInt(l)); }
                else if (ty == "long") r = ok(tInt(turn % 2 ? (long long)(a) : a.as<long long>()));
                else if (ty == "size") r = ok(tInt((unsigned long)(a)));
                else if (ty == "dbl") r = ok(tDbl(double(a)));
                else if (ty == "bool") r = ok(tBool(bool(a)));
                else r = ok(tStr(turn % 2 ? std::string(a) : a.as<std::string>()));
            }
            else if (n == "stream") {
                Buffer b(1 << 20);
                { MemoryStream m(b); m << x(1); }
                MemoryStream m(b); Value t(m); x(0) = t; r = state();
            }
            else if (n == "clone") { Value t = x(1).clone(); x(0) = t; r = state(); }
            else if (n == "hash") r = ok(jnum(digest(x(0)) == digest(x(1))));
            else if (n == "head" || n == "tail") { if (!x(0).isList()) { put(SKIP); continue; } r = "[\"tree\"," + tree(n == "head" ? x(0).head() : x(0).tail()) + "]"; }
            else r = "[\"badop\"]";
        }
        catch (std::exception&) {
            r = EXC;
        }
        put(r);
    }
}

// a configuration whose content can be looked at, and given
struct C : public LocalConfiguration {
    using LocalConfiguration::LocalConfiguration;
    explicit C(char sep) : LocalConfiguration(sep) {}
    C(const C& o) : LocalConfiguration(o) {}
    C(const LocalConfiguration& o) : LocalConfiguration(o) {}
    C(const Value& v, char sep, int) : LocalConfiguration(v, sep) {}
    C& operator=(const C& o) { LocalConfiguration::operator=(o); return *this; }
    const Value& value() const { return getValue(); }
};

template <class V>
static bool listOfInts(const T& t, V& r) {
    for (auto& x : t.a[1].a) {
        if (x.a[0].s != "i") return false;
        long long v = intOf(x);
        if ((typename V::value_type)(v) != v || v < 0) return false;
        r.push_back(v);
    }
    return true;
}
static std::string E(int v) { return tInt(v); }
static std::string E(long v) { return tInt(v); }
static std::string E(long long v) { return tInt(v); }
static std::string E(size_t v) { return tInt((long long)v); }
static std::string E(double v) { return tDbl(v); }
static std::string E(float v) { return tDbl(v); }
static std::string E(bool v) { return tBool(v); }
static std::string E(const std::string& v) { return tStr(v); }
template <class V>
static std::string E(const std::vector<V>& v) { return "[\"l\"," + jlist(v, [](const V& x) { return E(x); }) + "]"; }
template <class V, class F, class G>
static std::string getm(const C& c, const std::string& p, long mode, V def, F one, G two) {
    if (mode == 0) { V x{}; return c.get(p, x) ? ok(E(x)) : NONE; }
    if (mode == 1) return ok(E(one()));
    V x = two(def);
    return x == def ? "[\"default\"]" : ok(E(x));
}
#define GET(V, NAME, DEF) getm<V>(c, p, mode, DEF, [&] { return c.get##NAME(p); }, [&](const V& d) { return c.get##NAME(p, d); })

static void set(C& c, const std::string& p, const T& t) {
    const std::string& k = t.a[0].s;
    if (k == "b") c.set(p, bool(t.a[1].n));
    else if (k == "i") {
        long long v = intOf(t);
        int w = turn % 4;
        if (w == 0 && int(v) == v) c.set(p, int(v)); else if (w == 1 && v >= 0) c.set(p, size_t(v)); else if (w == 2) c.set(p, long(v)); else c.set(p, v);
    }
    else if (k == "d") { if (turn % 2) c.set(p, t.a[1].n / 2.0); else c.set(p, float(t.a[1].n / 2.0)); }
    else if (k == "s") { std::string s = strOf(t); if (turn % 2) c.set(p, s); else c.set(p, s.c_str()); }
    else {
        auto& l = t.a[1].a;
        std::string k0 = l.empty() ? std::string() : l[0].a[0].s;
        int w = turn % 4;
        if (k0 == "s" || (l.empty() && w == 0)) { std::vector<std::string> v; for (auto& x : l) v.push_back(strOf(x)); c.set(p, v); }
        else if (k0 == "d" || (l.empty() && w == 1)) {
            std::vector<double> v; for (auto& x : l) v.push_back(x.a[1].n / 2.0);
            if (w % 2) c.set(p, v); else c.set(p, std::vector<float>(v.begin(), v.end()));
        }
        else {
            std::vector<int> a; std::vector<size_t> b; 
            if (w == 0 && listOfInts(t, a)) c.set(p, a);
            else if (w == 1 && listOfInts(t, b)) c.set(p, b);
            else if (w == 2) { std::vector<long> v; for (auto& x : l) v.push_back(intOf(x)); c.set(p, v); }
            else { std::vector<long long> v; for (auto& x : l) v.push_back(intOf(x)); c.set(p, v); }
        }
    }
}

static void configs(const Script& s) {
    char sep = s.cs(2)[0];
    std::vector<C> v;
    for (long i = 0; i < s.ci(1); i++) v.emplace_back(sep);
    auto state = [&] { return all(v, [](const C& x) { return tree(x.value()); }); };
    auto name = [&](const std::string& w) { std::string r; T t = parse(w); for (auto& x : t.a) { if (!r.empty()) r += sep; r += strOf(x); } return r; };
    // a list is on the way to p (what setting does there is not specified)
    auto listway = [&](const C& c, const std::string& w) {
        T t = parse(w);
        Value cur = c.value();
        for (size_t i = 0; i + 1 <= t.a.size(); i++) {
            if (cur.isList()) return true;
            if (!(cur.isMap() || cur.isOrderedMap()) || !cur.contains(strOf(t.a[i]))) return false;
            const Value& cc = cur; Value nx = cc[strOf(t.a[i])]; cur = nx;
        }
        return false;
    };
    Value held;
    for (auto& o : s.ops) {
        const std::string& n = o.name;
        std::string r;
        auto x = [&](size_t k) -> C& { return v.at(o.i(k) - 1); };
        turn++;
        try {
            if (n == "new") { x(0) = C(sep); r = state(); }
            else if (n == "cp") { if (turn % 2) { C t(x(1)); x(0) = t; } else x(0) = x(1); r = state(); }
            else if (n == "lit") { held = make(parse(o.s(1))); x(0) = C(held, sep, 0); r = state(); }
            else if (n == "set" || n == "put" || n == "puts") {
                if (listway(x(0), o.s(1))) { put(SKIP); continue; }
                if (n == "set") set(x(0), name(o.s(1)), parse(o.s(2)));
                else if (n == "put") x(0).set(name(o.s(1)), static_cast<const Configuration&>(x(2)));
                else { std::vector<LocalConfiguration> l; T t = parse(o.s(2)); for (auto& k : t.a) l.push_back(v.at(k.n - 1)); x(0).set(name(o.s(1)), l); }
                r = state();
            }
            else if (n == "merge") { x(0).set(static_cast<const Configuration&>(x(1))); r = state(); }
            else if (n == "rm") { x(0).remove(name(o.s(1))); r = state(); }
            else if (n == "has") r = ok(jnum(x(0).has(name(o.s(1)))));
            else if (n == "empty") r = ok(jnum(x(0).empty()));
            else if (n == "keys") r = "[\"tree\"," + E(x(0).keys()) + "]";
            else if (n == "hash") { MD5 a, b; x(0).hash(a); x(1).hash(b); r = ok(jnum(a.digest() == b.digest())); }
            else if (n == "get") {
                const C& c = x(0); std::string p = name(o.s(1)); T ty = parse(o.s(2)); bool vec = ty.a[0].s == "v"; std::string k = ty.a[1].s; long mode = o.i(3);
                bool alt = turn % 2;
                if (!vec) {
                    if (k == "int") r = alt ? GET(int, Int, 987654) : GET(std::int32_t, Int32, 987654);
                    else if (k == "long") { if (mode == 0 && alt) { long long l = 0; r = c.get(p, l) ? ok(E(l)) : NONE; } else r = alt ? GET(long, Long, 987654l) : GET(std::int64_t, Int64, 987654l); }
                    else if (k == "size") r = GET(size_t, Unsigned, 987654ul);
                    else if (k == "dbl") r = alt ? GET(double, Double, 987654.5) : GET(float, Float, 987654.5f);
                    else if (k == "bool") { if (mode == 2 && !c.has(p)) { r = c.getBool(p, true) && !c.getBool(p, false) ? "[\"default\"]" : "[\"bad\"]"; } else r = mode == 2 ? ok(E(c.getBool(p, turn % 2))) : mode == 1 ? ok(E(c.getBool(p))) : GET(bool, Bool, true); }
                    else r = GET(std::string, String, std::string("987654"));
                }
                else {
                    if (k == "int") r = alt ? GET(std::vector<int>, IntVector, std::vector<int>{987654}) : GET(std::vector<std::int32_t>, Int32Vector, std::vector<std::int32_t>{987654});
                    else if (k == "long") { if (mode == 0 && alt) { std::vector<long long> l; r = c.get(p, l) ? ok(E(l)) : NONE; } else r = alt ? GET(std::vector<long>, LongVector, std::vector<long>{987654}) : GET(std::vector<std::int64_t>, Int64Vector, std::vector<std::int64_t>{987654}); }
                    else if (k == "size") r = GET(std::vector<size_t>, UnsignedVector, std::vector<size_t>{987654});
                    else if (k == "dbl") r = alt ? GET(std::vector<double>, DoubleVector, std::vector<double>{987654.5}) : GET(std::vector<float>, FloatVector, std::vector<float>{987654.5f});
                    else r = GET(std::vector<std::string>, StringVector, std::vector<std::string>{"987654"});
                }
            }
            else if (n == "sub") {
                C& c = x(1); std::string p = name(o.s(2)); long mode = o.i(3);
                Value w = c.value(); bool th = true;
                { T t = parse(o.s(2)); for (auto& k : t.a) { if (!(w.isMap() || w.isOrderedMap()) || !w.contains(strOf(k))) { th = false; break; } const Value& cc = w; Value nx = cc[strOf(k)]; w = nx; } }
                if (th && !w.isOrderedMap()) { put(SKIP); continue; }
                w = Value();
                if (mode == 0) { LocalConfiguration l = c.getSubConfiguration(p); if (th && l.separator() != sep) { put("[\"separator\"]"); continue; } x(0) = th ? C(l) : C(l.getSubConfiguration("nothing").empty() && l.empty() ? LocalConfiguration(sep) : l); r = state(); }
                else if (mode == 1) { LocalConfiguration l(c, p); x(0) = C(l); r = state(); }
                else { LocalConfiguration l(sep); bool f = c.get(p, l); if (f) { x(0) = C(l); r = state(); } else r = NONE; }
            }
            else if (n == "subs") {
                C& c = x(1); std::string p = name(o.s(2)); long k = o.i(3);
                std::vector<LocalConfiguration> l;
                if (turn % 2) { if (!c.get(p, l)) { put(NONE); continue; } }
                else { if (!c.has(p)) { put(NONE); continue; } l = c.getSubConfigurations(p); }
                if (k < 1 || k > long(l.size())) { put(ok(jnum(l.size()))); continue; }
                if (!C(l[k - 1]).value().isOrderedMap()) { put(SKIP); continue; }
                x(0) = C(l[k - 1]); r = state();
            }
            else if (n == "is") {
                const C& c = x(0); std::string p = name(o.s(1));
                std::vector<int> f{c.isNull(p), c.isBoolean(p), c.isIntegral(p), c.isFloatingPoint(p), c.isString(p), c.isList(p), c.isSubConfiguration(p),
                                   c.isBooleanList(p), c.isIntegralList(p), c.isFloatingPointList(p), c.isStringList(p), c.isSubConfigurationList(p)};
                r = ok(jnums(f));
            }
            else r = "[\"badop\"]";
        }
        catch (std::exception&) {
            r = EXC;
        }
        put(r);
    }
}

int main(int argc, char** argv) {
    vt_main();
    return seqmain(argc, argv, [](const Script& s) { if (s.cs(0) == "cfg") configs(s); else values(s); });
}
