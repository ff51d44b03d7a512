// eckit::Value to and from the trees of ValTree.tla, as JSON text
#pragma once
#include "common.h"
#include "eckit/value/Value.h"

namespace {
using namespace vt;
using namespace eckit;

long turn = 0;

// the trees, as JSON text, in both directions
struct T {
    std::string s;
    long long n = 0;
    bool arr = false, num = false;
    std::vector<T> a;
};
inline T parse(const char*& p) {
    T t;
    if (*p == '[') {
        t.arr = true;
        p++;
        while (*p != ']') {
            t.a.push_back(parse(p));
            if (*p == ',') p++;
        }
        p++;
    }
    else if (*p == '"') {
        for (p++; *p != '"'; p++) t.s += *p;
        p++;
    }
    else {
        t.num = true;
        char* e;
        t.n = strtoll(p, &e, 10);
        p = e;
    }
    return t;
}
inline T parse(const std::string& s) {
    const char* p = s.c_str();
    return parse(p);
}
inline long long intOf(const T& t) {
    return (long long)(((unsigned long long)t.a[1].n << 44) + ((unsigned long long)t.a[2].n << 22) + t.a[3].n);
}
inline std::string strOf(const T& t) {
    std::string r;
    for (auto& c : t.a[1].a) r += char(c.n);
    return r;
}
// reals: <<"d", halves>>, or <<"d", sign, digits, exponent>> when decimal
bool decimal = false;
inline double dblOf(const T& t) {
    if (!decimal) return t.a[1].n / 2.0;
    if (t.a[1].n == 0) return 0;
    std::string s = t.a[1].n < 0 ? "-" : "";
    bool dot = false;
    for (auto& c : t.a[2].a) { s += char(c.n); if (!dot) s += '.'; dot = true; }
    s += "e" + std::to_string(t.a[3].n);
    return strtod(s.c_str(), nullptr);
}
inline Value make(const T& t) {
    const std::string& k = t.a[0].s;
    turn++;
    if (k == "n") return Value();
    if (k == "b") return Value(bool(t.a[1].n));
    if (k == "i") { long long v = intOf(t); if (int(v) == v && turn % 2) return Value(int(v)); return turn % 3 ? Value(v) : Value(long(v)); }
    if (k == "d") return Value(dblOf(t));
    if (k == "s") { std::string s = strOf(t); return turn % 2 || s.find(char(0)) != std::string::npos ? Value(s) : Value(s.c_str()); }
    if (k == "l") {
        if (turn % 2) { Value v = Value::makeList(); for (auto& x : t.a[1].a) v.append(make(x)); return v; }
        ValueList l; for (auto& x : t.a[1].a) l.push_back(make(x));
        return turn % 3 ? Value(l) : Value::makeList(l);
    }
    if (turn % 2) {
        Value v = k == "m" ? Value::makeMap() : Value::makeOrderedMap();
        for (auto& x : t.a[1].a) v[make(x.a[0])] = make(x.a[1]);
        return v;
    }
    ValueMap m; ValueList ks;
    for (auto& x : t.a[1].a) { Value key = make(x.a[0]); m[key] = make(x.a[1]); ks.push_back(key); }
    return k == "m" ? (turn % 3 ? Value(m) : Value::makeMap(m)) : Value::makeOrderedMap(m, ks);
}
inline std::string tInt(long long v) {
    unsigned long long u = (unsigned long long)v;
    return "[\"i\"," + jnum(v >> 44) + "," + jnum((u >> 22) & 0x3fffff) + "," + jnum(u & 0x3fffff) + "]";
}
inline std::string tBool(bool b) { return b ? "[\"b\",1]" : "[\"b\",0]"; }
inline std::string tDbl(double d) {
    if (decimal) {
        char b[64];
        snprintf(b, sizeof b, "%.14e", d);
        std::string s = b, digs;
        if (d == 0 || s.find('e') == std::string::npos) return d == 0 ? "[\"d\",0,[],0]" : "[\"D\"]";
        for (char c : s.substr(0, s.find('e'))) if (isdigit((unsigned char)c)) digs += c;
        while (digs.size() > 1 && digs.back() == '0') digs.pop_back();
        return "[\"d\"," + jnum(d < 0 ? -1 : 1) + "," + jbytes(digs.data(), digs.size()) + "," + jnum(atol(s.c_str() + s.find('e') + 1)) + "]";
    }
    double h = d * 2;
    if (h == (long)h && h > -1e9 && h < 1e9) return "[\"d\"," + jnum(long(h)) + "]";
    char b[64]; snprintf(b, sizeof b, "%.17g", d);
    return "[\"D\"," + jstr(b) + "]";
}
inline std::string tStr(const std::string& s) { return "[\"s\"," + jbytes(s.data(), s.size()) + "]"; }
inline std::string tree(const Value& v) {
    if (v.isNil()) return "[\"n\"]";
    if (v.isBool()) return tBool(v.as<bool>());
    if (v.isNumber()) return tInt(v.as<long long>());
    if (v.isDouble()) return tDbl(v.as<double>());
    if (v.isString()) return tStr(v.as<std::string>());
    if (v.isList()) { ValueList l = v.as<ValueList>(); return "[\"l\"," + jlist(l, [](const Value& x) { return tree(x); }) + "]"; }
    if (v.isOrderedMap()) { ValueMap m = v.as<ValueMap>(); ValueList ks = v.keys().as<ValueList>(); return "[\"o\"," + jlist(ks, [&](const Value& k) { auto i = m.find(k); return "[" + tree(k) + "," + (i == m.end() ? std::string("0") : tree(i->second)) + "]"; }) + "]"; }
    if (v.isMap()) { ValueMap m = v.as<ValueMap>(); return "[\"m\"," + jlist(m, [](auto& x) { return "[" + tree(x.first) + "," + tree(x.second) + "]"; }) + "]"; }
    return "[\"?\"]";
}
}  // namespace
