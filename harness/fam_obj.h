// operations on FAM lists and maps, shared by the sequential and the concurrent harness
#pragma once
#include "fam_mock.h"
#include <algorithm>
#include <optional>
#include "eckit/exception/Exceptions.h"
#include "eckit/io/fam/FamConfig.h"
#include "eckit/io/fam/FamList.h"
#include "eckit/io/fam/FamMap.h"
#include "eckit/io/fam/FamRegionName.h"
#include "common.h"
using namespace vt;
using namespace eckit;
static std::string fok(const std::string& v) { return "[\"ok\"," + v + "]"; }
static std::string fok(long v) { return fok(jnum(v)); }
// byte strings of every kind: empty, with a zero byte in front, long
static std::string pay(long v) {
    if (v == 3) return "";
    if (v == 6) return std::string("\0\0\x006", 4);
    return std::to_string(v) + std::string(v == 5 ? 3000 : v % 5, 'x');
}
static long unpay(const std::string& s) {
    long v = s.empty() ? 3 : s[0] == 0 ? 6 : atol(s.c_str());
    return s == pay(v) ? v : -99;
}
static long unpay(const Buffer& b) { return unpay(std::string((const char*)b.data(), b.size())); }
struct FamL {
    FamRegion region;
    std::optional<FamList> list[8];
    static FamRegion mk() {
        return FamRegionName(net::Endpoint("localhost", 8880), FamPath("vt")).create(1 << 22, 0640, false);
    }
    FamL() : region(mk()) {}
    FamList& l(int t) {
        if (!list[t]) {
            list[t].emplace(region, "L");
        }
        return *list[t];
    }
    // last argument of every operation: the object (thread) used
    std::string apply(const Op& o, int t) {
        const std::string& n = o.name;
        try {
            FamList& q = l(t);
            if (n == "pushFront") { q.pushFront(pay(o.i(0))); return fok(0); }
            if (n == "pushBack") { q.pushBack(pay(o.i(0))); return fok(0); }
            if (n == "popFront") { q.popFront(); return fok(0); }
            if (n == "popBack") { q.popBack(); return fok(0); }
            if (n == "front") return fok(unpay(q.front()));
            if (n == "back") return fok(unpay(q.back()));
            if (n == "size") return fok(q.size());
            if (n == "empty") return fok(q.empty());
            if (n == "list") {
                std::vector<long> v;
                for (auto i = q.begin(); i != q.end(); ++i) { v.push_back(unpay(*i)); if (v.size() > 200) break; }
                return fok(jnums(v));
            }
            if (n == "rlist") {
                std::vector<long> v;
                auto b = q.begin();
                auto i = q.end();
                while (!(i == b)) { --i; v.push_back(unpay(*i)); if (v.size() > 200) break; }
                return fok(jnums(v));
            }
            if (n == "erase") {
                auto i = q.begin();
                for (long k = o.i(0); k > 0 && i != q.end(); k--) ++i;
                if (i == q.end()) return "[\"none\"]";
                auto j = q.erase(std::move(i));
                if (j == q.end()) return fok(-1);
                return fok(unpay(*j));
            }
            if (n == "eraseend") { q.erase(q.end()); return fok(0); }
            if (n == "clear") { q.clear(); return fok(0); }
            if (n == "reopen") {
                auto d = q.descriptor();
                list[t].reset();
                if (o.i(0)) list[t].emplace(region, d);
                else list[t].emplace(region, "L");
                return fok(0);
            }
        }
        catch (std::exception& e) {
            return "[\"exc\"]";
        }
        return "[\"badop\"]";
    }
};
struct FamM {
    FamRegion region;
    std::vector<std::string> keys;   // 0..3 share a bucket, 4..5 another, the rest are alone
    std::optional<FamMap32> map[2][8];
    static size_t bucket(const std::string& k) { return FamHash<FixedString<32>>{}(FixedString<32>(k)) % 1024; }
    FamM() : region(FamL::mk()) {
        std::map<size_t, std::vector<std::string>> b;
        for (int i = 0; keys.size() < 6 && i < 100000; i++) {
            std::string k = "k" + std::to_string(i);
            auto& v       = b[bucket(k)];
            v.push_back(k);
            if ((keys.empty() && v.size() == 4) || (keys.size() == 4 && v.size() == 2 && v[0] != keys[0])) {
                keys.insert(keys.end(), v.begin(), v.end());
            }
        }
        keys.push_back("a");
        keys.push_back(std::string(32, 'z'));
        map[0][0].emplace("A", region);
        map[1][0].emplace("B", region);
    }
    FamMap32& m(int x, int t) {
        if (!map[x][t]) map[x][t].emplace(x ? "B" : "A", region);
        return *map[x][t];
    }
    int keyno(const FixedString<32>& k) {
        for (size_t i = 0; i < keys.size(); i++) if (k == FixedString<32>(keys[i])) return i;
        return -1;
    }
    std::string apply(const Op& o, int t) {
        const std::string& n = o.name;
        try {
            auto& q = m(o.i(0), t);
            FixedString<32> k(keys.at(o.i(1)));
            std::string v = pay(o.i(2));
            auto val = [&](FamMap32::iterator& i) { auto e = *i; return keyno(e.key) == o.i(1) ? unpay(e.value) : -98; };
            if (n == "insert") { auto r = q.insert(k, v); return fok("[" + jnum(val(r.first)) + "," + jnum(r.second) + "]"); }
            if (n == "assign") { auto r = q.insertOrAssign(k, v); return fok("[" + jnum(val(r.first)) + "," + jnum(r.second) + "]"); }
            if (n == "force") { auto r = q.forceInsert(k, v); return fok(o.i(3) ? 0 : val(r)); }
            if (n == "erase") return fok(q.erase(k));
            if (n == "find") { auto i = q.find(k); if (i == q.end()) return "[\"none\"]"; return fok(val(i)); }
            if (n == "contains") return fok(q.contains(k));
            if (n == "count") return fok(q.count(k));
            if (n == "size") return fok(q.size());
            if (n == "empty") return fok(q.empty());
            if (n == "clear") { q.clear(); return fok(0); }
            if (n == "merge") { q.merge(m(1 - o.i(0), t)); return fok(0); }
            if (n == "reopen") { map[o.i(0)][t].reset(); return fok(0); }
            if (n == "lock") { q.lock(); return fok(0); }
            if (n == "unlock") { q.unlock(); return fok(0); }
            if (n == "list") {
                std::vector<std::vector<long>> r(keys.size());
                int c = 0;
                for (auto i = q.begin(); i != q.end(); ++i) {
                    auto e = *i;
                    int k = keyno(e.key);
                    if (k < 0 || ++c > 300) return "[\"badkey\"]";
                    r[k].push_back(unpay(e.value));
                }
                return fok(jlist(r, [](const std::vector<long>& x) { return jnums(x); }));
            }
        }
        catch (std::exception& e) {
            return "[\"exc\"]";
        }
        return "[\"badop\"]";
    }
};
