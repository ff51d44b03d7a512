// JSON and YAML texts, read and written
#include "common.h"
#include "eckit/config/LocalConfiguration.h"
#include "eckit/config/YAMLConfiguration.h"
#include "eckit/exception/Exceptions.h"
#include "eckit/filesystem/PathName.h"
#include "eckit/io/Buffer.h"
#include "eckit/io/DataHandle.h"
#include "eckit/log/JSON.h"
#include "eckit/parser/JSONParser.h"
#include "eckit/parser/YAMLParser.h"
#include "main_init.h"
#include "vtree.h"

static const std::string EXC = "[\"exc\"]";
static std::string bytesOf(const std::string& w) {
    T t = parse(w);
    std::string r;
    for (auto& c : t.a) r += char(c.n);
    return r;
}
static void file(const std::string& f, const std::string& s) {
    std::ofstream o(f, std::ios::binary);
    o << s;
}
struct Cfg : public YAMLConfiguration {
    using YAMLConfiguration::YAMLConfiguration;
    const Value& value() const { return getValue(); }
};

// through the writer's own operations
static void emit(JSON& j, const T& t) {
    const std::string& k = t.a[0].s;
    turn++;
    if (k == "n") j.null();
    else if (k == "b") j << bool(t.a[1].n);
    else if (k == "i") {
        long long v = intOf(t);
        int w = turn % 5;
        if (w == 0 && int(v) == v) j << int(v); else if (w == 1 && v >= 0 && (unsigned)(v) == v) j << (unsigned)(v); else if (w == 2) j << long(v); else if (w == 3 && v >= 0) j << (unsigned long long)(v); else j << v;
    }
    else if (k == "d") j << dblOf(t);
    else if (k == "s") {
        std::string s = strOf(t);
        if (s.size() == 1 && turn % 2) { if (turn % 4 == 1) j << s[0]; else j << (unsigned char)(s[0]); }
        else if (turn % 3 == 0 && s.find('\0') == std::string::npos) j << s.c_str();
        else j << s;
    }
    else if (k == "l") {
        bool str = !t.a[1].a.empty(), num = str;
        for (auto& x : t.a[1].a) { str = str && x.a[0].s == "s"; num = num && x.a[0].s == "i"; }
        if (str && turn % 2) { std::vector<std::string> v; for (auto& x : t.a[1].a) v.push_back(strOf(x)); j << v; return; }
        if (num && turn % 2) { std::vector<long long> v; for (auto& x : t.a[1].a) v.push_back(intOf(x)); j << v; return; }
        j.startList();
        for (auto& x : t.a[1].a) emit(j, x);
        j.endList();
    }
    else {
        j.startObject();
        for (auto& x : t.a[1].a) { j << strOf(x.a[0]); emit(j, x.a[1]); }
        j.endObject();
    }
}
static JSON::Formatting format(const std::string& f) {
    if (f == "dict") return JSON::Formatting::indent(turn % 3 + 1);
    if (f == "all") return JSON::Formatting(JSON::Formatting::INDENT_ALL, turn % 3);
    if (f == "list") return JSON::Formatting(JSON::Formatting::INDENT_LIST, 2);
    return JSON::Formatting::compact();
}
static std::string text(const T& t, const std::string& style) {
    // style: how-format-precision
    std::string how = style.substr(0, 3), f = style.substr(4, style.find('-', 4) - 4);
    int prec = atoi(style.c_str() + style.rfind('-') + 1);
    std::ostringstream o;
    {
        std::unique_ptr<JSON> j(f == "none" ? new JSON(o) : new JSON(o, format(f)));
        if (prec) j->precision(prec);
        if (how == "val") *j << make(t);
        else if (how == "cfg" && t.a[0].s == "o") { LocalConfiguration c; struct L : public LocalConfiguration { L(const Value& v) : LocalConfiguration(v) {} }; L l(make(t)); *j << static_cast<const Configuration&>(l); }
        else emit(*j, t);
    }
    return o.str();
}

static void run(const Script& s) {
    decimal = true;
    std::string f = scratch() + "/doc";
    for (auto& o : s.ops) {
        const std::string& n = o.name;
        std::string r;
        turn++;
        try {
            if (n == "parse") {
                std::string x = bytesOf(o.s(0));
                Value v;
                int w = turn % 4;
                if (w == 0) { file(f, x); v = JSONParser::decodeFile(f); }
                else if (w == 1) { std::istringstream in(x); v = JSONParser(in).parse(); }
                else v = JSONParser::decodeString(x);
                r = "[\"tree\"," + tree(v) + "]";
            }
            else if (n == "yaml" || n == "ydoc") {
                std::string x = bytesOf(o.s(n == "ydoc"));
                Value v;
                int w = turn % 4;
                if (w == 0) { file(f, x); v = YAMLParser::decodeFile(f); }
                else if (w == 1) { std::istringstream in(x); v = YAMLParser(in).parse(); }
                else if (w == 2) { Cfg c(x); v = c.value(); }
                else v = YAMLParser::decodeString(x);
                r = "[\"tree\"," + tree(v) + "]";
            }
            else if (n == "write") { std::string x = text(parse(o.s(0)), o.s(1)); r = "[\"text\"," + jbytes(x.data(), x.size()) + "]"; }
            else if (n == "again") { std::string x = text(parse(o.s(0)), o.s(1)); r = "[\"text\"," + tree(turn % 2 ? JSONParser::decodeString(x) : YAMLParser::decodeString(x)) + "]"; }
            else r = "[\"badop\"]";
        }
        catch (std::exception&) {
            r = EXC;
        }
        put(r);
    }
}

int main(int argc, char** argv) {
    vt_main();
    return seqmain(argc, argv, run);
}
