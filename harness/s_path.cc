// PathName and LocalPathName: names, and their effects on a directory of our own
#include <pwd.h>
#include <unistd.h>
#include "common.h"
#include "eckit/exception/Exceptions.h"
#include "eckit/filesystem/LocalPathName.h"
#include "eckit/filesystem/PathName.h"
#include "eckit/io/DataHandle.h"
#include "eckit/io/Length.h"
#include "eckit/io/Buffer.h"
#include "main_init.h"

using namespace vt;
using namespace eckit;

static std::string chars(const std::string& s) {
    return jlist(s, [](char c) { return jstr(std::string(1, c)); });
}
static std::string ok(const std::string& v) {
    return "[\"ok\"," + v + "]";
}
static const std::string EXC = "[\"exc\"]";
static std::string str(const Op& o, size_t k) {
    return o.s(k).substr(1);
}

static void names(const Script& s) {
    bool lp = s.ci(1);
    if (chdir(s.cs(2).c_str()) != 0) {
        put("[\"chdir\"]");
        return;
    }
    LocalPathName l;
    PathName p;
    auto cur = [&] { return lp ? l.path() : p.asString(); };
    for (auto& o : s.ops) {
        const std::string& n = o.name;
        std::string x = o.a.empty() || o.a[0][0] != '=' ? "" : str(o, 0);
        std::string r;
        try {
            if (n == "set") { if (lp) l = LocalPathName(x); else { if (x.size() % 2) p = x; else p = PathName(x.c_str()); } r = ok(chars(cur())); }
            else if (n == "div") {
                if (lp) l = x.size() % 2 || x.find("..") != std::string::npos || x[0] == '/' ? l / x.c_str() : l / LocalPathName(x, false, true);
                else if (x.size() == 1) p /= x.c_str();
                else if (x.size() % 2) p = p / x;
                else p /= x;
                r = ok(chars(cur()));
            }
            else if (n == "app") {
                if (lp) { if (x.size() == 1) l += x[0]; else if (x.size() % 2) l += x; else l = l + x.c_str(); }
                else { if (x.size() == 1) p += x[0]; else if (x.size() % 2) p += x; else p = p + x.c_str(); }
                r = ok(chars(cur()));
            }
            else if (n == "dir") { if (lp) l = l.dirName(); else p = p.dirName(); r = ok(chars(cur())); }
            else if (n == "base") { if (lp) l = l.baseName(o.i(0)); else p = p.baseName(o.i(0)); r = ok(chars(cur())); }
            else if (n == "ext") r = ok(chars(lp ? l.extension() : p.extension()));
            else if (n == "full") { if (lp) l = l.fullName(); else p = p.fullName(); r = ok(chars(cur())); }
            else if (n == "rel") r = ok(chars(l.relativePath(LocalPathName(x)).path()));
            else if (n == "eq") {
                bool e = lp ? l == LocalPathName(x) : p == PathName(x);
                bool ne = lp ? l != LocalPathName(x) : p != PathName(x);
                bool lt = lp ? l < LocalPathName(x) : p < PathName(x), gt = lp ? l > LocalPathName(x) : p > PathName(x);
                r = e == ne || (lt || gt) == e || (lt && gt) ? "[\"order\"]" : ok(jnum(e));
            }
            else r = "[\"badop\"]";
        }
        catch (std::exception&) {
            r = EXC;
        }
        put(r);
    }
}

// every path given is relative to the scratch directory, and has no way out of it; what the library makes of it must not either
static PathName in(const std::string& x, const std::string& top) {
    PathName p(x);
    std::string a = p.asString();
    if (a.empty() || a[0] == '/' || a[0] == '~' || a.substr(0, 2) == ".." ) {
        throw std::runtime_error("escape");
    }
    return p;
}
static void files(const Script& s) {
    std::string top = scratch() + "/fs" + std::to_string(getpid());
    ::mkdir(top.c_str(), 0777);
    ::chmod(top.c_str(), 0777);
    if (chdir(top.c_str()) != 0) {
        put("[\"chdir\"]");
        return;
    }
    // from here on nothing but the scratch directory can be written
    if (getuid() == 0 && (setgid(65534) != 0 || setuid(65534) != 0)) {
        put("[\"setuid\"]");
        return;
    }
    for (auto& o : s.ops) {
        const std::string& n = o.name;
        std::string r;
        try {
            PathName p = in(str(o, 0), top);
            auto q = [&] { return in(str(o, 1), top); };
            auto list = [](const std::vector<PathName>& v) { return jlist(v, [](const PathName& p) { return chars(p.asString()); }); };
            if (n == "exists") r = ok(jnum(p.exists()));
            else if (n == "isdir") r = ok(jnum(p.isDir()));
            else if (n == "size") r = ok(jnum((long long)p.size()));
            else if (n == "read") {
                std::unique_ptr<DataHandle> h(p.fileHandle());
                h->openForRead();
                std::string b;
                char buf[7];
                long k;
                while ((k = h->read(buf, sizeof buf)) > 0) b.append(buf, k);
                h->close();
                r = ok(jbytes(b.data(), b.size()));
            }
            else if (n == "write" || n == "over") {
                auto b = o.bytes(1);
                std::unique_ptr<DataHandle> h(p.fileHandle(n == "over"));
                h->openForWrite(Length(b.size()));
                h->write(b.empty() ? (const unsigned char*)"" : b.data(), b.size());
                h->close();
                r = ok("0");
            }
            else if (n == "touch") { p.touch(); r = ok("0"); }
            else if (n == "mkdir") { p.mkdir(); r = ok("0"); }
            else if (n == "unlink") { p.unlink(); r = ok("0"); }
            else if (n == "rmdir") { p.rmdir(); r = ok("0"); }
            else if (n == "rename") { PathName::rename(p, q()); r = ok("0"); }
            else if (n == "link") { PathName::link(p, q()); r = ok("0"); }
            else if (n == "copy") { LocalPathName(p).copy(LocalPathName(q())); r = ok("0"); }
            else if (n == "sameas") r = ok(jnum(p.sameAs(q())));
            else if (n == "empty") { LocalPathName(p).empty(); r = ok("0"); }
            else if (n == "truncate") { LocalPathName(p).truncate(Length(o.i(1))); r = ok("0"); }
            else if (n == "reserve") { p.reserve(Length(o.i(1))); r = ok("0"); }
            else if (n == "children" || n == "rchildren") {
                std::vector<PathName> f, d;
                if (n == "children") p.children(f, d); else p.childrenRecursive(f, d);
                r = "[\"sets\",[" + list(f) + "," + list(d) + "]]";
            }
            else if (n == "match") {
                std::vector<PathName> v;
                PathName::match(in(str(o, 0) + "/" + str(o, 1), top), v, o.i(2));
                r = "[\"sets\",[" + list(v) + "]]";
            }
            else if (n == "unique") {
                PathName u = PathName::unique(p);
                PathName v = PathName::unique(p);
                std::string b = p.asString() + ".";
                r = ok(jnum(u.asString().substr(0, b.size()) == b && !u.exists() && u.dirName().isDir() && !(u == v)));
            }
            else r = "[\"badop\"]";
        }
        catch (std::exception& e) {
            r = std::string(e.what()) == "escape" ? "[\"escape\"]" : EXC;
        }
        put(r);
    }
}

int main(int argc, char** argv) {
    vt_main();
    return seqmain(argc, argv, [](const Script& s) { s.cs(0) == "fs" ? files(s) : names(s); });
}
