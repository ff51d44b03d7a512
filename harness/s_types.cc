// dates, times, fractions and such
#include <cmath>
#include "common.h"
#include "eckit/exception/Exceptions.h"
#include "eckit/io/Buffer.h"
#include "eckit/serialisation/MemoryStream.h"
#include "eckit/serialisation/ResizableMemoryStream.h"
#include "eckit/types/Date.h"
#include "eckit/types/DateTime.h"
#include "eckit/types/Fraction.h"
#include "eckit/types/Hour.h"
#include "eckit/types/SemanticVersion.h"
#include "eckit/types/Time.h"
#include "main_init.h"
#include "vtree.h"

static const std::string EXC = "[\"exc\"]";
static const Date Day0(2000, 1, 1);
static std::string bytesOf(const std::string& w) {
    T t = parse(w);
    std::string r;
    for (auto& c : t.a) r += char(c.n);
    return r;
}
static std::string ok(const std::string& s) {
    return "[\"ok\"," + s + "]";
}
static std::string bytes(const std::string& s) {
    return jbytes(s.data(), s.size());
}
static std::string more(const std::vector<long>& v, const std::string& s) {
    std::string r = "[";
    for (long x : v) r += (r.size() > 1 ? "," : "") + std::to_string(x);
    for (unsigned char c : s) r += (r.size() > 1 ? "," : "") + std::to_string(int(c));
    return ok(r + "]");
}
static long num(const Date& d) {
    return d - Day0;
}
static std::string str(const Date& d) {
    if (turn % 2) return std::string(d);
    std::ostringstream o;
    o << d;
    return o.str();
}
template <class F>
static bool throws(F f) {
    try { f(); } catch (std::exception&) { return true; }
    return false;
}
static Date day(long n) {
    Date d(Day0);
    d += n;
    return d;
}
static std::string secs(double s) {
    return s == long(s) ? ok(jnum(long(s))) : "[\"fraction\"]";
}
template <class X>
static void six(std::vector<long>& v, const X& a, const X& b) {
    for (bool x : {a == b, a != b, a < b, a > b, a <= b, a >= b}) v.push_back(x);
}

static std::string frac(const Fraction& f) {
    return ok("[" + jnum(f.numerator()) + "," + jnum(f.denominator()) + "]");
}
static std::string fractions(const Op& o) {
    const std::string& n = o.name;
    auto F = [&](size_t k) { return Fraction((long long)o.i(k), (long long)o.i(k + 1)); };
    if (n == "mk") { Fraction f = F(0); Fraction g(f); Fraction h; h = g; return frac(h); }
    if (n == "int") { long v = o.i(0); switch (turn % 5) { case 0: return frac(Fraction(int(v))); case 1: return frac(Fraction(long(v))); case 2: return frac(Fraction((long long)v)); case 3: if (v >= 0) return frac(Fraction((unsigned long)v)); return frac(Fraction(short(v))); default: return frac(Fraction(double(v))); } }
    if (n == "dbl") return frac(Fraction(double(o.i(0)) / double(o.i(1))));
    if (n == "pstr") { std::string s = bytesOf(o.s(0)); return frac(turn % 2 ? Fraction(s) : Fraction(s.c_str())); }
    if (n == "pdec") return frac(Fraction::fromString(bytesOf(o.s(0))));
    if (n == "ar") {
        Fraction a = F(1), b = F(3), r;
        char op = o.s(0)[0];
        bool bi = b.denominator() == 1 && turn % 3 == 0, ai = a.denominator() == 1 && turn % 3 == 1;
        long bn = b.numerator();
        int an = a.numerator();
        switch (op) {
            case '+': if (bi) { if (turn % 2) r = a + bn; else { r = a; r += bn; } } else if (ai) r = an + b; else if (turn % 2) r = a + b; else { r = a; r += b; } break;
            case '-': if (bi) { if (turn % 2) r = a - bn; else { r = a; r -= bn; } } else if (ai) r = an - b; else if (turn % 2) r = a - b; else { r = a; r -= b; } break;
            case '*': if (bi) { if (turn % 2) r = a * bn; else { r = a; r *= bn; } } else if (ai) r = an * b; else if (turn % 2) r = a * b; else { r = a; r *= b; } break;
            case '/': if (bi) { if (turn % 2) r = a / bn; else { r = a; r /= bn; } } else if (ai) r = an / b; else if (turn % 2) r = a / b; else { r = a; r /= b; } break;
        }
        return frac(r);
    }
    if (n == "big") {
        // terms near or beyond the largest: the value, scaled, is told to the nearest
        long k = o.i(5), q = o.i(2), r = o.i(3), t = o.i(4);
        Fraction a((o.i(1) << k) + 1, q), b(r, t), x;
        char op = o.s(0)[0];
        if (op == '<') {
            std::vector<long> v;
            six(v, a, b);
            six(v, b, a);
            return more(v, "");
        }
        x        = op == '+' ? a + b : op == '-' ? a - b : op == '*' ? a * b : a / b;
        double d = double(x) / double(1L << k) * q * (op == '*' ? t : op == '/' ? r : 1);
        return ok(jnum(std::lround(d)));
    }
    if (n == "self") { Fraction a = F(1); char op = o.s(0)[0]; if (op == '+') a += a; else if (op == '-') a -= a; else if (op == '*') a *= a; else a /= a; return frac(a); }
    if (n == "fcmp") {
        Fraction a = F(0), b = F(2);
        std::vector<long> v;
        if (b.denominator() == 1 && turn % 2) { long k = b.numerator(); for (bool x : {a == k, a != k, a < k, a > k, a <= k, a >= k}) v.push_back(x); for (bool x : {k == a, k != a, k < a, k > a, k <= a, k >= a}) v.push_back(x); }
        else { six(v, a, b); six(v, b, a); }
        return more(v, "");
    }
    if (n == "neg") return frac(-F(0));
    if (n == "abs") return frac(Fraction::abs(F(0)));
    if (n == "inv") return frac(F(0).inverse());
    if (n == "ipart") return ok(jnum(F(0).integralPart()));
    if (n == "dpart") return frac(F(0).decimalPart());
    if (n == "toint") return ok(jnum(F(0).operator Fraction::value_type()));
    if (n == "isint") return ok(jnum(F(0).integer()));
    if (n == "fstr") { std::ostringstream s; s << F(0); return ok(bytes(s.str())); }
    if (n == "todbl") { double d = F(0); return d == double(o.i(0)) / double(o.i(1)) ? ok("0") : "[\"double\"]"; }
    if (n == "stable") return frac(F(0).stableVersion());
    if (n == "stream") {
        Buffer buf(1024);
        { MemoryStream s(buf); s << F(0) << F(2); }
        MemoryStream s(buf);
        Fraction a, b;
        s >> a >> b;
        return ok("[" + jnum(a.numerator()) + "," + jnum(a.denominator()) + "," + jnum(b.numerator()) + "," + jnum(b.denominator()) + "]");
    }
    return "[\"badop\"]";
}

static void run(const Script& s) {
    bool fr = s.ci(0);
    for (auto& o : s.ops) {
        const std::string& n = o.name;
        std::string r;
        turn++;
        try {
            if (fr) r = fractions(o);
            else if (n == "year") {
                long y = o.i(0);
                Date d(y, 1, 1), x(d);
                std::vector<long> v{num(d)};
                bool bad = false;
                for (long m = 1; m <= 12; m++) {
                    long k = 0;
                    for (long q = 1; q <= 31; q++) {
                        bool t = false;
                        try {
                            Date z(y, m, q);
                            k++;
                            bad |= z != x || x.year() != y || x.month() != m || x.day() != q || x.yyyymmdd() != y * 10000 + m * 100 + q || Date(x.yyyymmdd()) != x || num(x) != num(d) + x.julian() - d.julian()
                                   || x.dayOfWeek() != (num(x) % 7 + 12) % 7 || Date(y, num(x) - num(d) + 1) != x;
                            ++x;
                        }
                        catch (std::exception&) { t = true; }
                        bad |= t && k == q;
                    }
                    v.push_back(k);
                }
                r = bad ? "[\"calendar\"]" : more(v, "");
            }
            else if (n == "date") {
                long y = o.i(0), m = o.i(1), d = o.i(2);
                if (turn % 2) r = ok(jnum(num(Date(y, m, d))));
                else if (y * 10000 + m * 100 + d > 0 && m < 100 && d < 100) r = ok(jnum(num(Date(y * 10000 + m * 100 + d))));
                else r = ok(jnum(num(Date(y, m, d))));
            }
            else if (n == "yday") r = ok(jnum(num(Date(o.i(0), o.i(1)))));
            else if (n == "pdate") { std::string x = bytesOf(o.s(0)); r = ok(jnum(num(turn % 2 ? Date(x) : Date(Date::parse(x))))); }
            else if (n == "fields") { Date d = day(o.i(0)); r = more({d.year(), d.month(), d.day(), d.dayOfWeek()}, str(d)); }
            else if (n == "mname") r = ok(bytes(day(o.i(0)).monthName()));
            else if (n == "move") {
                Date d = day(o.i(0)), e(d);
                long k = o.i(1);
                if (k == 1 && turn % 2) ++d; else if (k == -1 && turn % 2) --d; else if (turn % 3 == 0) d += k; else if (turn % 3 == 1) d -= -k; else d = turn % 2 ? d + k : k + d;
                r = d - e != k || (k > 0) != (d > e) ? "[\"order\"]" : ok(jnum(num(d)));
            }
            else if (n == "ptime") r = secs(Time(bytesOf(o.s(0)), bool(o.i(1))));
            else if (n == "time") r = secs(Time(long(o.i(0)), long(o.i(1)), long(o.i(2)), bool(o.i(3))));
            else if (n == "secs") { long v = o.i(0); bool e = o.i(1); r = secs(turn % 3 == 0 ? Time(v, e) : turn % 3 == 1 ? Time(int(v), e) : Time(double(v), e)); }
            else if (n == "clock") { Time t(o.i(0), true); std::ostringstream x; x << t; r = x.str() != std::string(t) ? "[\"print\"]" : more({t.hours(), t.minutes(), t.seconds(), t.hhmmss()}, x.str()); }
            else if (n == "hour") {
                Hour h(bytesOf(o.s(0)));
                r = h != Hour(std::string(h)) || h < Hour(h.asString()) ? "[\"hour\"]" : ok(bytes(h.asString()));
            }
            else if (n == "hstr") { Hour h(o.i(0) / 3600.0); r = h != Hour(h.asString()) ? "[\"hour\"]" : ok(bytes(h.asString())); }
            else if (n == "semver") {
                std::string x = bytesOf(o.s(0));
                SemanticVersion v(x);
                SemanticVersion w{std::string(v)};
                r = !(v == w) || v < w || w < v ? "[\"version\"]" : ok(bytes(std::string(v)));
            }
            else {
                DateTime d(day(o.i(0)), Time(int(o.i(1))));
                if (n == "add") { DateTime e = turn % 2 ? d + double(o.i(2)) : d + Second(o.i(2)); r = double(e.time()) != long(double(e.time())) ? "[\"fraction\"]" : more({num(e.date()), long(double(e.time()))}, ""); }
                else if (n == "diff") r = secs(d - DateTime(day(o.i(2)), Time(int(o.i(3)))));
                else if (n == "cmp") {
                    DateTime e(day(o.i(2)), Time(int(o.i(3))));
                    std::vector<long> v;
                    six(v, d, e); six(v, d.date(), e.date()); six(v, d.time(), e.time());
                    r = more(v, "");
                }
                else if (n == "round") { DateTime e = d.round(o.i(2)); r = more({num(e.date()), long(double(e.time()))}, ""); }
                else if (n == "str") { std::ostringstream x; x << d; r = ok(bytes(turn % 2 ? x.str() : std::string(d))); }
                else if (n == "iso") r = ok(bytes(turn % 2 ? d.iso() : d.iso(false) + "Z"));
                else if (n == "again") { DateTime e{std::string(d)}; r = more({num(e.date()), long(double(e.time()))}, ""); }
                else if (n == "fmt") {
                    std::string x = d.format("%Y %m %d %H %M %S %j %w");
                    std::istringstream in(x);
                    std::vector<long> v;
                    long k;
                    while (in >> std::dec >> k) v.push_back(k);
                    r = more(v, "");
                }
                else r = "[\"badop\"]";
            }
        }
        catch (std::exception&) {
            r = EXC;
        }
        put(r);
    }
}

int main(int argc, char** argv) {
    vt_main();
    return seqmain(argc, argv, run);
}
