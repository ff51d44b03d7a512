"""D02: dates, times of day and their arithmetic follow the Gregorian calendar."""
import json

from .. import core
from .seqbase import evt


def b(t):
    return list(t.encode("latin-1"))


def seq(t):
    return "<<%s>>" % ", ".join(str(c) for c in b(t))


def al(t):
    return "{%s}" % ", ".join(str(c) for c in sorted(set(b(t))))


def w(c, e):
    if e is None:
        return [str(c["fr"])]
    return [e["op"]] + [json.dumps(x, separators=(",", ":")) if isinstance(x, list) else str(x) for x in e["a"]]


def chunks(es, fr, n=300):
    ops = sorted({json.dumps({"op": e[2]["e"]["op"], "a": e[2]["e"]["a"]}) for e in es})
    return [({"fr": fr}, [json.loads(o) for o in ops[k:k + n]]) for k in range(0, len(ops), n)]


def cfgs(quick):
    d = 0 if quick else 1
    l = ['[k |-> "years", lo |-> 100, hi |-> %d]' % (4000 if quick else 9999), '[k |-> "dates", ys |-> {0, 4, 99, 100, 400, 1582, 1899, 1900, 1999, 2000, 2001, 2004, 2100, 2400, 9999}]', '[k |-> "hms"]',
         '[k |-> "dt", ds |-> {-36525, -1, 0, 59, 60, 366, 8000}, ts |-> {0, 1, 3599, 43200, 86399}, ks |-> {-200000, -86401, -86400, -86399, -1, 0, 1, 43200, 86399, 86400, 86401, 1000000}]']
    for p, a, q, n in [("", "0129-", "", 6), ("200", "0134", "-0", 2), ("2000-", "0136-", "", 4 + d), ("1900-02-", "01239", "", 3), ("200001", "0123", "", 2), ("0", "04-36", "", 5 + d), ("", "janfeb", "", 3), ("03-", "012365", "", 3), ("2003-3", "0679", "", 2), ("20041", "012", "1", 1)]:
        l.append('[k |-> "pdate", pre |-> %s, al |-> %s, post |-> %s, n |-> %d]' % (seq(p), al(a), seq(q), n))
    for p, a, n in [("", "0256", 5 + d), ("", "126:", 5 + d), ("", "-16.", 4 + d), ("", "2dHms6", 5), ("-", "1:6.h", 4), ("1h", "2m5s0", 4), ("23:5", "9:0", 4), ("2", "3:9.5", 5)]:
        l.append('[k |-> "ptime", pre |-> %s, al |-> %s, n |-> %d]' % (seq(p), al(a), n))
    return "{%s}" % ", ".join(l)


def gen(rng):
    ev = []
    day = lambda: rng.choice([rng.randint(-8000, 8000), rng.randint(-400000, 2000000)])
    sec = lambda: rng.choice([rng.randint(0, 86399), 0, 86399, 43200])
    for _ in range(rng.randint(5, 40)):
        o = rng.choice(["add", "add", "diff", "cmp", "round", "str", "iso", "again", "fmt", "fields", "move", "pdate", "ptime", "hour", "hstr", "semver", "clock"])
        d, t = day(), sec()
        if o == "add":
            ev.append(evt(o, d, t, rng.choice([rng.randint(-100, 100), rng.randint(-200000, 200000), rng.randint(-10**9, 10**9), 86400 * rng.randint(-1000, 1000), -t, 86400 - t])))
        elif o == "diff":
            d = rng.randint(-10000, 10000)
            ev.append(evt(o, d, t, d + rng.choice([0, 1, -1, rng.randint(-9000, 9000)]), sec()))
        elif o == "cmp":
            ev.append(evt(o, d, t, d + rng.choice([0, 0, 1, -1, 400]), rng.choice([t, sec()])))
        elif o == "round":
            ev.append(evt(o, d, t, rng.choice([1, 60, 600, 3600, 21600, 43200, rng.randint(1, 40000)])))
        elif o in ("str", "iso", "again", "fmt"):
            if o == "again":
                d = rng.randint(-300000, 2000000)
            ev.append(evt(o, d, t))
        elif o == "fields":
            ev.append(evt(o, d))
        elif o == "move":
            ev.append(evt(o, d, rng.randint(-5000, 5000)))
        elif o == "clock":
            ev.append(evt(o, rng.randint(0, 10**6)))
        elif o == "hstr":
            ev.append(evt(o, rng.choice([rng.randint(0, 10**6), 60 * rng.randint(0, 10000), 3600 * rng.randint(0, 100)])))
        elif o == "hour":
            ev.append(evt(o, b(rng.choice(["%d" % rng.randint(0, 99), "%d:%02d" % (rng.randint(0, 99), rng.randint(0, 70)), "%d:%02d:%02d" % (rng.randint(0, 99), rng.randint(0, 63), rng.randint(0, 63)), "1:2:3:4"]))))
        elif o == "semver":
            ev.append(evt(o, b(".".join(rng.choice(["0", "1", "08", "10", "017", "123456", "9"]) for _ in range(rng.choice([3, 3, 3, 2, 4])))))) 
        elif o == "pdate":
            y, m, q = rng.randint(0, 9999), rng.randint(0, 13), rng.randint(0, 32)
            ev.append(evt(o, b(rng.choice(["%04d-%02d-%02d" % (y, m, q), "%04d%02d%02d" % (y, m, q), "%02d%02d%02d" % (y % 100, m, q), "%02d-%02d-%02d" % (y % 100, m, q), "%02d-%02d" % (m, q), "%04d-%03d" % (max(100, y), rng.randint(0, 370)), "%02d-%03d" % (y % 100, rng.randint(0, 370)), "%d-%d-%d" % (y, m, q)]))))
        else:
            h, m, q = rng.randint(0, 30), rng.randint(0, 62), rng.randint(0, 62)
            t = rng.choice(["%d" % h, "%02d%02d" % (h, m), "%02d%02d%02d" % (h, m, q), "%d:%02d" % (h, m), "%d:%d:%d" % (h, m, q), "%dh%dm%ds" % (h, m, q), "%dd%dh" % (h, m), "%dm" % (m * 7), "%ds" % (q * 999), "%dH%dS" % (h, q), "%d.%s" % (h, rng.choice(["5", "25", "75", "3333", "9999", "01", "123"])), "%d:%02d.5" % (h, m), "%dx" % h, "%dm%dh" % (m, h)])
            ev.append(evt("ptime", b(rng.choice(["", "", "", "-"]) + t), rng.randint(0, 1)))
    return {"fr": 0}, ev


def run(chk):
    core.build_libs(("eckit",))
    exe = core.build_harness("s_types", ["s_types.cc"])
    sp = chk.spec("D02")
    es = sp.mc("TimeM", cfgs(chk.quick), mem="8g", timeout=800)
    chk.extra["transitions_replayed"] = len(es)
    core.seq_check(chk, sp, "TimeM", exe, chunks(es, 0), w, "calendar")
    core.seq_check(chk, sp, "TimeM", exe, [gen(chk.rng) for _ in range(1000 if chk.quick else 20000)], w, "moments")
