"""J01: JSON (and, as far as it goes, YAML) texts are read as the values they stand for, and what is written is read back."""
import json

from .. import core
from .seqbase import evt
from .v01 import BIG, i


def b(t):
    return list(t.encode("latin-1"))


def s(t):
    return ["s", b(t)]


def real(rng, nd):
    n = rng.randint(1, nd)
    d = [rng.choice("123456789")] + [rng.choice("0123456789") for _ in range(n - 1)]
    while d[-1] == "0":
        d.pop()
    if rng.random() < 0.1:
        return ["d", 0, [], 0]
    return ["d", rng.choice([-1, 1]), [ord(c) for c in d], rng.choice([0, 0, 1, 2, -1, -3, 5, 9, 20, -20, 120])]


STR = ["", "a", "ab c", "x:y", "#z", "\"", "\\", "\n", "\t\r\b\f", "\x01", "\x1f", "\x00", "a\x00b", "\x7f", "\xc3\xa9", "{", "]", ",", "/", "'", "é", "null", "1", " lead", "u0041"]


def string(rng):
    return s("".join(rng.choice(STR) for _ in range(rng.choice([0, 1, 1, 1, 2, 4]))))


def tree(rng, d, nd=15, strs=string):
    x = rng.random()
    if d == 0 or x < 0.5:
        k = rng.random()
        return ["n"] if k < 0.1 else ["b", rng.randint(0, 1)] if k < 0.2 else i(rng.choice([rng.randint(-9, 99), rng.randint(-10**9, 10**9), rng.randint(-10**17, 10**17)])) if k < 0.45 \
            else real(rng, nd) if k < 0.6 else strs(rng)
    n = rng.choice([0, 1, 2, 3])
    if x < 0.75:
        return ["l", [tree(rng, d - 1, nd, strs) for _ in range(n)]]
    ps = []
    for _ in range(n):
        k = strs(rng)
        if all(k != p[0] for p in ps):
            ps.append([k, tree(rng, d - 1, nd, strs)])
    return ["o", ps]


def gwrite(rng):
    ev = []
    for _ in range(rng.randint(1, 4)):
        prec = rng.choice([0, 0, 15, 9])
        t = tree(rng, 3, prec or 6)
        ev.append(evt(rng.choice(["write", "write", "again"]), t, "%s-%s-%d" % (rng.choice(["val", "api", "cfg"]), rng.choice(["none", "compact", "dict", "list", "all"]), prec)))
    return {"n": 0}, ev


def num(t):
    v = (t[1] << 44) + (t[2] << 22) + t[3]
    return str(v)


def jtext(rng, t, ws=True):
    """some JSON text for t"""
    w = lambda: rng.choice(["", "", "", " ", "\n", "  ", "\t", "\r\n"]) if ws else ""
    if t[0] == "n":
        return "null"
    if t[0] == "b":
        return "true" if t[1] else "false"
    if t[0] == "i":
        return num(t)
    if t[0] == "d":
        if t[1] == 0:
            return rng.choice(["0.0", "0e1", "-0.0", "0.00E+2"])
        d = "".join(chr(c) for c in t[2])
        sg = "-" if t[1] < 0 else ""
        if len(d) > 1 or rng.random() < 0.5:
            return "%s%s.%s%s%s%d" % (sg, d[0], d[1:] or "0", rng.choice(["", "0"]), rng.choice(["e", "E", "e+", "E+"]) if t[3] >= 0 else "e", t[3])
        return "%s%se%d" % (sg, d, t[3])
    if t[0] == "s":
        r = '"'
        for c in t[1]:
            k = rng.random()
            if c == 34 or c == 92:
                r += "\\" + chr(c) if k < 0.8 else "\\u00%02x" % c
            elif c < 32 or c < 127 and k < 0.1:
                r += {8: "\\b", 9: "\\t", 10: "\\n", 12: "\\f", 13: "\\r", 47: "\\/"}.get(c, "\\u%04x" % c) if k < 0.07 or c < 32 else rng.choice(["\\u%04x", "\\u%04X"]) % c
            else:
                r += chr(c)
        if rng.random() < 0.1:
            r += rng.choice(["\\u00e9", "\\u20AC", "\\ud83d\\ude00", "\\uD83D\\uDE00", "\\u0041bc", "\\u00e9 f", "\\ud83d", "\\ude00x", "\\u12"])
        return r + '"'
    if t[0] == "l":
        return "[" + w() + ("," + w()).join(jtext(rng, x, ws) + w() for x in t[1]) + "]"
    return "{" + w() + ("," + w()).join(jtext(rng, k, ws) + w() + ":" + w() + jtext(rng, v, ws) + w() for k, v in t[1]) + "}"


def gparse(rng):
    ev = []
    for _ in range(rng.randint(1, 8)):
        t = jtext(rng, tree(rng, rng.choice([1, 2, 3])))
        if rng.random() < 0.4:   # something wrong, perhaps
            for _ in range(rng.randint(1, 2)):
                k = rng.randint(0, len(t))
                m = rng.random()
                t = t[:k] + t[k + 1:] if m < 0.3 else t[:k] + rng.choice("[]{},:\"\\ 01-+.eEtfnu\n") + t[k:] if m < 0.7 else t[:k] + rng.choice("[]{},:\" 01-.e") + t[k + 1:]
        ev.append(evt("parse", b(t)))
        if rng.random() < 0.3 and "#" not in t:
            ev.append(evt("yaml", b(t)))
    return {"n": 0}, ev


def w(c, e):
    if e is None:
        return ["json"]
    return [e["op"]] + [json.dumps(x, separators=(",", ":")) if isinstance(x, list) else str(x) for x in e["a"]]


def post(t):
    """what was written becomes part of the event, for the specification to judge"""
    for e in t["ev"]:
        if e["op"] in ("write", "again") and e.get("r", [0])[0] == "text":
            e["a"] = [e["a"][0], e["a"][1], e["r"][1]]
            e["r"] = ["ok", 0]
        elif e["op"] in ("write", "again"):
            e["a"] = [e["a"][0], e["a"][1], [] if e["op"] == "write" else ["n"]]
    return t


def seq(t):
    return "<<%s>>" % ", ".join(str(c) for c in b(t))


def cfgs(quick):
    d = 0 if quick else 1
    l = [("", "[],1 ", "", 5 + d, 1), ("", "{}\"a:,", "", 5 + d, 0), ("{\"a\"", ":,}1{ \"", "", 4 + d, 1), ("", "10-.e+ ", "", 4 + d, 0), ("[", "10-.eE ", "]", 4 + d, 1), ("\"\\u", "04aFg\\ud", "\"", 4 + d, 1),
         ("\"\\ud8", "3d\\uce0", "\"", 3 + d, 0), ("\"a", "\\nbt/ x\"", "\"", 4 + d, 1), ("", "true ", "", 4 + d, 1), ("[", "nul ,", "]", 5 + d, 0), ("\"\\u004", "1 b\"f", "\"", 4, 1), ("\"\\ud83d\\u", "de06", "\"", 4 + d, 0),
         ("{\"a\":1,", "\"ab:2} ", "", 6, 0), ("[[", "],[{}", "", 5 + d, 1)]
    return "{%s}" % ", ".join("[pre |-> %s, al |-> {%s}, post |-> %s, n |-> %d, y |-> %d]" % (seq(p), ", ".join(sorted({str(ord(c)) for c in a})), seq(q), n, y) for p, a, q, n, y in l)


def run(chk):
    core.build_libs(("eckit",))
    exe = core.build_harness("s_json", ["s_json.cc"])
    sp = chk.spec("J01")
    es = sp.mc("JsonM", cfgs(chk.quick), mem="8g", timeout=800)
    chk.extra["transitions_replayed"] = len(es)
    ops = sorted(json.dumps({"op": e[2]["e"]["op"], "a": e[2]["e"]["a"]}) for e in es)
    cases = [({"n": 0}, [json.loads(o) for o in ops[k:k + 300]]) for k in range(0, len(ops), 300)]
    core.seq_check(chk, sp, "JsonM", exe, cases, w, "texts")
    core.seq_check(chk, sp, "JsonM", exe, [gparse(chk.rng) for _ in range(1500 if chk.quick else 20000)], w, "reading")
    core.seq_check(chk, sp, "JsonM", exe, [gwrite(chk.rng) for _ in range(1500 if chk.quick else 20000)], w, "writing", post=post)
