"""C02: a record read from a file or stream gives the items written in it, or fails; damaged and half-written records included."""
import struct
from .. import core
from .seqbase import both, evt

STR = ["", "a", "with space", " lead", "trail ", "q\"uote", "'", "back\\slash", "new\nline", "tab\t", "\x01\x1f\x7f", "true", "null", "~", "123", "1.5", "a: b", "- x", "{}", "[1]",
       "# no", "%", "\xe9\xe8", "\u20ac", "\U0001f600", "\\n", "\\u0041", "a\r\nb", ":", "a#b", "&x", "*x", "!t", "|", ">", "@", "`", "---", "...", "0x10", "yes", "2020-01-01", "x" * 3000]


def val(rng):
    t = rng.choice(["i", "l", "u", "f", "d", "s", "s", "ai", "al", "af", "ad", "ad", "ab", "a3"])
    if t == "i":
        v = str(rng.choice([0, 1, -1, 2**31 - 1, -2**31, rng.randint(-10**9, 10**9)]))
    elif t == "l":
        v = str(rng.choice([0, -1, 2**63 - 1, -2**63, 2**53 + 1, rng.randint(-10**18, 10**18)]))
    elif t == "u":
        v = str(rng.choice([0, 2**63 - 1, 2**63, 2**64 - 1, rng.randint(0, 2**64 - 1)]))
    elif t in "fd":
        x = rng.choice([0.0, -0.0, 0.1, 1e-300 if t == "d" else 1e-40, 1e300 if t == "d" else 3e38, float("inf"), float("-inf"), float("nan"), rng.random()])
        v = struct.pack("<" + t, x).hex()
    elif t == "s":
        s = rng.choice(STR) if rng.random() < 0.7 else "".join(rng.choice(STR) for _ in range(2))
        v = s.encode("utf-8" if rng.random() < 0.9 or max(map(ord, s), default=0) > 255 else "utf-8").hex()
    else:
        n = rng.choice([0, 1, 2, 4, 5, 17, 1000, 4096] if t != "a3" else [1, 2, 5, 300])
        v = "%d.%d" % (n, rng.randint(1, 9) if n else 0)
    return t, v


KEYS = ["a", "b", "c", "d", "n.x", "n.y", "n.z.w", "k e y", "K", "type1", "data", "version"]


def gen(rng, damage=False):
    ev = []
    ks = rng.sample(KEYS, rng.randint(1, 5))
    w = {}
    f = {"f": [], "g": [], "h": []}
    for _ in range(rng.randint(6, 40) if not damage else rng.randint(5, 14)):
        x = rng.random()
        if x < 0.07:
            ev.append(evt("new"))
            w = {}
        elif x < 0.4:
            k = rng.choice(ks)
            t, v = val(rng)
            if damage and t[0] == "a" and int(v.split(".")[0]) > 100:
                v = "17" + v[v.index("."):]
            if damage and len(v) > 1000:
                v = "61"
            ev.append(evt("set", k, t, v, rng.choice(["none", "none", "lz4", "snappy", "bzip2", "aec"]), rng.randint(0, 2)))
            w[k] = t
        elif x < 0.48 and (f["g"] or f["h"]):
            n = rng.choice([n for n in "gh" if f[n]])
            r = rng.randrange(len(f[n]))
            if f[n][r]:
                k = rng.choice(ks)
                t = rng.choice(sorted(f[n][r]) if rng.random() < 0.9 else KEYS)
                at = rng.choice(["abs", "f", "g" if n == "h" else "f"])
                ev.append(evt("link", k, n, r + 1, t, at))
                to = f[n][r].get(t, "i")
                w[k] = ("L", to[1] if isinstance(to, tuple) else to, n)
        elif x < 0.67:
            dl = {t[2] for t in w.values() if isinstance(t, tuple)}
            n = rng.choice("f" if "g" in dl else "fgg" if "h" in dl else "fgh")
            m = "a" if n != "f" or rng.random() < 0.6 else "w"
            if len(f[n]) < 5:
                ev.append(evt("write", n, m, rng.choice(["path", "stream", "handle", "mem", "stream2", "handle2", "mem2"])))
                f[n] = (f[n] if m == "a" else []) + [dict(w)] * (2 if ev[-1]["a"][2][-1] == "2" else 1)
        elif x < 0.69:
            ev.append(evt("size"))
        else:
            n = rng.choice([k for k in f if f[k]] or ["f"])
            if f[n]:
                r = rng.randrange(len(f[n]))
                if x < 0.72:
                    ev.append(evt("keys", n, r + 1))
                    continue
                if x < 0.75:
                    ev.append(evt("meta", n, r + 1, rng.choice(sorted(f[n][r]) or ks)))
                    continue
                how = rng.choice(["path", "wait", "item", "stream", "mem"])
                a = []
                for _ in range(rng.choice([1, 1, 2, 4])):
                    k = rng.choice(sorted(f[n][r]) or ks) if rng.random() < 0.95 else rng.choice(KEYS)
                    t = f[n][r].get(k, "i")
                    t = t[1] if isinstance(t, tuple) else t
                    a += [k, t if rng.random() < 0.97 else rng.choice(["i", "s"])]
                ev.append(evt("read", n, r + 1, how, *a))
        if damage and rng.random() < 0.1:
            ev.append(evt(rng.choice(["flips", "cuts", "crash"]), rng.choice("fgh"), rng.randint(1, 10**6), 150))
    if damage:
        for n in "fgh":
            if f[n]:
                ev += [evt("flips", n, rng.randint(1, 10**6), 700), evt("cuts", n, rng.randint(1, 10**6), 80)]
        ev += [evt("crash", "f", 0, 0)]
    return {}, ev


def run(chk):
    core.build_libs(("eckit", "eckit_codec"))
    exe = core.build_harness("s_codec", ["s_codec.cc"], libs=("eckit_codec", "eckit"))
    sp = chk.spec("C02")
    q = chk.quick
    both(chk, sp, "RecM", exe, lambda c: ["rec"], '{[ks |-> {"a"}, n |-> 1]}' if q else '{[ks |-> {"a", "b"}, n |-> 1]}', gen, 1500 if q else 20000, "records")
    cases = [gen(chk.rng, True) for _ in range(150 if q else 3000)]
    from .seqbase import words
    core.seq_check(chk, sp, "RecM", exe, cases, words(lambda c: ["rec"]), "damaged records")
