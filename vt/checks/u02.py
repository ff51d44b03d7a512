"""U02: digests."""
import hashlib
import struct
import subprocess
from .. import core
from .seqbase import evt

M = 0xffffffff


def md4(b):
    def rol(x, n):
        x &= M
        return (x << n | x >> (32 - n)) & M
    m = b + b"\x80" + b"\0" * ((55 - len(b)) % 64) + struct.pack("<Q", 8 * len(b))
    h = [0x67452301, 0xefcdab89, 0x98badcfe, 0x10325476]
    for o in range(0, len(m), 64):
        x = struct.unpack("<16I", m[o:o + 64])
        v = list(h)
        for r, (f, k, sh, order) in enumerate([
                (lambda p, q, s: (p & q) | (~p & s), 0, (3, 7, 11, 19), list(range(16))),
                (lambda p, q, s: (p & q) | (p & s) | (q & s), 0x5a827999, (3, 5, 9, 13), [4 * (i % 4) + i // 4 for i in range(16)]),
                (lambda p, q, s: p ^ q ^ s, 0x6ed9eba1, (3, 9, 11, 15), [0, 8, 4, 12, 2, 10, 6, 14, 1, 9, 5, 13, 3, 11, 7, 15])]):
            for i in range(16):
                j = (-i) % 4
                v[j] = rol(v[j] + f(v[(j + 1) % 4], v[(j + 2) % 4], v[(j + 3) % 4]) + x[order[i]] + k, sh[i % 4])
        h = [(p + q) & M for p, q in zip(h, v)]
    return struct.pack("<4I", *h).hex()


def xxh64(b):
    Q = 0xffffffffffffffff
    p1, p2, p3, p4, p5 = 0x9E3779B185EBCA87, 0xC2B2AE3D27D4EB4F, 0x165667B19E3779F9, 0x85EBCA77C2B2AE63, 0x27D4EB2F165667C5

    def rol(x, n):
        return (x << n | x >> (64 - n)) & Q

    def rnd(a, x):
        return rol((a + x * p2) & Q, 31) * p1 & Q
    i, n = 0, len(b)
    if n >= 32:
        v = [(p1 + p2) & Q, p2, 0, (-p1) & Q]
        while i + 32 <= n:
            v = [rnd(a, x) for a, x in zip(v, struct.unpack("<4Q", b[i:i + 32]))]
            i += 32
        h = (rol(v[0], 1) + rol(v[1], 7) + rol(v[2], 12) + rol(v[3], 18)) & Q
        for a in v:
            h = ((h ^ rnd(0, a)) * p1 + p4) & Q
    else:
        h = p5
    h = (h + n) & Q
    while i + 8 <= n:
        h = (rol(h ^ rnd(0, struct.unpack("<Q", b[i:i + 8])[0]), 27) * p1 + p4) & Q
        i += 8
    if i + 4 <= n:
        h = (rol(h ^ (struct.unpack("<I", b[i:i + 4])[0] * p1 & Q), 23) * p2 + p3) & Q
        i += 4
    while i < n:
        h = rol(h ^ (b[i] * p5 & Q), 11) * p1 & Q
        i += 1
    h = (h ^ (h >> 33)) * p2 & Q
    h = (h ^ (h >> 29)) * p3 & Q
    return "%016x" % (h ^ (h >> 32))


ALG = {"MD5": lambda b: hashlib.md5(b).hexdigest(), "SHA1": lambda b: hashlib.sha1(b).hexdigest(), "MD4": md4, "xxh64": xxh64, "xxHash": xxh64}


def w(c, e):
    if e is None:
        return ["hash", c["alg"]]
    r = [e["op"], str(e["a"][0])]
    if len(e["a"]) > 1:
        t = e["a"][1]
        r += ["[" + ",".join(map(str, t)) + "]", str((sum(t) * 7 + len(t)) % 16)]
    return r


def post(t):
    """each digest becomes the bytes it is the digest of, if these are bytes that appear in the history"""
    f = ALG[t["cfg"]["alg"]]
    h, seen = {}, {}

    def note(b):
        seen.setdefault(f(bytes(b)), list(b))
    note([])
    for e in t["ev"]:
        k = e["a"][0]
        if e["op"] == "compute":
            note(e["a"][1])
        elif e["op"] == "add":
            h[k] = h.get(k, []) + e["a"][1]
            note(e["a"][1])
            note(h[k])
        elif e["op"] == "new":
            h[k] = list(e["a"][1])
            note(h[k])
        elif e["op"] == "reset":
            h[k] = []
    for e in t["ev"]:
        r = e.get("r")
        if isinstance(r, list) and len(r) == 2 and r[0] == "ok" and isinstance(r[1], str):
            e["r"] = ["ok", seen[r[1]]] if r[1] in seen else ["other", r[1]]
    return t


def once(alg):
    """asking for the digest of these ends the text"""
    return alg in ("MD4", "MD5", "SHA1")


def gen(rng, algs):
    ev = []
    alg = rng.choice(algs)
    asked = set()
    for _ in range(rng.randint(5, 40)):
        k = rng.choice([1, 1, 2, 3])
        n = rng.choice([0, 1, 2, 3, 4, 8, 8, 4, 31, 32, 33, 55, 56, 57, 63, 64, 65, 119, 120, 128, rng.randint(0, 150)])
        t = [rng.randint(0, 255) for _ in range(n)]
        x = rng.random()
        if once(alg) and k in asked and (x < 0.45 or x > 0.92):
            ev.append(evt("reset", k) if x < 0.3 else evt("digest", k))
        elif x < 0.45:
            ev.append(evt("add", k, t))
        elif x < 0.5:
            ev.append(evt("new", k, t))
        elif x < 0.6:
            ev.append(evt("reset", k))
        elif x < 0.68:
            ev.append(evt("compute", k, t))
        else:
            ev.append(evt("number" if x > 0.92 and alg == "MD5" else rng.choice(["digest", "text"]), k))
        if ev[-1]["op"] in ("digest", "text"):
            asked.add(k)
        elif ev[-1]["op"] in ("reset", "new"):
            asked.discard(k)
    return {"alg": alg, "n": 3}, ev


def run(chk):
    core.build_libs(("eckit",))
    exe = core.build_harness("s_enc", ["s_enc.cc"])
    sp = chk.spec("U02")
    q = chk.quick
    lst = subprocess.run([exe, "--list"], stdout=subprocess.PIPE, check=True).stdout.decode().split("\n")
    algs = [x.split()[1] for x in lst if x.startswith("hash ")]
    es = sp.mc("DigestM", "{[n |-> %d, len |-> %d, once |-> b] : b \\in BOOLEAN}" % ((1, 5) if q else (2, 4)), mem="4g", timeout=600)
    chk.extra["transitions_replayed"] = len(es) * len(algs)
    paths = core.tours(es, chk.seed, maxlen=40)
    core.seq_check(chk, sp, "DigestM", exe, [(dict(c, alg=a), [l["e"] for l in evs if l["e"]["op"] != "number" or a == "MD5"]) for c, evs in paths for a in algs if once(a) == c["once"]], w, "replay", post=post)
    core.seq_check(chk, sp, "DigestM", exe, [gen(chk.rng, algs) for _ in range(500 if q else 20000)], w, "random", post=post)
