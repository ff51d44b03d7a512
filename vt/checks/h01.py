"""H01: a readable handle, however composed, is a cursor over the bytes it denotes."""
from .. import core
from .seqbase import evt, both

CAN = {
    "mem": "pos seek skip rewind size clone", "file": "pos seek skip rewind size restart clone stream", "path": "pos seek skip rewind size restart",
    "pooled": "pos seek skip", "mmap": "pos seek skip rewind clone stream", "raw": "pos seek skip", "fd": "pos seek skip",
    "chunk": "pos seek skip rewind size restart", "bad": "pos seek skip rewind size restart",
    "pfile": "pos seek skip rewind size restart clone stream compress", "part": "rewind restart", "empty": "pos seek rewind",
}


def can(t, o):
    k = t["k"]
    if k in CAN:
        return o in CAN[k].split() or (k == "part" and o == "stream" and can(t["h"], o))
    if k == "multi":
        h = lambda x: all(c["k"] == "empty" or can(c, x) for c in t["hs"])
        if o == "rewind":
            return True
        if o in ("pos", "seek", "skip"):
            return h(o) and h("size")
        return o in ("size", "restart", "clone", "stream") and h(o)
    if k == "buf":
        return o == "pos" or (o in ("seek", "skip") and can(t["h"], "seek")) or (o in ("rewind", "clone") and can(t["h"], o))
    if k == "stats":
        return o in ("pos", "seek", "skip", "rewind", "restart") and can(t["h"], o)
    if k == "shared":
        return o in ("pos", "seek", "skip", "rewind", "restart", "size") and can(t["h"], o)
    if k == "peek":
        return o in ("peek", "peekn", "skippeeked") or (o in ("pos", "seek", "rewind", "size") and can(t["h"], o))
    if k == "seekable":
        return o in ("pos", "seek", "skip", "rewind", "clear")
    if k == "fopen":
        return o in ("pos", "seek", "seekcur", "rewind") or (o == "seekend" and can(t["h"], "size"))


def toks(t):
    k = t["k"]
    if k == "empty":
        return [k]
    if k == "pfile":
        return [k, t["n"], t["b"], len(t["p"]) // 2] + list(t["p"])
    if k == "part":
        return [k] + toks(t["h"]) + [len(t["p"]) // 2] + list(t["p"])
    if k == "multi":
        return [k, len(t["hs"])] + [x for c in t["hs"] for x in toks(c)]
    if k == "buf":
        return [k, t["z"]] + toks(t["h"])
    if k == "chunk":
        return [k, t["n"], t["b"], t["z"]]
    if k == "bad":
        return [k, t["n"], t["b"], t["at"], t["how"]]
    if "h" in t:
        return [k] + toks(t["h"])
    return [k, t["n"], t["b"]]


def content(t):
    k = t["k"]
    if k == "empty":
        return []
    if k == "multi":
        return [x for c in t["hs"] for x in content(c)]
    if k in ("part", "pfile"):
        d = content(t["h"]) if k == "part" else [0] * t["n"]
        r = []
        for o, l in zip(t["p"][::2], t["p"][1::2]):
            r += [d[i] if i < len(d) else -1 for i in range(o, o + l)]
        return r
    if "h" in t:
        return content(t["h"])
    return [-1 if k == "bad" and i >= t["at"] else 0 for i in range(t["n"])]


def has(t, k):
    return t["k"] == k or any(has(c, k) for c in t.get("hs", [])) or ("h" in t and has(t["h"], k))


def early(t):
    """its estimate is known before it is opened, and it can be merged"""
    return t["k"] not in ("raw", "mmap", "shared", "stats", "fd") and not any(not early(c) for c in t.get("hs", [])) and (t["k"] == "part" or "h" not in t or early(t["h"]))


def leaf(rng, seekable=False):
    k = rng.choice(["mem", "mem", "file", "file", "path", "pooled", "mmap", "raw", "empty", "pfile", "pfile", "chunk", "fd", "bad"])
    if seekable and k in ("chunk", "fd", "bad", "empty"):
        k = "file"
    if k == "empty":
        return {"k": k}
    n, b = rng.choice([0, 1, 2, 3, 7, 13, 30, 30]), rng.randint(0, 3)
    t = {"k": k, "n": n, "b": b}
    if k == "pfile":
        t["n"] = 40
        t["p"] = parts(rng, 40)
        if rng.random() < 0.05:
            t["p"][-2] = 38
            t["p"][-1] = 9
    if k == "chunk":
        t["z"] = rng.randint(1, 5)
    if k == "bad":
        t["at"], t["how"] = rng.randint(0, n), rng.randint(0, 1)
    return t


def parts(rng, n):
    p, o = [], 0
    for _ in range(rng.randint(1, 4)):
        o = o if rng.random() < 0.4 else rng.randint(0, n)
        l = rng.choice([0, 0, 1, 2, 5, 9])
        l = min(l, n - o)
        p += [o, l]
        o += l
    return p


def tree(rng, depth=2, root=True):
    x = rng.random()
    if root and x < 0.2:
        return {"k": "seekable", "h": {"k": "peek", "h": tree(rng, 1, False)}}
    if root and x < 0.35:
        return {"k": "peek", "h": tree(rng, 1, False)}
    if root and x < 0.5:
        h = rng.choice([{"k": "file", "n": 30, "b": 1}, {"k": "mem", "n": 20, "b": 2}, {"k": "pfile", "n": 40, "b": 1, "p": parts(rng, 40)}, {"k": "bad", "n": 9, "b": 1, "at": 5, "how": 1},
                        {"k": "multi", "hs": [rng.choice([{"k": "file", "n": rng.choice([0, 3, 9]), "b": 1}, {"k": "pfile", "n": 40, "b": 1, "p": parts(rng, 40)}]) for _ in range(3)]},
                        {"k": "buf", "z": rng.randint(1, 9), "h": {"k": "file", "n": 30, "b": 1}}])
        return {"k": "fopen", "h": h}
    if depth == 0 or x < 0.55 and not root:
        return leaf(rng)
    x = rng.random()
    if x < 0.4:
        return {"k": "multi", "hs": [h for h in (tree(rng, depth - 1, False) for _ in range(rng.randint(0, 5))) if early(h)]}
    if x < 0.65:
        return {"k": "buf", "z": rng.choice([1, 2, 3, 4, 7, 64]), "h": tree(rng, depth - 1, False)}
    if x < 0.85:
        for _ in range(20):
            h = tree(rng, depth - 1, False)
            if can(h, "seek") and not has(h, "chunk") and not has(h, "bad") and not has(h, "fd"):
                n = len(content(h))
                p = parts(rng, n)
                if rng.random() < 0.05:
                    p[-1] += n + 1
                return {"k": "part", "h": h, "p": p}
    return {"k": rng.choice(["stats", "shared"]), "h": {"k": "file", "n": 20, "b": 1}}


def gen(rng):
    while True:
        t = tree(rng)
        n = len(content(t))
        if n <= 120:
            break
    t2 = tree(rng, 1, False)
    while has(t2, "fd"):
        t2 = tree(rng, 1, False)
    if rng.random() < 0.4 and t["k"] in ("multi", "part", "buf"):
        t2 = dict(t)
    comparable = not has(t, "fd") and t["k"] != "fopen"
    ev, on, pos, hi, lo, opens = [], 0, 0, 0, 0, 0
    short = has(t, "chunk") and not t["k"] in ("buf", "fopen")
    look = t["k"] in ("peek", "seekable")
    exact = not (short or -1 in content(t))     # the position is known to the generator

    def add(o, *a):
        ev.append(evt(o, *a))
    for _ in range(rng.randint(5, 40)):
        x = rng.random()
        if not on:
            if has(t, "fd") and opens:
                break
            if x < 0.6:
                add("open")
                on, pos, hi, lo, opens = 1, 0, 0, 0, 1
            elif x < 0.75 and not has(t, "fd") and t["k"] != "fopen" and not (look and not exact):
                add("copy", rng.choice([1, 2, 5, 50]))
                if -1 in content(t):
                    break
            elif x < 0.85 and comparable:
                add("compare")
                if -1 in content(t) or -1 in content(t2):
                    break
            else:
                o = rng.choice(["clone", "stream", "compress"])
                if can(t, o):
                    add(o)
            continue
        if x < 0.4:
            k = rng.choice([0, 1, 1, 2, 3, 5, 8, 20, 200])
            add("read", k)
            if exact:
                pos = min(n, pos + k)
                hi = max(hi, pos)
            continue
        if x < 0.47:
            add("close")
            on = 0
            continue
        o = rng.choice(["pos", "pos", "est", "size", "seek", "seek", "skip", "rewind", "restart", "peek", "peekn", "skippeeked", "clear", "seekcur", "seekend"])
        if o == "est" and t["k"] != "fopen":
            add("est")
            continue
        if o == "est" or not can(t, o):
            continue
        if o in ("pos", "size"):
            add(o)
            continue
        if not exact and o in ("skip", "skippeeked", "seekcur", "clear", "peekn", "rewind", "seek") and (look or o in ("skip", "seekcur")):
            continue
        if o == "seek":
            pos = rng.randint(lo, hi) if t["k"] == "seekable" else rng.randint(0, n)
            add(o, pos)
            hi = pos if t["k"] == "peek" else hi
        elif o == "skip":
            m = (hi if t["k"] == "seekable" else n) - pos
            d = rng.randint(0, m)
            add(o, d)
            pos += d
        elif o == "rewind":
            if t["k"] == "seekable" and lo:
                continue
            add(o)
            pos = 0
            hi = 0 if t["k"] == "peek" else hi
        elif o == "restart":
            if n == 0:
                continue
            pos = rng.randint(0, n - 1)
            add(o, pos)
        elif o == "peek":
            k = rng.randint(0, 4)
            add(o, k)
            if pos + k >= n:
                break
            hi = max(hi, pos + k + 1)
        elif o == "peekn":
            k = rng.randint(1, 6)
            p = rng.randint(0, min(5, n - pos))
            add(o, k, p)
            hi = max(hi, min(n, pos + k + p))
        elif o == "skippeeked":
            d = rng.randint(0, max(0, hi - pos))
            add(o, d)
            pos += d
        elif o == "clear":
            add(o)
            lo = pos = hi
        elif o == "seekcur":
            q = rng.randint(0, n)
            add(o, q - pos)
            pos = q
        elif o == "seekend":
            q = rng.randint(0, n)
            add(o, q - n)
            pos = q
    return {"t": t, "t2": t2}, ev


def pre(c):
    return ["read"] + toks(c["t"]) + ["/"] + toks(c["t2"])


def run(chk):
    core.build_libs(("eckit",))
    exe = core.build_harness("s_io", ["s_io.cc"])
    sp = chk.spec("H01")
    both(chk, sp, "ReadH", exe, pre, "Confs", gen, 1500 if chk.quick else 20000, "handles")
