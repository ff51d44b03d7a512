"""H02: a writable handle, however composed, delivers the bytes written or says that it did not."""
from .. import core
from .seqbase import evt, both

CAN = {"file": "pos seek rewind flush append reopen", "raw": "pos seek", "fd": "pos seek", "aio": "pos flush append reopen",
       "mem": "pos seek rewind flush", "grow": "pos seek rewind flush", "own": "pos seek rewind flush", "sink": "pos seek rewind flush reopen"}


def has(t, *ks):
    return t["k"] in ks or any(has(c, *ks) for c in t.get("hs", [])) or ("h" in t and has(t["h"], *ks))


def can(t, o):
    k = t["k"]
    if k in CAN:
        return o in CAN[k].split()
    if k == "buf":
        return o == "pos" or (o in ("seek", "rewind", "flush", "reopen") and can(t["h"], o))
    if k == "stats":
        return can(t["h"], o)
    if k == "shared":
        return o in ("pos", "seek", "rewind", "flush") and can(t["h"], o)
    if k == "fopen":
        return o in ("pos", "flush") or (o in ("seek", "reopen") and can(t["h"], o) and not has(t, "mem"))
    if k == "ostream":
        return o == "flush" and can(t["h"], o)
    return o in ("flush", "reopen")[:1 if k == "multi" else 2] and all(can(h, o) for h in t["hs"])


def toks(t):
    k = t["k"]
    r = [k] + [t[x] for x in ("n", "how", "z") if x in t]
    if k == "multi":
        return r + [len(t["hs"])] + [x for l, h in zip(t["ls"], t["hs"]) for x in [l] + toks(h)]
    if k == "tee":
        return r + [len(t["hs"])] + [x for h in t["hs"] for x in toks(h)]
    return r + (toks(t["h"]) if "h" in t else [])


def leaf(rng):
    k = rng.choice(["file", "file", "file", "raw", "aio", "fd", "mem", "grow", "grow", "own", "sink"])
    t = {"k": k}
    if k == "aio":
        t["z"] = rng.randint(1, 5)
    if k in ("mem", "own", "grow"):
        t["n"] = rng.choice([0, 1, 5, 17, 40])
    if k == "sink":
        t["n"], t["how"] = rng.choice([0, 3, 9, 20, 60, 200]), rng.randint(0, 3)
    return t


def tree(rng, depth=2, root=True):
    x = rng.random()
    if root and x < 0.15:
        h = rng.choice([{"k": "file"}, {"k": "buf", "z": rng.randint(1, 9), "h": {"k": "file"}}, {"k": "grow", "n": 3}, {"k": "sink", "n": rng.choice([0, 5, 30]), "how": rng.randint(0, 3)},
                        {"k": "tee", "hs": [{"k": "file"}, {"k": "buf", "z": 3, "h": {"k": "file"}}]}, {"k": "buf", "z": 4, "h": {"k": "sink", "n": 9, "how": rng.randint(0, 3)}}])
        return {"k": "fopen", "h": h}
    if root and x < 0.27:
        return {"k": "ostream", "h": tree(rng, 1, False)}
    if depth == 0 or (x < 0.4 and not root):
        return leaf(rng)
    x = rng.random()
    if x < 0.3:
        hs = [tree(rng, depth - 1, False) for _ in range(rng.randint(1, 4))]
        hs = [h for h in hs if not has(h, "multi", "shared", "stats")]
        return {"k": "multi", "hs": hs, "ls": [rng.choice([0, 1, 3, 8, 20]) for _ in hs]}
    if x < 0.65:
        return {"k": "buf", "z": rng.choice([1, 2, 3, 4, 7, 64]), "h": tree(rng, depth - 1, False)}
    if x < 0.85:
        return {"k": "tee", "hs": [h for h in (tree(rng, depth - 1, False) for _ in range(rng.randint(1, 3))) if not has(h, "multi")] or [{"k": "file"}]}
    return {"k": rng.choice(["stats", "shared"]), "h": rng.choice([{"k": "file"}, {"k": "grow", "n": 2}])}


def gen(rng):
    t = tree(rng)
    ev, on, n, pos, ap, first = [], 0, 0, 0, 0, 1
    for _ in range(rng.randint(4, 25)):
        x = rng.random()
        if not on:
            if can(t, "append") and x < 0.4:
                ev.append(evt("append"))
                on, ap = 1, 1
            elif first or can(t, "reopen"):
                ev.append(evt("open"))
                on, ap, n, pos = 1, 0, 0, 0
            else:
                break
            first = 0
            continue
        if x < 0.55:
            k = rng.choice([0, 1, 1, 2, 3, 5, 8, 13, 40])
            ev.append(evt("write", rng.randint(0, 200), k))
            pos += k
            n = max(n, pos)
        elif x < 0.7:
            ev.append(evt("close"))
            on = 0
        else:
            o = rng.choice(["pos", "seek", "rewind", "flush"])
            if not can(t, o) or (ap and o != "flush"):
                continue
            if o == "seek":
                if has(t, "sink", "mem", "own"):
                    continue    # how much was taken is not known here
                pos = rng.randint(0, n)
                ev.append(evt("seek", pos))
            else:
                if o == "rewind":
                    pos = 0
                ev.append(evt(o))
    if on:
        ev.append(evt("close"))
    return {"t": t}, ev


def run(chk):
    core.build_libs(("eckit",))
    exe = core.build_harness("s_io", ["s_io.cc"])
    sp = chk.spec("H02")
    both(chk, sp, "WriteH", exe, lambda c: ["write"] + toks(c["t"]), "Confs", gen, 1500 if chk.quick else 20000, "handles")
