"""V01: values and configurations are values: copies stay apart, reading changes nothing, what is set is what is found."""
import json

from .. import core
from .seqbase import evt


def i(v):
    return ["i", v >> 44, (v >> 22) & 0x3FFFFF, v & 0x3FFFFF]


def s(t):
    return ["s", [ord(c) for c in t]]


KEYS = ["a", "b", "ab", "z"]
BIG = [2**31 - 1, 2**31, -2**31, -2**31 - 1, 2**63 - 1, -2**63, 2**44, 2**22, -1, 2**62]


def scalar(rng):
    return rng.choice([lambda: i(rng.randint(-3, 300)), lambda: i(rng.choice(BIG)), lambda: ["b", rng.randint(0, 1)], lambda: ["d", rng.randint(-9, 9)],
                       lambda: s(rng.choice(["", "x", "xy", "true", "No", "1", "0", "é"[:0] + "a b"])), lambda: i(rng.randint(-3, 300))])()


def key(rng):
    return s(rng.choice(KEYS)) if rng.random() < 0.8 else i(rng.randint(-1, 3))


def lt(a, b):
    """order of keys: strings before integers"""
    ka = (0 if a[0] == "s" else 1, a[1:])
    return ka < (0 if b[0] == "s" else 1, b[1:])


def tree(rng, d=2, ks=key, kinds="lmo"):
    if d == 0 or rng.random() < 0.4:
        return ["n"] if rng.random() < 0.1 and kinds else scalar(rng)
    k = rng.choice(kinds)
    n = rng.randint(0, 3)
    if k == "l":
        return ["l", [tree(rng, d - 1, ks, kinds) for _ in range(n)]]
    ps = []
    for _ in range(n):
        q = ks(rng)
        if all(q != p[0] for p in ps):
            ps.append([q, tree(rng, d - 1, ks, kinds)])
    if k == "m":
        import functools
        ps.sort(key=functools.cmp_to_key(lambda x, y: -1 if lt(x[0], y[0]) else 1))
    return [k, ps]


def gval(rng):
    nv = rng.choice([2, 3, 4])
    x = lambda: rng.randint(1, nv)
    def path(lo=1):
        return [key(rng) if rng.random() < 0.7 else i(rng.randint(0, 2)) for _ in range(rng.choice([lo, 1, 1, 2, 3]))]
    ev = []
    for _ in range(rng.randint(4, 40)):
        o = rng.choice(["lit", "lit", "lit", "cp", "put", "put", "put", "put", "get", "get", "take", "take", "rm", "has", "keys", "size", "app", "app", "arith", "cmp", "cmp", "conv", "stream", "clone", "hash", "head", "tail"])
        if o == "lit":
            ev.append(evt(o, x(), tree(rng)))
        elif o in ("cp", "cmp", "stream", "clone", "hash"):
            ev.append(evt(o, x(), x()))
        elif o == "put":
            ev.append(evt(o, x(), path(), x()))
        elif o == "app":
            ev.append(evt(o, x(), path(0) if rng.random() < 0.5 else [], x()))
        elif o in ("get", "rm"):
            ev.append(evt(o, x(), path()))
        elif o == "take":
            ev.append(evt(o, x(), x(), path()))
        elif o == "has":
            ev.append(evt(o, x(), key(rng)))
        elif o == "arith":
            ev.append(evt(o, x(), rng.choice("+++-*"), x(), x()))
        elif o == "conv":
            ev.append(evt(o, x(), rng.choice(["int", "long", "size", "dbl", "bool", "str"])))
        else:
            ev.append(evt(o, x()))
    return {"nv": nv, "n": 0}, ev


def gcfg(rng):
    nv = rng.choice([2, 3])
    sep = rng.choice([".", ".", "/"])
    x = lambda: rng.randint(1, nv)
    names = ["a", "b", "ab"] + (["a.b"] if sep == "/" else [])
    sk = lambda r: s(r.choice(names))
    def path():
        return [s(rng.choice(names)) for _ in range(rng.choice([1, 1, 2, 2, 3, 3, 1, 2, 1, 2, 0]))]
    ev = []
    for _ in range(rng.randint(4, 40)):
        o = rng.choice(["new", "cp", "lit", "set", "set", "set", "set", "put", "put", "puts", "merge", "rm", "rm", "has", "empty", "keys", "get", "get", "get", "sub", "sub", "sub", "subs", "is", "is", "hash"])
        if o in ("new", "empty", "keys"):
            ev.append(evt(o, x()))
        elif o in ("cp", "merge", "hash"):
            ev.append(evt(o, x(), x()))
        elif o == "lit":
            t = tree(rng, 3, sk, "loo")
            ev.append(evt(o, x(), t if t[0] == "o" else ["o", [[sk(rng), t]]]))
        elif o == "set":
            t = scalar(rng)
            if rng.random() < 0.3:
                k = rng.choice("isd")
                t = ["l", [{"i": i(rng.choice([0, 1, 7, 2**31, 2**40, -1])), "s": s(rng.choice(["", "p", "qq"])), "d": ["d", rng.randint(-5, 5)]}[k] for _ in range(rng.randint(0, 3))]]
            ev.append(evt(o, x(), path(), t))
        elif o == "put":
            ev.append(evt(o, x(), path(), x()))
        elif o == "puts":
            ev.append(evt(o, x(), path(), [x() for _ in range(rng.randint(0, 3))]))
        elif o in ("rm", "has", "is"):
            ev.append(evt(o, x(), path()))
        elif o == "get":
            v = rng.choice("cccv")
            ev.append(evt(o, x(), path(), [v, rng.choice(["int", "long", "size", "dbl", "str"] + (["bool"] if v == "c" else []))], rng.randint(0, 2)))
        elif o == "sub":
            ev.append(evt(o, x(), x(), path(), rng.randint(0, 2)))
        elif o == "subs":
            ev.append(evt(o, x(), x(), path(), rng.randint(0, 3)))
    return {"nv": nv, "sep": sep, "n": 0}, ev


def gcmp(rng):
    """order: of every two among values far apart and values alike"""
    nv = rng.choice([3, 4, 5])
    far = lambda: i(rng.choice(BIG + [2**63 - 2, -2**63 + 1, 0, 1, -2, 2**31 + 1, 2**32, 2**53]))
    x = rng.choice([far, far, lambda: ["l", [far() for _ in range(rng.randint(0, 2))]], lambda: rng.choice([far, lambda: scalar(rng)])(), lambda: tree(rng)])
    ev = [evt("lit", k, x()) for k in range(1, nv + 1)]
    if rng.random() < 0.3:
        ev.append(evt("cp", rng.randint(1, nv), rng.randint(1, nv)))
    return {"nv": nv, "n": 0}, ev + [evt("cmp", a, b) for a in range(1, nv + 1) for b in range(1, nv + 1)]


def w(kind):
    def f(c, e):
        if e is None:
            return [kind, str(c["nv"]), c.get("sep", ".")]
        return [e["op"]] + [json.dumps(x, separators=(",", ":")) if isinstance(x, list) else str(x) for x in e["a"]]
    return f


def run(chk):
    core.build_libs(("eckit",))
    exe = core.build_harness("s_value", ["s_value.cc"])
    sp = chk.spec("V01")
    for module, kind, cfgs, gen, nq, nt, mem in (
            ("ValM", "val", "{[nv |-> 2, n |-> %d, k |-> k] : k \\in {{\"l\"}, {\"m\"}, {\"o\"}}}" % (3 if chk.quick else 4), gval, 2500, 30000, "8g"),
            ("CfgM", "cfg", "{[nv |-> 2, sep |-> \".\", n |-> %d]}" % (3 if chk.quick else 4), gcfg, 2500, 30000, "8g")):
        es = sp.mc(module, cfgs, mem=mem, timeout=700)
        cases = [(c, [l["e"] for l in evs]) for c, evs in core.tours(es, chk.seed, maxlen=60)]
        if chk.quick:
            cases = chk.rng.sample(cases, len(cases) * 2 // 5)
        chk.extra["transitions_replayed"] = chk.extra.get("transitions_replayed", 0) + sum(len(c[1]) for c in cases)
        core.seq_check(chk, sp, module, exe, cases, w(kind), kind + " replay")
        core.seq_check(chk, sp, module, exe, [gen(chk.rng) for _ in range(nq if chk.quick else nt)], w(kind), kind + " random")
        if kind == "val":
            core.seq_check(chk, sp, module, exe, [gcmp(chk.rng) for _ in range(800 if chk.quick else 10000)], w(kind), "order")
