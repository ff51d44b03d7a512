"""N03: sparse matrices and tensors are the matrices and tensors they stand for, whatever is done to them."""
import json

from .. import core
from .seqbase import evt


def w(c, e):
    if e is None:
        return [c["kind"], str(c.get("nm", c.get("n"))), str(c.get("nb", 0))]
    return [e["op"]] + [json.dumps(x, separators=(",", ":")) if isinstance(x, list) else str(x) for x in e["a"]]


def glin(rng):
    nm, nb = rng.choice([1, 2, 3]), rng.choice([1, 2])
    g = rng.choice([1, 2, 3, 3, 5])
    x = lambda: rng.randint(1, nm)
    b = lambda: rng.randint(1, nb)
    n = lambda: rng.randint(1, g)
    v = lambda: rng.choice([0, 1, 1, 2, 3, -1, 5])

    def cells(r, c, z):
        k = rng.choice([1, 1, 2, 3, 6])
        s = {(rng.randrange(r), rng.randrange(c)) for _ in range(k)}
        return [[i, j, v() if z else rng.choice([1, 2, -1, 3])] for i, j in sorted(s)]
    ev = []
    for _ in range(rng.randint(4, 40)):
        o = rng.choice(["mk", "mk", "mk", "own", "ident", "cp", "mv", "swap", "tr", "tr", "prune", "prune", "red", "file", "strm", "dump", "load", "load", "cut", "set", "set", "cols", "show", "show", "spmv", "spmv", "spmm", "dsptd"])
        r, c = n(), n()
        if o == "mk":
            ts = cells(r, c, True)
            # columns in any order within a row, sometimes something wrong
            ts = sorted(ts, key=lambda t: (t[0], rng.random()))
            q = rng.random()
            if q < 0.05:
                rng.shuffle(ts)
            elif q < 0.1:
                ts[rng.randrange(len(ts))][rng.randint(0, 1)] += rng.choice([1, 5])
                ts = [t for i, t in enumerate(ts) if t[:2] not in [u[:2] for u in ts[:i]]]
            ev.append(evt(o, x(), r, c, ts))
        elif o == "own":
            ev.append(evt(o, x(), r, c, cells(r, c, True)))
        elif o == "ident":
            ev.append(evt(o, x(), r if rng.random() < 0.95 else 0, c))
        elif o in ("cp", "mv", "swap", "file", "strm"):
            ev.append(evt(o, x(), x()))
        elif o in ("tr", "show"):
            ev.append(evt(o, x()))
        elif o == "prune":
            ev.append(evt(o, x(), v()))
        elif o == "red":
            ev.append(["red"])
        elif o == "dump":
            ev.append(evt(o, b(), x(), rng.choice([0, 0, 1, 7, -1, -9])))
        elif o == "load":
            ev.append(evt(o, x(), b()))
        elif o == "cut":
            ev.append(evt(o, b(), rng.choice([0, 3, 7, 20, 1000])))
        elif o == "set":
            ev.append(evt(o, x(), rng.randint(1, 6), v()))
        elif o == "cols":
            ev.append(evt(o, x(), rng.choice([0, 1, 2])))
        else:
            ev.append([o])
    # what needs to know the shapes: followed roughly here
    sh = [(0, 0)] * (nm + 1)
    bs = [(0, 0)] * (nb + 1)
    out = []
    for e in ev:
        if isinstance(e, list):
            k = x()
            r, c = sh[k]
            bad = rng.random() < 0.08
            vec = lambda m: [v() for _ in range(m + (rng.choice([1, -1]) if bad and m else 0))]
            if e[0] == "red":
                if not r:
                    continue
                p = [rng.randrange(r) for _ in range(rng.randint(1, r + (1 if rng.random() < 0.1 else 0)))]
                d = x()
                e = evt("red", d, k, p)
                if len(p) <= r:
                    sh[d] = (len(p), c)
            elif e[0] == "spmv":
                e = evt("spmv", k, vec(c))
            elif e[0] == "spmm":
                q = rng.randint(1, 3)
                if not c:
                    continue
                m = len(vec(c))
                if not m:
                    continue
                e = evt("spmm", k, [[v() for _ in range(q)] for _ in range(m)], q)
            else:
                d = x()
                e = evt("dsptd", d, k, vec(r), vec(c))
                if not bad:
                    sh[d] = sh[k]
        else:
            o, a = e["op"], e["a"]
            if o in ("mk", "own", "ident"):
                sh[a[0]] = (a[1], a[2])
            elif o in ("cp", "file", "strm"):
                sh[a[0]] = sh[a[1]]
            elif o == "mv" and a[0] != a[1]:
                sh[a[0]], sh[a[1]] = sh[a[1]], (0, 0)
            elif o == "swap":
                sh[a[0]], sh[a[1]] = sh[a[1]], sh[a[0]]
            elif o == "tr":
                sh[a[0]] = sh[a[0]][::-1]
            elif o == "cols":
                sh[a[0]] = (sh[a[0]][0], sh[a[0]][1] + a[1])
            elif o == "dump" and a[2] >= 0:
                bs[a[0]] = sh[a[1]]
            elif o == "load":
                sh[a[0]] = bs[a[1]]
        out.append(e)
        if rng.random() < 0.3:
            out.append(evt("show", x()))
    return {"kind": "lin", "nm": nm, "nb": nb, "v": 0, "k": 0, "len": 0}, out + [evt("show", i) for i in range(1, nm + 1)]


def gten(rng):
    n = rng.choice([1, 2, 3])
    x = lambda: rng.randint(1, n)
    val = lambda: rng.randint(-3, 99)

    def shape():
        return [rng.choice([1, 2, 2, 3, 4]) for _ in range(rng.choice([1, 2, 2, 3, 3, 4]))]

    def size(s):
        p = 1
        for i in s:
            p *= i
        return p
    t = [None] * (n + 1)
    ev = []
    mx = lambda r, c: [[rng.randint(-9, 9) for _ in range(c)] for _ in range(r)]
    for _ in range(rng.randint(4, 40)):
        o = rng.choice(["mk", "mk", "cp", "mv", "swap", "resh", "fill", "put", "put", "get", "get", "get", "flip", "flip", "strm", "show", "show", "big", "dot", "gemv", "gemm"])
        k, y = x(), x()
        if o == "mk":
            s = shape()
            ev.append(evt(o, k, rng.choice("LR"), s, [val() for _ in range(size(s))]))
            t[k] = s
        elif o in ("cp", "flip", "strm"):
            ev.append(evt(o, k, y))
            t[k] = t[y] or t[k]
        elif o == "mv":
            ev.append(evt(o, k, y))
            if k != y:
                t[k], t[y] = t[y], None
        elif o == "swap":
            ev.append(evt(o, k, y))
            t[k], t[y] = t[y], t[k]
        elif o == "resh":
            s = shape()
            if t[k] and rng.random() < 0.6:
                s = list(t[k])
                rng.shuffle(s)
                if rng.random() < 0.3:
                    s = [size(s)]
            ev.append(evt(o, k, s, val()))
            t[k] = s
        elif o == "fill":
            ev.append(evt(o, k, rng.choice([0, 1, 5])))
        elif o in ("put", "get"):
            if not t[k]:
                continue
            ev.append(evt(o, k, [rng.randrange(i) for i in t[k]], *([val()] if o == "put" else [])))
        elif o == "show":
            ev.append(evt(o, k))
        elif o == "big":
            f = [rng.randint(0, 20) for _ in range(rng.randint(1, 4))]
            while sum(f) > 60:
                f.pop()
            ev.append(evt(o, rng.choice("LR"), f))
        else:
            r, c, d = rng.randint(1, 5), rng.randint(1, 5), rng.randint(1, 5)
            bad = 1 if rng.random() < 0.1 else 0
            ev.append(evt("dot", mx(1, c)[0], mx(1, c + bad)[0]) if o == "dot" else evt("gemv", mx(r, c), mx(1, c + bad)[0]) if o == "gemv" else evt("gemm", mx(r, c), mx(c + bad, d)))
    return {"kind": rng.choice(["ten", "flt"]), "n": n}, ev + [evt("show", i) for i in range(1, n + 1)]


def run(chk):
    core.build_libs(("eckit_linalg",))
    exe = core.build_harness("s_lin", ["s_lin.cc"], libs=("eckit_linalg", "eckit"))
    sp = chk.spec("N03")
    q = chk.quick
    for module, cfgs, gen, nq, nt in (
            ("LinM", '{[kind |-> "lin", nm |-> 1, nb |-> 0, v |-> %d, k |-> %d, len |-> 2], [kind |-> "lin", nm |-> 1, nb |-> 1, v |-> 1, k |-> 1, len |-> 1]%s}' % (1 if q else 2, 5 if q else 8, "" if q else ', [kind |-> "lin", nm |-> 2, nb |-> 0, v |-> 1, k |-> 1, len |-> 1]'), glin, 2500, 40000),
            ("TenM", '{[kind |-> "ten", n |-> 1], [kind |-> "flt", n |-> %d]}' % (1 if q else 2), gten, 2500, 40000)):
        es = sp.mc(module, cfgs, timeout=700, mem="8g")
        chk.extra["transitions_replayed"] = chk.extra.get("transitions_replayed", 0) + len(es)
        cases = [(c, [l["e"] for l in evs]) for c, evs in core.tours(es, chk.seed, maxlen=60)]
        core.seq_check(chk, sp, module, exe, cases, w, module + " replay")
        core.seq_check(chk, sp, module, exe, [gen(chk.rng) for _ in range(nq if q else nt)], w, module + " random")
