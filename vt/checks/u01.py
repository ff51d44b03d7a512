"""U01: encodings."""
import json
import subprocess
from .. import core
from .seqbase import evt


def w(c, e):
    if e is None:
        return ["enc"]
    r = [e["op"]] + [x if isinstance(x, str) else json.dumps(x, separators=(",", ":")) for x in e["a"]]
    return r + [str(sum(map(ord, r[1])) % 2)] if e["op"] == "bits" else r


def gen(rng, methods):
    ev = []
    for _ in range(rng.randint(3, 12)):
        k = rng.choice(["bits", "base64", "rle", "rle", "rle", "unrle", "diff", "stream", "streamdiff", "compress", "compress", "cube"])
        if k == "bits":
            codes = [[rng.randint(0, 1) for _ in range(rng.choice([0, 1, 2, 3, 5, 7, 8, 9, 15, 16, 17, 31, 32, 33, 60, 63, 64]))] for _ in range(rng.randint(0, 12))]
            ev.append(evt("bits", codes, [rng.choice([1, 2, 3, 5, 7, 8, 9, 13, 16, 31, 33, 63, 64]) for _ in range(rng.randint(0, 14))], rng.randint(0, 1), rng.randint(0, 1)))
        elif k == "base64":
            ev.append(evt(k, [rng.choice([0, 255, 251, 239, 190, rng.randint(0, 255)]) for _ in range(rng.randint(0, 40))], rng.randint(0, 1)))
        elif k in ("rle", "stream", "streamdiff", "diff"):
            n = rng.choice([1, 2, 3, 9])
            q = []
            for _ in range(rng.randint(0, 6)):
                g = [rng.randint(0, n) for _ in range(rng.randint(1, 5))]
                if rng.random() < 0.3:
                    g = g + g + [rng.randint(0, n)]
                if rng.random() < 0.3:
                    g = g + [rng.randint(0, n)] + g + g
                q += g * rng.choice([1, 1, 2, 3, 5])
            q = q[:120]
            if k in ("diff", "streamdiff") and rng.random() < 0.7:
                q.sort()
            if k == "rle":
                t = rng.choice([-1, rng.randint(0, 6), rng.randint(0, 60), rng.randint(0, 60), rng.randint(0, 300)])
                ev.append(evt(k, q, rng.choice([1, 5, 100, 100000, 100000]), t, 0 if t < 0 else rng.choice([0, 1, 2, 3, 1000, 1000, 1000])))
            elif k == "diff":
                ev.append(evt(k, q))
            else:
                ev.append(evt(k, q, rng.choice([1, 3, 100000])))
        elif k == "unrle":
            def enc(d):
                r = []
                for _ in range(rng.randint(1, 4)):
                    x = rng.random()
                    if x < 0.5 or d == 0:
                        r.append(rng.randint(0, 9))
                    elif x < 0.75:
                        r += [-rng.randint(1, 4), rng.randint(0, 9)]
                    else:
                        y = enc(d - 1)
                        r += [-rng.randint(1, 3), -len(y)] + y
                return r
            ev.append(evt(k, enc(2)))
        elif k == "compress":
            t = []
            for _ in range(rng.choice([0, 1, 3, 60])):
                x = [rng.randint(0, 255), rng.choice([1, 1, 1, 2, 7, 100, rng.randint(1, 20000)])]
                if t and t[-1][0] == x[0]:
                    t[-1][1] += x[1]
                else:
                    t.append(x)
            ev.append(evt(k, rng.choice(methods), t, rng.choice([0, 1, 10, 100, 100000]), rng.choice([0, 1, 10, 100, 100000])))
        else:
            d = [rng.randint(1, 4) for _ in range(rng.randint(1, 4))]

            def more(d):
                i = rng.randint(1, len(d))
                return [i, rng.randint(0, d[i - 1]), rng.randint(0, 3)]
            a = more(d)
            e = list(d)
            e[a[0] - 1] += a[2]
            ev.append(evt(k, d, a, more(e)))
    return {"k": "random"}, ev


def run(chk):
    core.build_libs(("eckit",))
    exe = core.build_harness("s_enc", ["s_enc.cc"])
    sp = chk.spec("U01")
    q = chk.quick
    lst = subprocess.run([exe, "--list"], stdout=subprocess.PIPE, check=True).stdout.decode().split("\n")
    methods = [x.split()[1] for x in lst if x.startswith("compress ")]
    es = sp.mc("EncM", '{[k |-> "rle", v |-> {0, 1}, n |-> %d, t |-> 0..%d], [k |-> "b64", v |-> {0, 171, 255}, n |-> 4], [k |-> "bits", v |-> {1, 7, 9%s}]}' % ((5, 6, "") if q else (9, 12, ", 33, 64")), mem="8g", timeout=800)
    chk.extra["transitions_replayed"] = len(es)
    ops = sorted({json.dumps(e[2]["e"]) for e in es})
    cases = [({"k": "one"}, [evt(json.loads(o)["op"], *json.loads(o)["a"]) for o in ops[k:k + 200]]) for k in range(0, len(ops), 200)]
    core.seq_check(chk, sp, "EncM", exe, cases, w, "small")
    core.seq_check(chk, sp, "EncM", exe, [gen(chk.rng, methods) for _ in range(1000 if q else 20000)], w, "random")
