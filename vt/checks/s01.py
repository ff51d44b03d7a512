"""S01: typed streams give back what was written, whatever carries them; cut streams are reported, never misread."""
from .. import core
from .seqbase import evt, both
import struct


def hexs(rng, big=False, zero=True):
    n = rng.choice([0, 1, 2, 5, 40, 3000] if big else [0, 1, 2, 3, 9])
    return "".join("%02x" % rng.randint(0 if zero else 1, 255) for _ in range(n))


INTS = {"char": (-128, 127), "uchar": (0, 255), "bool": (0, 1), "int": (-2**31, 2**31 - 1), "uint": (0, 2**32 - 1), "short": (-2**15, 2**15 - 1), "ushort": (0, 2**16 - 1),
        "long": (-2**31, 2**31 - 1), "ulong": (0, 2**32 - 1), "llong": (-2**63, 2**63 - 1), "ullong": (0, 2**64 - 1), "double": (0, 2**64 - 1)}
TAG = {"bool": "int", "cstr": "string", "mem": "blob"}


def value(rng, t):
    if t in INTS:
        lo, hi = INTS[t]
        v = rng.choice([lo, hi, 0, lo + 1, hi - 1, rng.randint(lo, hi), max(lo, -1), 1])
        if t == "double":
            v = rng.choice([v, struct.unpack("<Q", struct.pack("<d", rng.choice([0.1, -0.0, 1e308, 5e-324, float("inf"), 3.5])))[0]])
            if (v >> 52) & 0x7ff == 0x7ff:
                v &= 0xfff0000000000000
        return str(v), 0
    if t in ("start", "end"):
        return "", 0
    h = hexs(rng, big=rng.random() < 0.1, zero=t not in ("cstr", "exc"))
    return h, len(h) // 2


def obj(rng, d=0):
    k = [obj(rng, d + 1) for _ in range(rng.choice([0, 0, 1, 2, 3]) if d < 2 else 0)]
    c = rng.choice(["n0", "n1"])
    y = hexs(rng) if c == "n1" else ""
    return [c, value(rng, "llong")[0], k, y, len(y) // 2]


def ow(o):
    r = [o[0], o[1], str(len(o[2]))]
    for k in o[2]:
        r += ow(k)
    return r + (["x" + o[3]] if o[0] == "n1" else [])


def size(t, n):
    return {"char": 2, "uchar": 2, "llong": 9, "ullong": 9, "double": 9, "lblob": 9 + n, "exc": 6 + n, "start": 1, "end": 1}.get(t, 5 + n)


def items(o):
    r = [("start", "", 0), ("string", o[0], 2), ("llong", o[1], 0), ("int", str(len(o[2])), 0)]
    for k in o[2]:
        r += items(k)
    return r + ([("string", o[3], o[4])] if o[0] == "n1" else []) + [("end", "", 0)]


MEDIA = ["mem", "mem", "res", "file", "handle", "memh", "chunk", "fstream", "ifstream", "pipe"]


def gen(rng):
    m = rng.choice(MEDIA)
    cap = rng.choice([100000, 100000, rng.randint(0, 80)]) if m == "mem" else -1
    ev, plan, total = [], [], 0
    for _ in range(rng.randint(1, 25)):
        if rng.random() < 0.15:
            o = obj(rng)
            ev.append(evt("obj", o))
            plan.append(("obj", o))
            z = sum(size(t, n) for t, _, n in items(o))
        else:
            t = rng.choice(list(INTS) * 2 + ["string", "string", "cstr", "blob", "mem", "lblob", "exc", "start", "end"])
            v, n = value(rng, t)
            ev.append(evt("put", t, v, n))
            plan.append((TAG.get(t, t), v, n))
            z = size(TAG.get(t, t), n)
        if cap >= 0 and total + z > cap:
            total = cap
            break
        total += z
        if rng.random() < 0.1:
            ev.append(evt("bytes"))
    ev.append(evt("flip"))
    if rng.random() < 0.3 and total:
        ev.append(evt("cut", rng.randint(0, total)))
    reads(rng, ev, plan)
    if m in ("mem", "res", "file") and rng.random() < 0.4 and ev[-1]["op"] != "bad":
        ev.append(evt("rewind"))
        reads(rng, ev, plan)
    return {"m": m, "cap": cap, "n": 0}, [e for e in ev if e["op"] != "bad"]


def reads(rng, ev, plan):
    """as a reader that knows what was written would, mostly; what it reads after a mistake is not looked at"""
    i = 0
    while i < len(plan):
        x = plan[i]
        q = rng.random()
        if q < 0.08:
            ev.append(evt("endfound"))
        if q < 0.02:
            ev.append(evt("get", rng.choice(["int", "string", "llong"]), 0))   # perhaps a mistake
            if x[0] not in ("end",) and ev[-1]["a"][0] != x[0]:
                ev.append(evt("bad"))
                return
            if x[0] == "end":
                ev.append(evt("bad"))
                return
        elif x[0] == "obj":
            ev.append(evt("revive", rng.choice(["n0", "*", "*", x[1][0]])))
        elif x[0] == "start":
            ev.append(evt("next"))
        elif x[0] == "end":
            if rng.random() < 0.7:
                ev.append(evt("skipend"))
            elif i + 1 == len(plan):
                ev.append(evt("next"))
        elif x[0] == "exc":
            ev.append(evt("get", rng.choice(["int", "string", "double"]), 0))
        elif x[0] in ("string", "int") and rng.random() < 0.3 and (i == 0 or plan[i - 1][0] != "end"):
            ev.append(evt("nextval", x[0] if x[0] == "string" else rng.choice(["int", "bool"])))
        else:
            t = rng.choice([x[0]] + [k for k, v in TAG.items() if v == x[0] and k != "cstr"])
            ev.append(evt("get", t, x[2] if rng.random() < 0.99 else x[2] + 1))
        i += 1
    ev += [evt(o, *a) for o, a in rng.sample([("endfound", []), ("skipend", []), ("next", []), ("nextval", ["string"]), ("nextval", ["int"]), ("revive", ["*"])], 3)]


def words(pre):
    def f(c, e):
        if e is None:
            return [str(x) for x in pre(c)]
        a = e["a"]
        if e["op"] == "obj":
            return ["obj"] + ow(a[0])
        if e["op"] == "put":
            return ["put", a[0], "x" + a[1]]
        return [e["op"]] + [str(x) for x in a]
    return f


def post(t):
    for i, e in enumerate(t["ev"]):
        if e["r"] == ["exc"] and e["op"] not in ("put", "obj") or e["r"][0] == "remote" and e["op"] == "revive":
            return dict(t, ev=t["ev"][:i + 1])
    return t


def run(chk):
    core.build_libs(("eckit",))
    exe = core.build_harness("s_stream", ["s_stream.cc"])
    sp = chk.spec("S01")
    pre = lambda c: [c["m"], c["cap"]]
    from . import seqbase
    w = words(pre)
    es = sp.mc("StreamM", "{[cap |-> -1, n |-> %d], [cap |-> 12, n |-> 3]}" % (2 if chk.quick else 3))
    paths = core.tours(es, chk.seed, maxlen=40)
    chk.extra["transitions_replayed"] = len(es)
    media = sorted(set(MEDIA))
    cases = []
    for i, (c, evs) in enumerate(paths):
        ops = [l["e"] for l in evs]
        m = "mem" if c["cap"] >= 0 else media[i % len(media)]
        if m not in ("mem", "res", "file") and any(o["op"] == "rewind" for o in ops):
            m = ("res", "file")[i % 2]
        cases.append((dict(c, m=m), ops))
        if m == "mem" and c["cap"] < 0:
            cases[-1] = (dict(c, m="res"), ops)
    core.seq_check(chk, sp, "StreamM", exe, cases, w, "stream replay", post=post)
    cases = [gen(chk.rng) for _ in range(2500 if chk.quick else 40000)]
    core.seq_check(chk, sp, "StreamM", exe, cases, w, "stream random", post=post)
    # more than 32 bits
    for t, v in (("long", 2**40 + 5), ("long", -2**31 - 1), ("ulong", 2**32)):
        ev = [evt("put", t, str(v), 0), evt("flip"), evt("get", t, 0)]
        core.seq_check(chk, sp, "StreamM", exe, [({"m": "mem", "cap": 100, "n": 0}, ev)], w, "wide " + t, sig=lambda *a: "wide " + t)
