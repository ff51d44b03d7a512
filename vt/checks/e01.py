"""E01: channels of logs."""
from .. import core
from .seqbase import evt

LEAVES = 12


def w(c, e):
    if e is None:
        return ["log"]
    if e["op"] == "write":
        t = [x for r in e["a"][1] for x in r]
        return ["write", str(e["a"][0]), ",".join(str(x) for x in t) or "-", str((sum(t) + e["a"][0]) % 4)]
    return [e["op"]] + [str(x) for x in e["a"]]


def gen(rng):
    ev = []
    used = 2
    has = {1: set(), 2: set()}
    pend = set()
    big = rng.random() < 0.3

    def new(c):
        nonlocal used
        k = rng.choice(["st", "cb", "cb", "fl", "kept"])
        if k == "kept":
            i = rng.randint(1, 2)
            if i in has[c]:
                k = "cb"
        if k != "kept":
            if used == LEAVES:
                return None
            used += 1
            i = used
        return [k, i]

    def text():
        t = []
        for _ in range(rng.randint(0, 5)):
            c = rng.choice([10, 97, 98, 99])
            n = rng.choice([1, 1, 2, 3])
            if big and rng.random() < 0.3:
                n = rng.choice([100, 1000, 1022, 1023, 1024, 1025, 2047, 2048, 3000, 4093, 4094, 4095, 4096, 4097, 9000, rng.randint(1, 20000)]) if c != 10 else n
            if t and t[-1][0] == c:
                t[-1][1] += n
            else:
                t.append([c, n])
        return t
    for _ in range(rng.randint(10, 60)):
        c = rng.choice([1, 1, 2])
        x = rng.random()
        if x < 0.4:
            ev.append(evt("write", c, text()))
            pend.add(c)
            if has[1] & has[2]:  # in the order of the writes
                ev.append(evt("flush", c))
                pend.discard(c)
        elif x < 0.5:
            ev.append(evt("flush", c))
            pend.discard(c)
        elif x < 0.75:
            t = new(c)
            if not t:
                continue
            for d in sorted(pend):
                ev.append(evt("flush", d))
            pend.clear()
            if rng.random() < 0.5:
                op = rng.choice(["set", "setprefix"])
                has[c] = set()
            else:
                op = rng.choice(["add", "addprefix"])
            if t[0] == "kept":
                has[c].add(t[1])
            ev.append(evt(op, c, *(t + ([rng.randint(1, 9)] if op.endswith("prefix") else []))))
        elif x < 0.8:
            ev.append(evt("indent", c, rng.randint(0, 3)))
        elif x < 0.85:
            ev.append(evt("unindent", c))
        elif x < 0.88:
            ev.append(evt(rng.choice(["reset", "destroy"]), c))
            has[c] = set()
            pend.discard(c)
        elif x < 0.9:
            ev.append(evt("active", c))
        else:
            for d in (1, 2):
                ev.append(evt("flush", d))
            pend.clear()
            ev.append(evt("get", rng.randint(1, used)))
    for d in (1, 2):
        ev.append(evt("flush", d))
    return {"leaves": LEAVES}, ev + [evt("get", i) for i in range(1, used + 1)]


def run(chk):
    core.build_libs(("eckit",))
    exe = core.build_harness("s_log", ["s_log.cc"])
    sp = chk.spec("E01")
    q = chk.quick
    es = sp.mc("LogM", '{[leaves |-> 3, ch |-> 1, kinds |-> {k}, size |-> 2, depth |-> %d] : k \\in {"cb", "st"}} \\cup {[leaves |-> 2, ch |-> 2, kinds |-> {"kept"}, size |-> 1, depth |-> %d]}' % ((2, 1) if q else (3, 2)), mem="8g", timeout=800)
    paths = core.tours(es, chk.seed, maxlen=60)
    chk.extra["transitions_replayed"] = len(es)
    fin = lambda c: [evt("flush", 1), evt("flush", 2)] + [evt("get", i) for i in range(1, c["leaves"] + 1)]
    core.seq_check(chk, sp, "LogM", exe, [(c, [l["e"] for l in evs] + fin(c)) for c, evs in paths], w, "replay")
    core.seq_check(chk, sp, "LogM", exe, [gen(chk.rng) for _ in range(800 if q else 15000)], w, "random")
