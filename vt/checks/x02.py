"""X02: the file cache manager publishes complete entries only, one creator at a time, within its size."""
from .. import core
from .seqbase import both, evt


def pre(c):
    return [c["lk"], c["max"], c["miss"]] + list(c["w"])


def cfg(lk, mx, miss, w):
    return {"lk": lk, "lock": 0 if lk == "none" else 1, "max": mx, "miss": miss, "w": w}


def look(evs):
    out = []
    for e in evs:
        out.append(e)
        if e["op"] in ("crash", "get"):
            out.append(evt("list"))
    return out


def gen(rng):
    mx = rng.choice([0, 0, 25, 40, 70])
    lk = rng.choice(["flock", "none"])
    w = [1] if mx else rng.choice([[1], [1, 1], [0, 1], [1, 0], [0, 0]])
    c = cfg(lk, mx, 1 if rng.random() < 0.1 else 0, w)
    c["lock"] = 1
    ev = []
    for i in range(rng.randint(4, 30)):
        k = rng.randint(1, 6)
        x = rng.random()
        g = [k, rng.choice([0, 0, 1, 1, 2]), i + 10, 6 * k if mx else 12]
        if x < 0.6:
            ev.append(evt("get", *g))
        elif x < 0.75 and not mx:
            ev.append(evt("crash", rng.randint(1, 14), rng.choice([0, 1, 2]), *g))
        elif x < 0.85 and not mx:
            ev.append(evt("plant", rng.randint(1, len(w)), k, i + 10))
        else:
            ev.append(evt("reopen"))
    return c, look(ev)


def crashes():
    out = []
    for w in ([1], [0, 1]):
        for m in (0, 1):
            for n in range(1, 16):
                for t in (0, 1, 2):
                    c = cfg("flock", 0, 0, w)
                    out.append((c, look([evt("get", 2, 0, 5, 10), evt("crash", n, t, 1, m, 6, 200), evt("get", 1, 0, 7, 20), evt("get", 1, 1, 8, 20), evt("get", 2, 0, 9, 9)])))
    return out


def conc(rng):
    lk = rng.choice(["flock", "flock", "sem"])
    c = cfg(lk, 0, 0, [1])
    ops = []
    nt = rng.randint(2, 3)
    i = 10
    for t in range(1, nt + 1):
        for _ in range(rng.randint(1, 3 if nt == 2 else 2)):
            i += 1
            ops.append([t, "get", rng.choice([1, 1, 2]), rng.choice([0, 1, 2, 2]), i, 12])
    ops += [[0, "list"]]
    return c, [str(x) for x in pre(c)], ops


def run(chk):
    core.build_libs(("eckit",))
    exe = core.build_harness("t_cmgr", ["vproc.cc"], ["t_cmgr.cc"], sched=True)
    sp = chk.spec("X02")
    q = chk.quick
    w = lambda c, e: [str(x) for x in pre(c)] if e is None else [e["op"]] + e["a"]
    core.seq_check(chk, sp, "CMgr", exe, crashes(), w, "crash points")
    C = '[lk |-> "flock", lock |-> 1, max |-> %d, miss |-> %d, w |-> %s]'
    both(chk, sp, "CMgr", exe, pre, "{%s}" % ", ".join(C % x for x in ((0, 0, "<<1>>"), (0, 0, "<<0, 1>>"), (0, 1, "<<1>>"), (45, 0, "<<1>>"), (25, 0, "<<1>>"))),
         gen, 250 if q else 3000, "manager", fin=[evt("list")], xform=look)
    core.sched_check(chk, sp, "lin", "CMgr", exe, [conc(chk.rng) for _ in range(60 if q else 300)], 20 if q else 150, "processes", maxtraces=2500 if q else 20000)
