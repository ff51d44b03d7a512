"""M01: a FAM list is a sequence, for every sequential history and for concurrent insertions and readers."""
from .. import core
from .seqbase import both, evt


def gen(rng):
    ev, n = [], 0
    for _ in range(rng.randint(10, 70)):
        x = rng.random()
        n += 1
        if x < 0.4:
            ev.append(evt(rng.choice(["pushFront", "pushBack"]), n))
        elif x < 0.6:
            ev.append(evt(rng.choice(["popFront", "popBack"])))
        elif x < 0.75:
            ev.append(evt("erase", rng.randint(0, 5)))
        elif x < 0.95:
            ev.append(evt(rng.choice(["front", "back", "size", "empty", "list", "rlist", "list", "rlist"])))
        elif x < 0.97:
            ev.append(evt(rng.choice(["clear", "eraseend"])))
        else:
            ev.append(evt("reopen", rng.randint(0, 1)))
    return {}, ev + [evt("list"), evt("rlist"), evt("size")]


def scen(rng):
    ops, n = [], 0
    for _ in range(rng.choice([0, 0, 1, 2])):
        n += 1
        ops.append([0, rng.choice(["pushFront", "pushBack"]), n])
    nt = rng.randint(2, 3)
    for t in range(1, nt + 1):
        only = rng.choice([None, None, "pushFront", "pushBack"])
        for _ in range(rng.randint(1, 3)):
            x = rng.random()
            n += 1
            if x < 0.75:
                ops.append([t, only or rng.choice(["pushFront", "pushBack"]), n])
            elif x < 0.9:
                ops.append([t, "list"])
            else:
                ops.append([t, "size"])
    fin = [[0, "size"], [0, "list"], [0, "rlist"]] + ([[0, "back"], [0, "front"]] if n else [])
    fin += [[0, "pushBack", 98], [0, "rlist"], [0, "popBack"], [0, "popBack"], [0, "rlist"], [0, "list"], [0, "popFront"], [0, "list"], [0, "rlist"], [0, "size"]]
    return {}, ["list"], ops + fin


INS = []
for pre in ([], ["pushFront"], ["pushFront", "pushBack"]):
    for a, b in (("pushFront", "pushBack"), ("pushFront", "pushFront"), ("pushBack", "pushBack")):
        for third in (None, "pushFront", "pushBack"):
            if len(pre) == 2 and third:
                continue
            ops = [[0, o, k + 1] for k, o in enumerate(pre)] + [[1, a, 11], [2, b, 12]] + ([[3, third, 13]] if third else [])
            INS.append(({}, ["list"], ops + [[0, "size"], [0, "list"], [0, "rlist"], [0, "pushBack", 98], [0, "rlist"], [0, "popBack"], [0, "popBack"], [0, "rlist"], [0, "popFront"], [0, "list"], [0, "rlist"]]))
PRE2 = [[0, "pushBack", 1], [0, "pushBack", 2]]
FIN = [[0, "size"], [0, "list"], [0, "rlist"], [0, "pushBack", 98], [0, "pushFront", 99], [0, "list"], [0, "rlist"]]
REMOVALS = []
for a in ("popFront", "popBack", "erase"):
    for b in ("popFront", "popBack", "erase", "pushFront", "pushBack"):
        o2 = [2, b] + ({"erase": [1]}.get(b, []) if b in ("erase", "popFront", "popBack") else [5])
        o1 = [1, a] + ([0] if a == "erase" else [])
        REMOVALS.append(("removal %s with %s of a list of two" % (a, b), PRE2 + [o1, o2]))
        if b[0:2] != "po" and b != "erase" or (a == b == "erase"):
            o2 = [2, b] + ([0] if b == "erase" else [5])
            REMOVALS.append(("removal %s with %s of a list of one" % (a, b), PRE2[:1] + [o1, o2]))


def spins(c, ev):
    """a call that never returns although everything else is over"""
    return [dict(e, op="livelock") if e["op"] == "limit" else e for e in ev]


def run(chk):
    core.build_libs(("eckit",))
    exe = core.build_harness("s_fam", ["s_fam.cc"])
    cexe = core.build_harness("t_fam", ["t_fam.cc"], sched=True)
    sp = chk.spec("M01")
    q = chk.quick
    both(chk, sp, "FamList", exe, lambda c: ["list"], "{[x |-> 0]}", gen, 250 if q else 4000, "list")
    sc = [scen(chk.rng) for _ in range(100 if q else 800)]
    core.sched_check(chk, sp, "act", "FamListC", cexe, sc, 25 if q else 120, "concurrent insertions", maxtraces=2500 if q else 30000, post=spins)
    core.sched_check(chk, sp, "act", "FamListC", cexe, INS, 400 if q else 3000, "every pair of insertions, bounded preemption", mode="dfs", preemptions=1 if q else 2, maxtraces=3000 if q else 40000)
    sc = [scen(chk.rng) for _ in range(16 if q else 60)]
    core.sched_check(chk, sp, "act", "FamListC", cexe, sc, 300 if q else 4000, "concurrent insertions, bounded preemption", mode="dfs", preemptions=1 if q else 2, maxtraces=2500 if q else 30000)
    # removals concurrent with another change: fixed scenarios, each a history of its own
    sc = [({"name": n}, ["list"], ops + FIN) for n, ops in REMOVALS]
    core.sched_check(chk, sp, "act", "FamListC", cexe, sc, 120 if q else 1000, "removals", maxtraces=2000 if q else 10000, post=spins,
                     sig=lambda t, pos: t["cfg"]["name"])
