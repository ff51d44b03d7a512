"""M02: a FAM map is a map from keys to values (latest first), for every history and for concurrent clients."""
from .. import core
from .seqbase import both, evt


def gen(rng):
    ev, n = [], 0
    ks = rng.sample(range(8), rng.randint(1, 6))
    for _ in range(rng.randint(10, 80)):
        x = rng.random()
        n += 1
        m = rng.choice([0, 0, 0, 1])
        k = rng.choice(ks)
        if x < 0.35:
            ev.append(evt(rng.choice(["insert", "assign", "assign", "force"]), m, k, n, 0))
        elif x < 0.5:
            ev.append(evt("erase", m, k, 0, 0))
        elif x < 0.92:
            ev.append(evt(rng.choice(["find", "contains", "count", "size", "empty", "list"]), m, k, 0, 0))
        else:
            ev.append(evt(rng.choice(["merge", "reopen", "clear"]), m, 0, 0, 0))
    return {}, ev + [evt("list", m, 0, 0, 0) for m in (0, 1)] + [evt("size", m, 0, 0, 0) for m in (0, 1)]


FIN = [[0, "size", 0, 0, 0, 0], [0, "list", 0, 0, 0, 0]] + [[0, "find", 0, k, 0, 0] for k in range(8)]


def scen(rng):
    ops, n = [], 0
    ks = rng.choice([[0, 1, 2, 3], [0, 4, 6], [0, 1, 4, 5, 7]])
    for _ in range(rng.choice([0, 0, 1, 2])):
        n += 1
        ops.append([0, "force", 0, rng.choice(ks), n, 1])
    nt = rng.randint(2, 3)
    own = {t: [k for i, k in enumerate(ks) if i % nt == t - 1] for t in range(1, nt + 1)}
    uniq = rng.random() < 0.5     # insert() of one key by one client only (documented)
    for t in range(1, nt + 1):
        for _ in range(rng.randint(1, 3)):
            x = rng.random()
            n += 1
            if x < 0.6:
                if uniq and own[t]:
                    ops.append([t, "insert", 0, rng.choice(own[t]), n, 0])
                else:
                    ops.append([t, "force", 0, rng.choice(ks), n, 1])
            else:
                ops.append([t, rng.choice(["find", "contains", "count"]), 0, rng.choice(ks), 0, 0])
    return {}, ["map"], ops + FIN


def locks(rng):
    ops = []
    for t in range(1, rng.randint(3, 4)):
        for _ in range(rng.randint(1, 2)):
            ops += [[t, "lock", 0, 0, 0, 0], [t, "unlock", 0, 0, 0, 0]]
    return {}, ["map"], ops


PRE = [[0, "force", 0, 0, 1, 1], [0, "force", 0, 1, 2, 1]]
REMOVALS = []
for a in ("erase", "assign"):
    for b in ("erase", "assign", "force"):
        for k in (0, 1):
            REMOVALS.append(("%s of a key with %s of %s key in its bucket" % (a, b, "the same" if k == 0 else "another"),
                             PRE + [[1, a, 0, 0, 3, 0], [2, b, 0, k, 4, 1]]))


def spins(c, ev):
    return [dict(e, op="livelock") if e["op"] == "limit" else e for e in ev]


def run(chk):
    core.build_libs(("eckit",))
    exe = core.build_harness("s_fam", ["s_fam.cc"])
    cexe = core.build_harness("t_fam", ["t_fam.cc"], sched=True)
    sp = chk.spec("M02")
    q = chk.quick
    both(chk, sp, "FamMap", exe, lambda c: ["map"], "{[x |-> 0]}", gen, 250 if q else 4000, "map")
    sc = [scen(chk.rng) for _ in range(100 if q else 800)]
    core.sched_check(chk, sp, "lin", "FamMap", cexe, sc, 20 if q else 120, "concurrent insertions", maxtraces=2000 if q else 30000, post=spins)
    sc = [scen(chk.rng) for _ in range(16 if q else 60)]
    core.sched_check(chk, sp, "lin", "FamMap", cexe, sc, 250 if q else 4000, "concurrent insertions, bounded preemption", mode="dfs", preemptions=1 if q else 2,
                     maxtraces=2000 if q else 30000)
    sc = [locks(chk.rng) for _ in range(10 if q else 60)]
    core.sched_check(chk, sp, "lin", "FamMap", cexe, sc, 30 if q else 200, "lock", maxtraces=1000 if q else 10000)
    # removals concurrent with another change: fixed scenarios, each a history of its own
    sc = [({"name": n}, ["map"], ops + FIN) for n, ops in REMOVALS]
    core.sched_check(chk, sp, "lin", "FamMap", cexe, sc, 120 if q else 1000, "removals", maxtraces=2000 if q else 10000, post=spins, sig=lambda t, pos: t["cfg"]["name"])
