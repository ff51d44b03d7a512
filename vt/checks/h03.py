"""H03: readers of pooled files are independent cursors, in one thread or in many."""
from .. import core

SIZE = [40, 3, 7]


def use(rng, x, k, f, n, opened=False):
    """operations of one reader: [op, args...]"""
    ops, on = [], False
    ops.append(["new", x, k, f])
    for _ in range(n):
        if not on:
            ops.append(["open", x])
            on = True
            continue
        r = rng.random()
        if r < 0.5:
            ops.append(["read", x, rng.choice([0, 1, 2, 3, 5, 50])])
        elif r < 0.7:
            ops.append(["seek", x, rng.randint(0, SIZE[f])])
        elif r < 0.8:
            ops.append(["pos", x] if k == "PH" else ["end", x])
        elif r < 0.9:
            ops.append(["close", x])
            on = False
        else:
            ops += [["close", x], ["del", x], ["new", x, k, f]]
            on = False
    if on:
        ops.append(["close", x])
    return ops + [["del", x]]


def conc(rng):
    ops = []
    nt = rng.randint(2, 3)
    x = 0
    same = rng.randint(0, 1)
    if rng.random() < 0.3:
        ops += [[0] + o for o in use(rng, 5, "PF", same, 2)[:-2]]     # open all along
    for t in range(1, nt + 1):
        f = same if rng.random() < 0.8 else 1 - same
        ops += [[t] + o for o in use(rng, x, rng.choice(["PF", "PF", "PD", "PH"]), f, rng.randint(1, 4))]
        x += 1
    return {"k": [], "f": []}, ["-"], ops


def seq(rng):
    """interleaved in one thread"""
    qs = [use(rng, x, rng.choice(["PF", "PH", "PF", "PH", "PD"]), rng.randint(0, 1), rng.randint(1, 25)) for x in range(rng.randint(1, 5))]
    ops = []
    while any(qs):
        q = rng.choice([q for q in qs if q])
        ops.append([1] + q.pop(0))
    return {"k": [], "f": []}, ["-"], ops


def run(chk):
    core.build_libs(("eckit",))
    exe = core.build_harness("t_pooled", ["t_pooled.cc"], ["eckit/io/PooledFile.cc", "eckit/io/PooledHandle.cc"], sched=True)
    sp = chk.spec("H03")
    q = chk.quick
    es = sp.mc("Cursor", "Confs")
    chk.extra["transitions_replayed"] = len(es)
    paths = core.tours(es, chk.seed, maxlen=150)
    sc = [(c, ["-"], [[1, l["e"]["op"]] + l["e"]["a"] for l in evs]) for c, evs in paths]
    core.sched_check(chk, sp, "lin", "Cursor", exe, sc, 1, "replay", mode="random", maxtraces=20000)
    core.sched_check(chk, sp, "lin", "Cursor", exe, [seq(chk.rng) for _ in range(300 if q else 4000)], 1, "interleaved", mode="random", maxtraces=20000)
    core.sched_check(chk, sp, "lin", "Cursor", exe, [conc(chk.rng) for _ in range(150 if q else 600)], 24 if q else 200, "schedules", maxtraces=3000 if q else 30000)
    core.sched_check(chk, sp, "lin", "Cursor", exe, [conc(chk.rng) for _ in range(16 if q else 100)], 150 if q else 2000, "dfs", mode="dfs", preemptions=2,
                     maxtraces=2000 if q else 20000)
