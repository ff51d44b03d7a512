"""F01: FilePool gives a file to one user at a time, keeps at most its capacity open, loses no write and no wake-up."""
from .. import core


def gen(rng):
    cap = rng.choice([0, 1, 1, 2, 3])
    nt = rng.choice([2, 3, 3, 4])
    np = rng.choice([1, 2, 2, 3])
    ops = []
    rec = 0
    for t in range(1, nt + 1):
        for _ in range(rng.randint(1, 3)):
            x = rng.random()
            p = rng.randint(1, np)
            if x < 0.75:
                ops.append([t, "checkout", p])
                for _ in range(rng.randint(0, 2)):
                    rec += 1
                    ops.append([t, "put", p, rec])
                ops.append([t, "checkin", p])
            elif x < 0.85:
                ops.append([t, "remove", p])
            elif x < 0.95:
                ops.append([t, rng.choice(["size", "usage", "getcap"])])
            else:
                ops.append([t, "setcap", rng.randint(0, 3)])
    for p in range(1, np + 1):
        ops.append([0, "open"])
        ops.append([0, "remove", p] if rng.random() < 0.5 else [0, "size"])
    ops += [[0, "size"], [0, "open"], [0, "destroy"], [0, "open"]] + [[0, "content", p] for p in range(1, np + 1)]
    return {"cap": cap}, [cap], ops


def run(chk):
    core.build_libs(("eckit",))
    sp = chk.spec("F01")
    exe = core.build_harness("t_fpool", ["t_fpool.cc"], ["eckit/io/FilePool.cc"], sched=True)
    es = sp.mc("FPool", "{[cap |-> 0], [cap |-> 1], [cap |-> 2]}", block=True)
    paths = core.tours(es, chk.seed, maxlen=150)
    if chk.quick:
        paths = chk.rng.sample(paths, min(len(paths), 3500))
    sc = []
    for c, evs in paths:
        ops = [[1, l["e"]["op"]] + l["e"]["a"] for l in evs]
        held = set()
        for o in ops:
            if o[1] == "checkout":
                held.add(o[2])
            if o[1] == "checkin":
                held.discard(o[2])
        ops += [[0, "checkin", p] for p in held] + [[0, "open"], [0, "destroy"], [0, "open"], [0, "content", 1], [0, "content", 2]]
        sc.append((c, [c["cap"]], ops))
    core.sched_check(chk, sp, "lin", "FPool", exe, sc, 1, "replay", mode="random", maxtraces=20000)
    q = chk.quick
    wk = core.wakes(es, sp.blocked, {"checkout", "remove"}, chk.rng, 300 if q else 3000, lambda c: [c["cap"]])
    core.sched_check(chk, sp, "lin", "FPool", exe, wk, 8 if q else 40, "wake-ups", spurious=20)
    core.sched_check(chk, sp, "lin", "FPool", exe, [gen(chk.rng) for _ in range(80 if q else 300)], 24 if q else 200, "schedules", spurious=20,
                     maxtraces=2500 if q else 30000)
    core.sched_check(chk, sp, "lin", "FPool", exe, [gen(chk.rng) for _ in range(16 if q else 100)], 150 if q else 2000, "dfs", mode="dfs",
                     preemptions=1 if q else 2, mem=0, maxtraces=1500 if q else 20000)
