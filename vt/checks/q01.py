"""Q01: Queue is a linearizable bounded FIFO with no lost wake-up, under every schedule."""
from .. import core


def gen(rng, kind):
    mx = rng.choice([1, 1, 2, 3])
    nt = rng.choice([2, 3, 3, 4])
    ops = []
    v = 0
    for t in range(1, nt + 1):
        for _ in range(rng.randint(1, 3)):
            x = rng.random()
            if kind == "mixed" and x < 0.3:
                o = rng.choice([["close"], ["interrupt"], ["closed"], ["empty"], ["resize", rng.randint(1, 3)], ["popn", rng.randint(1, 3)],
                                ["popn", rng.randint(1, 3)], ["resize", rng.randint(1, 2)]])
            elif x < (0.65 if kind == "mixed" else 0.5):
                v += 1
                o = [rng.choice(["push", "emplace"]), v]
            else:
                o = ["pop"] if rng.random() < 0.8 else ["popn", rng.randint(1, 3)]
            ops.append([t] + o)
    ops.append([0, "empty"])
    ops.append([0, "close"])
    for _ in range(3):
        ops.append([0, "pop"])
    return {"max": mx}, [mx], ops


def run(chk):
    core.build_libs(("eckit",))
    sp = chk.spec("Q01")
    exe = core.build_harness("q_queue", [], ["q_queue.cc"], sched=True)
    # design: the sequential meaning, exhaustively; every transition replayed single-threaded
    es = sp.mc("Queue", "{[max |-> 1], [max |-> 2], [max |-> 3]}", block=True)
    paths = core.tours(es, chk.seed)
    chk.extra["transitions_replayed"] = len(es)
    sc = []
    for c, evs in paths:
        # blocking calls are not transitions, so every path runs to completion in one thread
        sc.append((c, [c["max"]], [[1, l["e"]["op"]] + l["e"]["a"] for l in evs]))
    core.sched_check(chk, sp, "lin", "Queue", exe, sc, 1, "replay", mode="random")
    wk = core.wakes(es, sp.blocked, {"push", "emplace", "pop", "popn", "resize"}, chk.rng, 400 if chk.quick else 4000, lambda c: [c["max"]])
    core.sched_check(chk, sp, "lin", "Queue", exe, wk, 10 if chk.quick else 40, "wake-ups", spurious=20)
    n = 24 if chk.quick else 150
    sc = [gen(chk.rng, "mixed" if i % 2 else "pp") for i in range(80 if chk.quick else 300)]
    core.sched_check(chk, sp, "lin", "Queue", exe, sc, n, "schedules", spurious=20, maxtraces=3000 if chk.quick else 30000)
    sc = [gen(chk.rng, "mixed" if i % 2 else "pp") for i in range(16 if chk.quick else 100)]
    core.sched_check(chk, sp, "lin", "Queue", exe, sc, 150 if chk.quick else 3000, "dfs", mode="dfs", preemptions=2,
                     maxtraces=2000 if chk.quick else 20000)
