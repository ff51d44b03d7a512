"""A01: AsyncHandle delivers writes once, in order; flush/close wait for them; failures are reported; no schedule hangs."""
from .. import core
from .pipes import build


def gen(rng):
    mx, rnd = rng.choice([1, 8, 16, 40]), rng.choice([1, 4, 8])
    n = rng.randint(0, 6)
    ops = [["open"]]
    for i in range(n):
        ops.append(["write", rng.randint(1, 12), i + 1])
        if rng.random() < 0.2:
            ops.append(["flush"])
    if rng.random() < 0.7:
        ops.append([rng.choice(["close", "flush"])])
    ops.append(["destroy"])
    f = rng.randint(1, n) if n and rng.random() < 0.5 else 0
    return {"max": mx, "rnd": rnd}, ["async", mx, rnd, f, rng.choice(["throw", "short"])], ops


def run(chk):
    exe = build()
    sp = chk.spec("A01")
    sp.model("Async", "SPECIFICATION MSpec\nINVARIANTS Inv NoDeadlock\nCHECK_DEADLOCK FALSE\n")
    q = chk.quick
    core.sched_check(chk, sp, "act", "Async", exe, [gen(chk.rng) for _ in range(96 if q else 400)], 40 if q else 400, "schedules", spurious=20,
                     maxtraces=4000 if q else 30000)
    core.sched_check(chk, sp, "act", "Async", exe, [gen(chk.rng) for _ in range(24 if q else 100)], 200 if q else 3000, "dfs", mode="dfs",
                     preemptions=1 if q else 2, mem=0, maxtraces=2000 if q else 20000)
