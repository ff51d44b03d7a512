"""R01: ProducerConsumer hands every payload over once, in order, within its slots, and reports failures, under every schedule."""
from .. import core
from .pipes import build


def gen(rng):
    slots, n = rng.randint(1, 4), rng.randint(0, 7)
    pf = rng.randint(1, n) if n and rng.random() < 0.35 else 0
    cf = rng.randint(1, n) if n and rng.random() < 0.35 else 0
    return {"slots": slots}, ["pc", slots, n, pf, cf, rng.choice([1, 1, 2])], []


def run(chk):
    exe = build()
    sp = chk.spec("R01")
    sp.model("ProdCons", "SPECIFICATION MSpec\nINVARIANTS Inv Progress\nCHECK_DEADLOCK FALSE\n")
    q = chk.quick
    core.sched_check(chk, sp, "act", "ProdCons", exe, [gen(chk.rng) for _ in range(64 if q else 300)], 30 if q else 300, "schedules", spurious=20,
                     maxtraces=3000 if q else 30000)
    core.sched_check(chk, sp, "act", "ProdCons", exe, [gen(chk.rng) for _ in range(24 if q else 100)], 200 if q else 3000, "dfs", mode="dfs",
                     preemptions=1 if q else 2, mem=0, maxtraces=2000 if q else 20000)
