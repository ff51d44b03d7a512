"""A02: moving one handle into another (plain, bounded copy, double-buffered) delivers exactly the source's bytes or reports failure."""
from .. import core
from .pipes import build


def gen(rng, mode=None):
    mode = mode or rng.choice(["dbl", "dbl", "dbl", "save", "copy"])
    n = rng.choice([0, 1, 5, 12, 20, 33])
    x = rng.random()
    est = n if x < 0.6 else 0 if x < 0.85 else max(0, n + rng.choice([-2, -1, 1, 3]))
    slots, bs = rng.randint(1, 4), rng.choice([1, 3, 4, 7, 50])
    maxs = rng.choice([-1, -1, 3, n, n + 4]) if mode == "copy" else -1
    ch = ",".join(str(rng.randint(1, 6)) for _ in range(rng.randint(1, 4))) if rng.random() < 0.5 else "-"
    fl = []
    for kinds in (["throw", "neg", "restart", "restart"], ["throw", "short", "restart", "restart"]):
        f = []
        while rng.random() < 0.3 and len(f) < 7:
            f.append("%d:%s:%d" % (rng.randint(1, 8), rng.choice(kinds), rng.choice([0, 2, 5, 9, 30])))
        fl.append(";".join(f) or "-")
    if rng.random() < 0.05:
        fl[1] = ";".join("%d:restart:0" % i for i in range(1, 9))
    return {"mode": mode, "est": est, "nb": slots, "maxs": maxs}, ["xfer", mode, n, est, slots, bs, maxs, ch] + fl, []


def run(chk):
    exe = build()
    sp = chk.spec("A02")
    sp.model("Transfer", "SPECIFICATION MSpec\nINVARIANTS Inv\nCHECK_DEADLOCK FALSE\n")
    q = chk.quick
    env = {"ECKIT_DATAHANDLE_SAVEINTO_BUFFER_SIZE": "7"}
    core.sched_check(chk, sp, "act", "Transfer", exe, [gen(chk.rng, m) for m in ("save", "copy") for _ in range(150 if q else 2000)], 1,
                     "sequential", mode="random", env=env)
    core.sched_check(chk, sp, "act", "Transfer", exe, [gen(chk.rng, "dbl") for _ in range(160 if q else 600)], 20 if q else 200, "schedules",
                     spurious=20, maxtraces=3500 if q else 30000, env=env)
    core.sched_check(chk, sp, "act", "Transfer", exe, [gen(chk.rng, "dbl") for _ in range(24 if q else 100)], 150 if q else 3000, "dfs", mode="dfs",
                     preemptions=1 if q else 2, mem=0, maxtraces=2000 if q else 20000, env=env)
