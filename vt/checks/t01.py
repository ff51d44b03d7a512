"""T01: ThreadPool runs every task exactly once, wait()/waitForThreads()/destruction mean what they say, under every schedule."""
from .. import core


def gen(rng):
    n = rng.choice([1, 1, 2, 2, 3])
    nt = rng.choice([1, 2, 2, 3])
    nk = rng.randint(1, 5)
    kinds = []
    extra = nk
    for k in range(nk):
        x = rng.random()
        if x < 0.25:
            kinds.append("fail")
        elif x < 0.45:
            extra += 1
            kinds.append("spawn%d" % extra)
        else:
            kinds.append("ok")
    ops = []
    k = 0
    pend = list(range(1, nk + 1))
    if rng.random() < 0.3:
        # something before the threads start
        k = pend.pop(0)
        ops.append([0, "push", k])
    per = [[] for _ in range(nt)]
    while pend:
        t = rng.randrange(nt)
        if len(pend) > 1 and rng.random() < 0.35:
            m = rng.randint(1, min(3, len(pend)))
            per[t].append(["pushlist"] + pend[:m])
            pend = pend[m:]
        else:
            per[t].append(["push", pend.pop(0)])
        if rng.random() < 0.25:
            per[t].append([rng.choice(["wait", "done"])])
    for t in range(nt):
        if rng.random() < 0.6:
            per[t].append(["wait"])
    if rng.random() < 0.25:
        per[rng.randrange(nt)].insert(0, ["resize", rng.randint(1, 3)])
    for t in range(nt):
        for o in per[t]:
            ops.append([t + 1] + o)
    x = rng.random()
    if x < 0.4:
        ops.append([0, "wait"])
        ops.append([0, "done"])
    if rng.random() < 0.6:
        # tasks spawned by tasks are only certain to run before the terminators after a wait
        if extra > nk and x >= 0.4:
            ops.append([0, "wait"])
        ops.append([0, "waitForThreads"])
    elif extra > nk and x >= 0.4:
        ops.append([0, "wait"])
    ops.append([0, "destroy"])
    return {"n": n}, [n] + kinds, ops


def run(chk):
    core.build_libs(("eckit",))
    sp = chk.spec("T01")
    exe = core.build_harness("t_pool", ["t_pool.cc"], ["eckit/thread/ThreadPool.cc", "eckit/thread/ThreadControler.cc"], sched=True)
    sp.model("PoolMC", "SPECIFICATION MSpec\nINVARIANTS Inv Once AllRun\nPROPERTY Terminates\n", timeout=600)
    n = 20 if chk.quick else 150
    fixed = [({"n": 1}, [1], [[1, "push", 1], [1, "wait"], [2, "wait"], [3, "wait"], [0, "destroy"]]),
             ({"n": 2}, [2, "ok", "fail", "fail"], [[1, "pushlist", 1, 2, 3], [1, "wait"], [2, "wait"], [0, "waitForThreads"], [0, "destroy"]]),
             ({"n": 3}, [3], [[0, "destroy"]]),
             ({"n": 2}, [2], [[0, "push", 1], [0, "destroy"]]),
             ({"n": 2}, [2], [[0, "resize", 1], [0, "push", 1], [0, "wait"], [0, "resize", 3], [0, "pushlist", 2, 3], [0, "destroy"]])]
    sc = fixed + [gen(chk.rng) for _ in range(59 if chk.quick else 300)]
    core.sched_check(chk, sp, "act", "Pool", exe, sc, n, "schedules", spurious=20, maxtraces=2500 if chk.quick else 30000)
    sc = fixed + [gen(chk.rng) for _ in range(19 if chk.quick else 100)]
    core.sched_check(chk, sp, "act", "Pool", exe, sc, 150 if chk.quick else 3000, "dfs", mode="dfs", preemptions=1, mem=0,
                     maxtraces=1500 if chk.quick else 20000)
