"""L01: locks exclude each other (threads and processes), shared counters and one-time objects."""
from .. import core


def scen(rng, kind):
    ops = []
    nt = rng.randint(2, 3)
    if kind == "int":
        ops.append([0, "limit", 0, rng.randint(1, 3)])
    if kind == "flock" and rng.random() < 0.5:
        ops += [[0, "open", 9, rng.randint(0, 1)]] + ([[0, "lock", 9], [0, "unlock", 9]] if rng.random() < 0.5 else []) + [[0, "close", 9]]
    for t in range(1, nt + 1):
        p = []
        if kind in ("mutex", "smutex", "sem", "sem2"):
            for _ in range(rng.randint(1, 3)):
                if kind != "smutex" and rng.random() < 0.25:
                    p.append(["try"])    # its lock may or may not be held afterwards: made conditional by the harness
                else:
                    d = rng.randint(1, 2)
                    p += [["lock"]] * d + [["bump"]] + [["unlock"]] * d
        elif kind == "flock":
            for _ in range(rng.randint(1, 3)):
                p.append(["open", rng.choice([0, 1, 1])])
                for _ in range(rng.randint(0, 2)):
                    p += [["lock"], ["bump"], ["unlock"]]
                if rng.random() < 0.2:
                    p += [["lock"], ["bump"]]
                p.append(["close"])
        elif kind == "range":
            for _ in range(rng.randint(1, 2)):
                a, n = rng.randint(0, 3), rng.randint(1, 3)
                p += [["range", a, n, rng.randint(0, 1)], ["unrange", a, n]]
        elif kind == "int":
            for _ in range(rng.randint(1, 3)):
                v = rng.choice([1, 1, 2])
                p += [["use", v], ["free", 0], ["release", v]]
            if t == 1 and rng.random() < 0.4:    # concurrent changes of the limit are not atomic
                p.append(["limit", rng.randint(2, 4)])
            if rng.random() < 0.3:
                p.append(["getlimit", 0])
        elif kind == "once":
            p += [["once"]] * rng.randint(1, 2)
        elif kind == "tsing":
            p += [["inst"]] * rng.randint(1, 3)
        ops += [[t, x[0], t] + x[1:] for x in p]
    if kind == "int":
        ops += [[0, "free", 0, 0], [0, "getlimit", 0, 0]]
    if kind == "tsing":
        ops += [[0, "alive", 0, 0]]
    if kind == "range":
        ops += [[0, "range", 0, 0, 6, 1]]
    return {"kind": kind}, [kind], ops


def withtry(c, w, ops):
    """threads that try do nothing else (a failed or successful tryLock is released by nobody)"""
    tr = {o[0] for o in ops if o[1] == "try"}
    out = []
    for o in ops:
        if o[0] in tr:
            if o[1] == "try" and not any(x[0] == o[0] and x[1] == "try" for x in out):
                out.append(o)
        else:
            out.append(o)
    return c, w, out


def run(chk):
    core.build_libs(("eckit",))
    exe = core.build_harness("t_locks", ["vproc.cc"], ["t_locks.cc", "eckit/os/Semaphore.cc", "eckit/io/FileLock.cc"], sched=True)
    sp = chk.spec("L01")
    q = chk.quick
    for k in ("mutex", "smutex", "sem", "flock", "range", "int"):
        sp.mc("Locks", '{[kind |-> "%s"]}' % k, edges=False)
    for k in ("mutex", "smutex", "sem", "sem2", "flock", "range", "int", "once", "tsing"):
        m = {"flock": 3, "once": 0.3, "tsing": 0.3}.get(k, 1)
        sc = [withtry(*scen(chk.rng, k)) for _ in range(int((30 if q else 150) * m))]
        core.sched_check(chk, sp, "lin", "Locks", exe, sc, 15 if q else 120, k, max_steps=40000, maxtraces=1500 if q else 10000)
    for k in ("mutex", "sem", "flock", "int", "once"):
        sc = [withtry(*scen(chk.rng, k)) for _ in range(8 if q else 40)]
        core.sched_check(chk, sp, "lin", "Locks", exe, sc, 100 if q else 1500, k + " bounded preemption", mode="dfs", max_steps=40000, maxtraces=1500 if q else 10000)
