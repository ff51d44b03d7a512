"""X01: the transaction log survives crashes at every point and issues fresh identifiers to concurrent processes."""
from .. import core
from .seqbase import both, evt


def gen(rng):
    ev = []
    nb = 0
    for _ in range(rng.randint(4, 25)):
        x = rng.random()
        if x < 0.3 or nb == 0:
            c = evt("begin", rng.randint(1, 99))
            nb += 1
        elif x < 0.5:
            c = evt("update", rng.randint(1, nb), rng.randint(1, 99))
        elif x < 0.7:
            c = evt("end", rng.randint(1, nb), rng.randint(0, 1))
        else:
            ev.append(rng.choice([evt("find"), evt("recover"), evt("recoveryoung"), evt("findold"), evt("reopen"), evt("exists", rng.randint(1, nb)),
                                  evt("recover"), evt("recoverthread") if rng.random() < 0.2 else evt("lose")]))
            continue
        if rng.random() < 0.4:
            tear = 2 if c["op"] != "end" else 0
            ev.append(evt("crash", rng.randint(1, 9), rng.choice([0, 1, tear]), c["op"], *c["a"]))
            if rng.random() < 0.7:
                ev.append(rng.choice([evt("recover"), evt("reopen")]))
            ev.append(evt("find"))
        else:
            ev.append(c)
    return {"slack": 12}, ev + [evt("recover"), evt("find"), evt("findold")]


def crashes():
    """every crash point of every operation in a few contexts"""
    out = []
    for pre in ([], [evt("begin", 5)], [evt("begin", 5), evt("begin", 6), evt("end", 1, 1)]):
        for call in (("begin", 3), ("update", 1, 9), ("update", 2, 9), ("end", 1, 0), ("end", 2, 1), ("end", 1, 1)):
            for n in range(1, 13):
                for m in ((0, 1) if call[0] == "end" else (0, 1, 2)):
                    out.append(({"slack": 12}, pre + [evt("crash", n, m, *call), evt("find"), evt("recover"), evt("begin", 4), evt("exists", 1), evt("exists", 2),
                                                     evt("findold"), evt("recover"), evt("lose"), evt("begin", 11), evt("recover")]))
    return out


def look(evs):
    """observe the log after every crash, so that the validation need not follow every possible outcome"""
    out = []
    for e in evs:
        out.append(e)
        if e["op"] == "crash":
            out.append(evt("find"))
    return out


def conc(rng):
    ops = [[0, "begin", rng.randint(1, 9)] for _ in range(rng.randint(0, 2))]
    k = len(ops)
    nt = rng.randint(2, 3)
    own = {t: list(range(1 + t - 1, k + 1, nt)) for t in range(1, nt + 1)}
    for t in range(1, nt + 1):
        for _ in range(rng.randint(1, 3)):
            x = rng.random()
            if x < 0.6 or not own[t]:
                ops.append([t, "begin", rng.randint(1, 9)])
            elif x < 0.8:
                ops.append([t, "update", own[t][0], rng.randint(10, 19)])
            else:
                ops.append([t, "end", own[t].pop(0), rng.randint(0, 1)])
    ops += [[0, "find"], [0, "recover"], [0, "begin", 77], [0, "find"]]
    return {"slack": 12}, ["x"], ops


def run(chk):
    core.build_libs(("eckit",))
    exe = core.build_harness("t_txn", ["vproc.cc"], ["t_txn.cc"], sched=True)
    sp = chk.spec("X01")
    q = chk.quick
    w = lambda c, e: ["x"] if e is None else [e["op"]] + e["a"]
    core.seq_check(chk, sp, "Txn", exe, crashes(), w, "crash points")
    both(chk, sp, "Txn", exe, lambda c: ["x"], "{[slack |-> 1]}", gen, 250 if q else 3000, "log", fin=[evt("recover"), evt("find"), evt("findold")], cfgmap={"slack": 12}, xform=look)
    core.sched_check(chk, sp, "lin", "Txn", exe, [conc(chk.rng) for _ in range(60 if q else 300)], 15 if q else 80, "processes", maxtraces=2500 if q else 20000)
