"""K01: the LRU cache and the expiring cache behave as their models for every history of operations."""
from .. import core
from .seqbase import both, evt


def lru(rng):
    c = {"cap": rng.randint(0, 6)}
    K = rng.randint(2, 9)
    ev = []
    for _ in range(rng.randint(20, 120)):
        x = rng.random()
        k = rng.randint(1, K)
        if x < 0.4:
            ev.append(evt("insert", k, rng.choice([0, 1, rng.randint(1, 99)])))
        elif x < 0.9:
            ev.append(evt(rng.choice(["access", "access", "extract", "remove", "exists"]), k))
        elif x < 0.95:
            ev.append(evt(rng.choice(["size", "getcap"])))
        elif x < 0.96:
            ev.append(evt("clear"))
        else:
            ev.append(evt("setcap", rng.randint(0, 7)))
    return c, ev + [evt("destroy")]


def exp(rng):
    K = rng.randint(2, 8)
    ev = []
    for _ in range(rng.randint(20, 120)):
        x = rng.random()
        k = rng.randint(1, K)
        if x < 0.35:
            ev.append(evt(rng.choice(["insert", "update"]), k, rng.choice([0, 1, rng.randint(1, 99)])))
        elif x < 0.9:
            ev.append(evt(rng.choice(["fetch", "fetch", "expire", "valid"]), k))
        else:
            ev.append(evt(rng.choice(["size", "size", "purge", "purge", "clear"])))
    return {}, ev


def run(chk):
    core.build_libs(("eckit",))
    exe = core.build_harness("s_cont", ["s_cont.cc"])
    sp = chk.spec("K01")
    m = 1 if chk.quick else 15
    both(chk, sp, "Lru", exe, lambda c: ["lru", c["cap"]], "{[cap |-> n] : n \\in 0..3}", lru, 300 * m, "lru", fin=[evt("destroy")])
    both(chk, sp, "Exp", exe, lambda c: ["exp"], "{[x |-> 0]}", exp, 300 * m, "expiring")
