"""B01: the persistent B-tree is an ordered map, for every history, depth and place of its keys."""
from .. import core
from .seqbase import both, evt


def gen(rng):
    lk = rng.randint(0, 1)
    kind = rng.choice([0, 0, 0, 1, 2])
    K = rng.choice([8, 20, 60, 200]) * (4 if kind == 2 else 1)
    ev, on, x, y, pend = [], "rw", False, "none", 0
    style = rng.choice(["up", "down", "mix", "mix"])
    nxt = 0 if style == "up" else K
    ev.append(evt("open", "rw"))
    for _ in range(rng.randint(10, 60) if rng.random() < 0.4 else rng.randint(100, 250)):
        r = rng.random()
        if on == "no":
            on = "ro" if rng.random() < 0.4 and len(ev) > 3 else "rw"
            ev.append(evt("open", on))
        elif r < 0.55 and on == "rw":
            if style == "mix" or rng.random() < 0.2:
                k = rng.randint(1, K)
            else:
                nxt = max(1, min(K, nxt + rng.choice([1, 1, 2]) * (1 if style == "up" else -1)))
                k = nxt
            ev.append(evt("set", k, rng.randint(1, 99)))
            pend += 1
            if pend > 25:
                ev.append(evt("flush"))
                pend = 0
        elif r < 0.7:
            ev.append(evt("get", rng.randint(1, K)))
        elif r < 0.85:
            a = rng.randint(0, K)
            ev.append(evt("range", a, rng.choice([a, a + rng.randint(0, 5), rng.randint(0, K + 1), K + 1])))
        elif r < 0.88:
            ev.append(evt("count"))
        elif r < 0.9:
            ev.append(evt("flush"))
            pend = 0
        elif r < 0.93 and on == "rw":
            ev.append(evt("view"))
        elif r < 0.95 and not x and y == "none":
            ev.append(evt("close"))
            on, pend = "no", 0
        elif r < 0.96 and on == "rw":
            ev.append(evt("die"))
            on, x, y, pend = "no", False, "none", 0
        else:
            o = rng.choice(["flock", "funlock", "held", "preload"] + (["sync"] if on == "rw" else []) + (["lock", "lockshared", "unlock", "held"] if lk else []))
            x = True if o == "flock" else False if o == "funlock" else x
            y = o if o in ("lock", "lockshared") else "none" if o == "unlock" else y
            ev.append(evt(o))
    if on != "no":
        ev += [evt("range", 0, K + 1), evt("count")]
    return {"lk": lk, "kind": kind, "off": rng.choice([0, 0, 100])}, ev


def run(chk):
    core.build_libs(("eckit",))
    exe = core.build_harness("s_btree", ["s_btree.cc"])
    sp = chk.spec("B01")
    pre = lambda c: [c.get("kind", 0), c["lk"], c.get("off", 0)]
    both(chk, sp, "BTreeM", exe, pre, "{[lk |-> 0, ks |-> {1, 2, 3, 4, 5}, v |-> 1], [lk |-> 1, ks |-> {1}, v |-> 2]}" if chk.quick else
         "{[lk |-> 0, ks |-> {1, 2, 3, 4, 5, 6}, v |-> 1], [lk |-> 0, ks |-> {1, 2, 3, 4}, v |-> 2], [lk |-> 1, ks |-> {1, 2}, v |-> 2]}", gen, 300 if chk.quick else 4000, "BTree")
