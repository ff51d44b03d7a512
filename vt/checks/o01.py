"""O01: the dictionary, set, FIFO and stack containers behave as their models for every history of operations."""
from .. import core
from .seqbase import both, evt


def dmap(rng):
    K = rng.randint(2, 12)
    ev = []
    for _ in range(rng.randint(10, 80)):
        x = rng.random()
        k = rng.randint(0, K)
        if x < 0.35:
            ev.append(evt("insert", k, rng.choice([0, 1, rng.randint(1, 99)])))
        elif x < 0.45:
            ev.append(evt("replace", k, rng.choice([0, 1, rng.randint(1, 99)])))
        elif x < 0.6:
            ev.append(evt("sort"))
        elif x < 0.9:
            ev.append(evt(rng.choice(["contains", "get", "get", "at"]), k))
        else:
            ev.append(evt(rng.choice(["size", "sorted", "empty", "list", "list", "list", "clear"])))
    return {}, ev + [evt("sort"), evt("list")]


def dset(rng):
    K = rng.randint(2, 15)
    ev = []
    for _ in range(rng.randint(10, 60)):
        x = rng.random()
        k = rng.randint(0, K)
        if x < 0.3:
            ev.append(evt("insert", k))
        elif x < 0.45:
            ev.append(evt("sort"))
        elif x < 0.65:
            ev.append(evt(rng.choice(["contains", "find", "at"]), k))
        elif x < 0.85:
            q = [rng.randint(0, K) for _ in range(rng.randint(0, 8))]
            ev.append(evt(rng.choice(["merge", "mergesorted", "mergesorted", "eq"]), *q))
        else:
            ev.append(evt(rng.choice(["size", "sorted", "empty", "list", "list", "list"])))
    return {}, ev + [evt("sort"), evt("list")]


def trie(rng):
    al = rng.choice(["ab", "abz", "acegM", "a~!Z0"])
    keys = ["".join(rng.choice(al) for _ in range(rng.randint(0, 5))) for _ in range(rng.randint(3, 14))]
    ev = []
    for _ in range(rng.randint(20, 100)):
        k = rng.choice(keys)
        ev.append(rng.choice([evt("insert", k, rng.choice([0, 1, rng.randint(1, 99)])), evt("remove", k), evt("find", k), evt("contains", k)]))
    return {}, ev + [evt("find", k) for k in sorted(set(keys))]


def circ(rng):
    size = rng.randint(1, 9)
    c = {"size": size, "cap": rng.choice([size, size * 2 + 1, size * 4, 1000])}
    v = 0
    ev = []
    for _ in range(rng.randint(20, 120)):
        x = rng.random()
        if x < 0.45:
            n = rng.randint(0, rng.choice([2, 5, 12]))
            ev.append(evt("write", *[(v + i) % 251 for i in range(n)]))
            v += n
        elif x < 0.9:
            ev.append(evt("read", rng.randint(0, rng.choice([2, 5, 14]))))
        elif x < 0.98:
            ev.append(evt(rng.choice(["length", "size", "capacity"])))
        else:
            ev.append(evt("clear"))
    return c, ev


def bloom(rng):
    ks = ["k%d" % i for i in range(rng.randint(2, 30))]
    ev = [evt("empty")]
    for _ in range(rng.randint(10, 60)):
        ev.append(evt(rng.choice(["insert", "contains"]), rng.choice(ks)))
    return {"n": rng.choice([1, 2, 8, 63, 64, 65, 1000])}, ev + [evt("contains", k) for k in ks] + [evt("empty")]


def recyc(rng):
    ev = []
    v = 0
    for _ in range(rng.randint(10, 60)):
        i = rng.randint(1, 2)
        x = rng.random()
        if x < 0.45:
            n = rng.choice([1, 1, 1, 0, 3, 9])
            ev.append(evt("push", i, *range(v + 1, v + n + 1)))
            v += n
        elif x < 0.7:
            ev.append(evt("pop", i, rng.randint(0, 5)))
        elif x < 0.95:
            ev.append(evt("pop1", i))
        else:
            ev.append(evt("reopen", i))
    return {}, ev + [evt("pop", 1, 500)]


def run(chk):
    core.build_libs(("eckit",))
    exe = core.build_harness("s_cont", ["s_cont.cc"])
    sp = chk.spec("O01")
    m = 1 if chk.quick else 15
    one = "{[x |-> 0]}"
    both(chk, sp, "DMap", exe, lambda c: ["dmap"], one, dmap, 150 * m, "DenseMap")
    both(chk, sp, "DSet", exe, lambda c: ["dset"], one, dset, 150 * m, "DenseSet")
    both(chk, sp, "TrieM", exe, lambda c: ["trie"], one, trie, 150 * m, "Trie")
    both(chk, sp, "Circ", exe, lambda c: ["circ", c["size"], c["cap"]], "{[size |-> 2, cap |-> 6], [size |-> 3, cap |-> 7], [size |-> 1, cap |-> 4]}", circ,
         200 * m, "CircularBuffer")
    both(chk, sp, "Bloom", exe, lambda c: ["bloom", c["n"]], one, bloom, 60 * m, "BloomFilter", mc=False)
    both(chk, sp, "Recyc", exe, lambda c: ["recyc"], one, recyc, 100 * m, "Recycler")
