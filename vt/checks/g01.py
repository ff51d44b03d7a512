"""G01: searches in a k-d tree find the nearest points, whatever the history of the tree."""
import itertools
import json

from .. import core
from .seqbase import evt


def w(c, e):
    if e is None:
        return [c["kind"], str(c["dim"]), str(c["cap"])]
    return [e["op"]] + [json.dumps(x, separators=(",", ":")) if isinstance(x, list) else str(x) for x in e["a"]]


def post(t):
    """what was found becomes part of the event, for the specification to judge"""
    for e in t["ev"]:
        if e["op"] in ("nn", "knn", "ball", "iter", "size"):
            r = e.get("r", [0])
            got = r[0] == "got"
            e["a"] = e["a"] + [r[1] if got else 0 if e["op"] == "size" else []]
            if got:
                e["r"] = ["ok", 0]
    return t


def searches(rng, dim, g, n, all_of=False):
    q = [list(x) for x in itertools.product(range(-1, g + 2), repeat=dim)]
    ev = []
    for p in q if all_of else [[rng.randint(-2, g + 2) for _ in range(dim)] for _ in range(rng.choice([1, 3, 8]))]:
        o = rng.choice(["nn", "knn", "knn", "ball"])
        if all_of or o == "nn":
            ev.append(evt("nn", p))
        if all_of or o == "knn":
            ev.append(evt("knn", p, rng.randint(0, n + 2)))
        if all_of or o == "ball":
            ev.append(evt("ball", p, rng.choice([-1, 0, 1, 1, 2, 3, g])))
    return ev


def gen(rng):
    dim = rng.choice([2, 3])
    kind = rng.choice(["mem", "mem", "map"])
    g = rng.choice([1, 2, 3, 5, 10, 100])
    n = rng.choice([1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 20])
    c = {"kind": kind, "dim": dim, "cap": n + rng.choice([0, 0, 1, 5]), "g": g, "max": n}
    pts = [[rng.randint(0, g) for _ in range(dim)] for _ in range(n)]
    if rng.random() < 0.2:
        pts.sort()
    ev = [evt("size")]
    k = 0
    if rng.random() < 0.5:
        k = rng.randint(1, n)
        ev.append(evt("build", pts[:k]))
    ro = False
    while k < n and not ro:
        if rng.random() < 0.7 or k == 0:
            ev.append(evt("ins", pts[k]))
            k += 1
        else:
            o = rng.choice(["s", "s", "iter", "size", "meta", "reopen"])
            if o == "reopen" and (kind != "map" or rng.random() < 0.8):
                o = "iter"
            if o == "reopen":
                ro = True
            ev += searches(rng, dim, g, k) if o == "s" else [evt(o)]
    if ro:
        ev.append(evt("ins", pts[k]))
    if kind == "map" and not ro:
        ev.append(evt("reopen"))
    ev += [evt("iter"), evt("size")] + searches(rng, dim, g, k) + searches(rng, dim, g, k) + [evt("iter")]
    return c, ev


def run(chk):
    core.build_libs(("eckit_geometry",))
    exe = core.build_harness("s_kd", ["s_kd.cc"], libs=("eckit_geometry", "eckit"))
    sp = chk.spec("G01")
    q = chk.quick
    es = sp.mc("KdM", '{[kind |-> "mem", dim |-> 2, cap |-> %d, g |-> 1, max |-> %d], [kind |-> "map", dim |-> 2, cap |-> 3, g |-> 1, max |-> 3], [kind |-> "mem", dim |-> 2, cap |-> 3, g |-> 2, max |-> 3], [kind |-> "mem", dim |-> 3, cap |-> 3, g |-> 1, max |-> 3]}'
               % ((4, 4) if q else (5, 5)))
    chk.extra["transitions_replayed"] = len(es)
    cases = []
    seen = set()
    # every sequence of insertions (every state is one), and every search in it
    for c, s, l, t in es:
        k = json.dumps([c, t["p"], t["ro"]])
        if k in seen:
            continue
        seen.add(k)
        pts = t["p"]
        ev = [evt("ins", p) for p in pts] if (len(seen) % 2 or not pts) else [evt("build", pts)]
        if t["ro"]:
            ev.append(evt("reopen"))
        cases.append((c, ev + searches(chk.rng, c["dim"], c["g"], len(pts), True) + [evt("iter"), evt("size")]))
    core.seq_check(chk, sp, "KdM", exe, cases, w, "every small tree", post=post)
    core.seq_check(chk, sp, "KdM", exe, [gen(chk.rng) for _ in range(300 if q else 10000)], w, "histories", post=post)
