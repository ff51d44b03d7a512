"""N02: fractions are exact, and always in lowest terms."""
from .. import core
from .d02 import al, b, chunks, w
from .seqbase import evt


def gen(rng):
    ev = []
    m = rng.choice([20, 1000, 20000])

    def f():
        return [rng.randint(-m, m) if rng.random() < 0.9 else 0, rng.randint(1, m) * rng.choice([1, 1, -1])] if rng.random() < 0.8 else [rng.randint(-m, m), 1]
    for _ in range(rng.randint(5, 40)):
        o = rng.choice(["ar", "ar", "ar", "self", "fcmp", "fcmp", "stream", "pstr", "pdec", "int", "one", "one"])
        if o == "ar":
            x, y = f(), f()
            if rng.random() < 0.3:
                y = [y[0], x[1]]
            ev.append(evt(o, rng.choice("+-*/"), *(x + y)))
        elif o == "self":
            ev.append(evt(o, rng.choice("+-*/"), *f()))
        elif o in ("fcmp", "stream"):
            x = f()
            ev.append(evt(o, *(x + rng.choice([f(), [x[0] + 1, x[1]], [-x[0], -x[1]]]))))
        elif o == "pstr":
            x = f()
            ev.append(evt(o, b(rng.choice(["%d/%d" % (x[0], x[1]), "%d" % x[0], "%d.%0*d" % (x[0] % 1000, rng.randint(1, 4), abs(x[1]) % 1000)]))))
        elif o == "pdec":
            ev.append(evt(o, b("%s%d.%0*d" % (rng.choice(["", "-"]), rng.randint(0, 9999), rng.randint(1, 4), rng.randint(0, 9999)))))
        elif o == "int":
            ev.append(evt(o, rng.randint(-30000, 30000)))
        else:
            ev.append(evt(rng.choice(["mk", "neg", "abs", "ipart", "dpart", "toint", "isint", "fstr", "stable", "todbl", "dbl", "inv"]), *f()))
    return {"fr": 1}, ev


def run(chk):
    core.build_libs(("eckit",))
    exe = core.build_harness("s_types", ["s_types.cc"])
    sp = chk.spec("N02")
    n = 5 if chk.quick else 7
    es = sp.mc("FracM", '{[k |-> "pairs", n |-> %d], [k |-> "text", al |-> %s, n |-> %d], [k |-> "dbl", n |-> %d]}' % (n, al("-.10/5"), n, 120 if chk.quick else 400), mem="8g", timeout=800)
    chk.extra["transitions_replayed"] = len(es)
    core.seq_check(chk, sp, "FracM", exe, chunks(es, 1), w, "small")
    core.seq_check(chk, sp, "FracM", exe, [gen(chk.rng) for _ in range(1000 if chk.quick else 20000)], w, "large")
