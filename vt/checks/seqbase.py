"""sequential components: exhaust the specification, replay every transition on the real code, then validate long random histories"""
from .. import core


def evt(op, *a):
    return {"op": op, "a": list(a)}


def words(pre):
    """pre(cfg) -> cfg words"""
    def f(c, e):
        return [str(x) for x in pre(c)] if e is None else [e["op"]] + [str(x) for x in e["a"]]
    return f


def both(chk, sp, module, exe, pre, cfgs, gen, nrand, label, fin=None, maxlen=60, sig=None, env=None, timeout=600, kind="seq", mc=True, mem="4g", cfgmap=None, xform=None):
    """cfgs: TLA set expression; gen(rng) -> (cfg, events)"""
    w = words(pre)
    n = 0
    if mc:
        es = sp.mc(module, cfgs, mem=mem)
        paths = core.tours(es, chk.seed, maxlen=maxlen)
        chk.extra["transitions_replayed"] = chk.extra.get("transitions_replayed", 0) + len(es)
        cases = [(dict(c, **(cfgmap or {})), [l["e"] for l in evs] + (fin or [])) for c, evs in paths]
        if xform:
            cases = [(c, xform(evs)) for c, evs in cases]
        n += core.seq_check(chk, sp, module, exe, cases, w, label + " replay", sig=sig, env=env, timeout=timeout, kind=kind)
    cases = [gen(chk.rng) for _ in range(nrand)]
    n += core.seq_check(chk, sp, module, exe, cases, w, label + " random", sig=sig, env=env, timeout=timeout, kind=kind)
    return n
