"""P01: paths stand for the places their spelling says, and operations on them do to the file system what they should."""
from .. import core
from .seqbase import both, evt

CWD = "/usr/lib"


def ch(s):
    return list(s)


def rpath(rng, al, n):
    r = ""
    for _ in range(rng.randint(0, n)):
        r += rng.choice(al)
    return r


def gnames(rng):
    lp = rng.randint(0, 1)
    al = rng.choice([["a", "b", "..", ".", "/", "/", "a.b"], ["/", "..", "a", "/../", "/./"], ["dir/", "x.tar.gz", "../", "./", "/", ".hid", "a b", "f."], ["/", "a", "~b", "/~c"]])
    tilde = any("~" in x for x in al)
    ev = []
    for _ in range(rng.randint(2, 12)):
        o = rng.choice(["set", "set", "div", "div", "app", "dir", "ext", "full", "rel", "eq"])
        x = rpath(rng, al, 7)
        if tilde and (x[:1] == "~" and o in ("set", "eq") or o in ("app", "div")):
            o = "dir"
        if o == "rel":
            if not lp:
                continue
            x = "/" + x
        if o == "eq" and rng.random() < 0.5 and ev and ev[-1]["op"] == "set":
            x = "".join(ev[-1]["a"][0])
        ev.append(evt(o) if o in ("dir", "ext", "full") else evt(o, ch(x)))
        if not tilde and rng.random() < 0.15:
            ev.append(evt("base", rng.randint(0, 1)))
    if tilde:
        ev.append(evt("base", rng.randint(0, 1)))
    return {"cwd": ch(CWD), "lp": lp, "n": 0}, ev


def spell(rng, p):
    """another spelling of the path p, which stays inside"""
    if rng.random() < 0.6:
        return p
    r = []
    for t in p.split("/"):
        k = rng.random()
        r += ([".", t] if k < 0.2 and r else ["", t] if k < 0.3 and r else ["b", "..", t] if k < 0.4 else [t])
    return "/".join(r)


def gfiles(rng):
    ns = rng.choice([["a", "b"], ["a", "b", "ab"], ["x.y", "x", "x.z"]])
    def p(root=False):
        if root and rng.random() < 0.2:
            return rng.choice([".", "./", "./."])
        return spell(rng, "/".join(rng.choice(ns) for _ in range(rng.choice([1, 1, 2, 2, 3]))))
    ev = []
    for _ in range(rng.randint(5, 40)):
        o = rng.choice(["exists", "isdir", "size", "read", "write", "write", "over", "touch", "touch", "mkdir", "mkdir", "unlink", "rmdir", "rename", "rename", "link", "copy", "copy", "sameas", "empty", "truncate",
                        "reserve", "children", "rchildren", "match", "match", "unique"])
        if o in ("rename", "link", "copy", "sameas"):
            ev.append(evt(o, ch(p()), ch(p())))
        elif o in ("write", "over"):
            ev.append(evt(o, ch(p()), [rng.randint(0, 255) for _ in range(rng.choice([0, 1, 3, 10, 300]))]))
        elif o in ("truncate", "reserve"):
            ev.append(evt(o, ch(p()), rng.choice([0, 1, 2, 5, 300])))
            if o == "reserve" and rng.random() < 0.6:
                ev.append(evt("over", ev[-1]["a"][0], [rng.randint(0, 255) for _ in range(ev[-1]["a"][1] + (rng.random() < 0.1))]))
        elif o == "match":
            ev.append(evt(o, ch(p(True)), ch(rng.choice(["*", "?", "a*", "*b", "x.*", "x", "??", "x?y", "*.*", "b*a"])), rng.randint(0, 1)))
        elif o in ("exists", "isdir", "mkdir"):
            ev.append(evt(o, ch(p(True) + ("/" if rng.random() < 0.15 else ""))))
        elif o in ("children", "rchildren"):
            ev.append(evt(o, ch(p(True))))
        else:
            ev.append(evt(o, ch(p())))
    return {"n": 0}, ev


class W:
    """words with strings as =string, bytes as 1,2,3"""
    def __init__(self, kind):
        self.kind = kind

    def __call__(self, c, e):
        if e is None:
            return ["fs"] if self.kind == "fs" else ["names", str(c["lp"]), "".join(c["cwd"])]
        r = [e["op"]]
        for x in e["a"]:
            if isinstance(x, list):
                r.append(("=" + "".join(x)) if not x or isinstance(x[0], str) else ",".join(str(v) for v in x))
            else:
                r.append(str(x))
        if e["op"] in ("write", "over") and not e["a"][1]:
            r[-1] = "-"
        return r


def run(chk):
    core.build_libs(("eckit",))
    exe = core.build_harness("s_path", ["s_path.cc"])
    sp = chk.spec("P01")
    cwd = "<<%s>>" % ", ".join('"%s"' % x for x in CWD)
    for lp, n in ((0, 4), (1, 4)) if chk.quick else ((0, 5), (1, 5)):
        es = sp.mc("PathM", '{[cwd |-> %s, lp |-> %d, n |-> %d, al |-> {"/", ".", "a"}]}' % (cwd, lp, n), mem="6g")
        chk.extra["transitions_replayed"] = chk.extra.get("transitions_replayed", 0) + len(es)
        cases = [(c, [l["e"] for l in evs]) for c, evs in core.tours(es, chk.seed, maxlen=60)]
        core.seq_check(chk, sp, "PathM", exe, cases, W("names"), "names replay")
    core.seq_check(chk, sp, "PathM", exe, [gnames(chk.rng) for _ in range(3000 if chk.quick else 40000)], W("names"), "names random")
    es = sp.mc("FsM", "{[n |-> %d]}" % (1 if chk.quick else 2), mem="6g")
    chk.extra["transitions_replayed"] += len(es)
    cases = [(c, [l["e"] for l in evs]) for c, evs in core.tours(es, chk.seed, maxlen=60)]
    core.seq_check(chk, sp, "FsM", exe, cases, W("fs"), "files replay")
    core.seq_check(chk, sp, "FsM", exe, [gfiles(chk.rng) for _ in range(2500 if chk.quick else 15000)], W("fs"), "files random")
