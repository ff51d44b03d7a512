"""Q02: what a query gives."""
import json
from .. import core
from .seqbase import evt

TEXTS = ["", "a", "ab", "abcdefghijkl", "abcdefghijklm", "b", "c d"]
PREC = {"or": 1, "and": 2, "not": 3, "=": 4, "<>": 4, "<": 4, ">": 4, "<=": 4, ">=": 4, "in": 4, "notin": 4, "isnull": 4, "notnull": 4, "between": 4, "+": 5, "-": 5, "*": 6}


def sql(e, style, p=0):
    """the text of an expression; style 1: parentheses where precedence needs them"""
    h = e[0]
    if h == "col":
        return e[1]
    if h == "num":
        return str(e[1])
    if h == "str":
        return "'%s'" % TEXTS[e[1]]
    if h == "agg":
        return "count(*)" if e[1] == "count" and e[2][0] == "num" else "%s(%s)" % (e[1], sql(e[2], style))
    if h == "nvl":
        return "nvl(%s,%s)" % (sql(e[1], style), sql(e[2], style))
    if h == "neg":
        return "-%s" % ("(%s)" if e[1][0] == "neg" else "%s") % sql(e[1], style, 7)
    q = PREC[h]
    if h == "not":
        t = "not %s" % sql(e[1], style, 3)
    elif h == "isnull":
        t = "%s is null" % sql(e[1], style, 5)
    elif h == "notnull":
        t = "%s is not null" % sql(e[1], style, 5)
    elif h in ("in", "notin"):
        t = "%s %s (%s)" % (sql(e[1], style, 5), "in" if h == "in" else "not in", ",".join(TEXTS and ("'%s'" % TEXTS[x]) if e[1] == ["col", "s"] else str(x) for x in e[2]))
    elif h == "between":
        t = "%s between %d and %d" % (sql(e[1], style, 5), e[2], e[3])
    else:
        t = "%s %s %s" % (sql(e[1], style, q if h in ("and", "or", "+", "-", "*") else 5), h, sql(e[2], style, q + 1 if q >= 4 else q + 1))
    return "(%s)" % t if p > q or (style == 0 and p) else t


def query(a, style):
    _, _, frm, sel, where, distinct, order = a
    t = "select %s%s from %s" % ("distinct " if distinct else "", ",".join(sql(e, style) for e in sel), ",".join(frm))
    if where:
        t += " where " + sql(where[0], style)
    if order:
        t += " order by " + ",".join((str(o[1]) if o[0] == "i" else sql(o[1], style)) + (" asc" if o[2] else " desc") for o in order)
    return t + ";"


def w(c, e):
    if e is None:
        return ["sql"]
    a = e["a"]
    h = hash_(json.dumps(a))
    d = [json.dumps(x, separators=(",", ":")) for x in a[:2]]
    return ["select"] + d + ["1" if a[2] == "tu" and not a[6] else "0", query(a, h & 1), str((h >> 1) & 3)]


def hash_(s):
    import zlib
    return zlib.crc32(s.encode()) >> 3


NUM = {"t": ["a", "b"], "u": ["c", "d"], "tu": ["a", "b", "c", "d"]}


def gen(rng):
    ev = []
    for _ in range(rng.randint(1, 6)):
        frm = rng.choice(["t", "t", "t", "u", "tu", "tu"])
        m = rng.choice([1, 2, 3, 9])
        pm = rng.choice([0, 0.1, 0.3])

        def v():
            return [] if rng.random() < pm else [rng.randint(-m if rng.random() < 0.3 else 0, m)]
        n = rng.randint(0, 7 if frm != "tu" else 3)
        T = [[v(), v(), [rng.randrange(len(TEXTS))]] for _ in range(n)] if "t" in frm else []
        U = [[v(), v()] for _ in range(rng.randint(0, 7 if frm != "tu" else 2))] if "u" in frm else []
        cols = NUM[frm]

        def x(d):
            r = rng.random()
            if d == 0 or r < 0.5:
                return ["col", rng.choice(cols)] if rng.random() < 0.75 else ["num", rng.randint(0, m)]
            if r < 0.6:
                return ["neg", x(d - 1)]
            if r < 0.68:
                return ["nvl", x(d - 1), ["num", rng.randint(0, m)]]
            return [rng.choice(["+", "-", "*"]), x(d - 1), x(d - 1)]

        def cond(d):
            r = rng.random()
            if d == 0 or r < 0.4:
                r = rng.random()
                if r < 0.5:
                    return [rng.choice(["=", "<>", "<", ">", "<=", ">="]), x(1), x(1)]
                if r < 0.6:
                    return [rng.choice(["isnull", "notnull"]), x(1)]
                if r < 0.7:
                    return [rng.choice(["in", "notin"]), x(1), [rng.randint(0, m) for _ in range(rng.randint(1, 3))]]
                if r < 0.8:
                    return ["between", x(1), rng.randint(0, m), rng.randint(0, m)]
                if "t" in frm:
                    return rng.choice([[rng.choice(["=", "<>"]), ["col", "s"], ["str", rng.randrange(1, len(TEXTS))]],
                                       [rng.choice(["in", "notin"]), ["col", "s"], [rng.randrange(1, len(TEXTS)) for _ in range(rng.randint(1, 3))]]])
                return ["=", ["col", rng.choice(cols)], ["col", rng.choice(cols)]]
            if r < 0.5:
                return ["not", cond(d - 1)]
            return [rng.choice(["and", "and", "or"]), cond(d - 1), cond(d - 1)]
        k = rng.randint(1, 4)
        mode = rng.choice(["plain", "plain", "agg", "mixed"])
        pl = [x(rng.choice([0, 0, 2])) for _ in range(k)]
        if "t" in frm and rng.random() < 0.4:
            pl[0] = ["col", "s"]

        def agg():
            f = rng.choice(["count", "count", "sum", "avg", "var", "min", "max", "first", "last"])
            if f in ("first", "last"):
                return ["agg", f, ["nvl", ["col", rng.choice(cols)], ["num", 0]]] if frm != "tu" else ["agg", "count", ["num", 1]]
            return ["agg", f, x(rng.choice([0, 1])) if f != "count" or rng.random() < 0.6 else ["num", 1]]
        sel = pl if mode == "plain" else [agg() for _ in range(k)] if mode == "agg" else [e if i == 0 or rng.random() < 0.4 else agg() for i, e in enumerate(pl)]
        mode = "plain" if all(e[0] != "agg" for e in sel) else mode
        if frm == "tu":  # both are used
            used = json.dumps(sel)
            for g in ("ab", "cd"):
                if not any('"%s"' % c in used for c in g):
                    sel.insert(0, ["col", rng.choice(g)]) if mode != "agg" else sel.insert(0, ["agg", "max", ["col", rng.choice(g)]])
        elif not any(c in json.dumps(sel) for c in ['"%s"' % c for c in cols + ["s"]]):
            sel.insert(0, ["col", rng.choice(cols)]) if mode != "agg" else sel.insert(0, ["agg", "max", ["col", rng.choice(cols)]])
        where = [cond(rng.choice([0, 1, 2, 3]))] if rng.random() < 0.6 else []
        distinct = int(mode == "plain" and rng.random() < 0.3)
        order = []
        if rng.random() < 0.4 and mode != "agg":
            idx = list(range(1, len(sel) + 1))
            rng.shuffle(idx)
            order = [["i", i, rng.randint(0, 1)] for i in (idx if frm == "tu" else idx[:rng.randint(1, len(idx))])]
            if frm != "tu" and mode == "plain" and not distinct and rng.random() < 0.4:
                order = [["e", ["col", rng.choice(cols)], rng.randint(0, 1)]] + order[:1]
        ev.append(evt("select", T, U, frm, sel, where, distinct, order))
    return {"k": "random"}, ev


def run(chk):
    core.build_libs(("eckit", "eckit_sql"))
    exe = core.build_harness("s_sql", ["s_sql.cc"], libs=("eckit_sql", "eckit"))
    sp = chk.spec("Q02")
    q = chk.quick
    es = sp.mc("SqlM", '{[k |-> "one", n |-> %d], [k |-> "two", n |-> %d]}' % (2 if q else 3, 2 if q else 3), mem="8g", timeout=800)
    chk.extra["transitions_replayed"] = len(es)
    ops = sorted({json.dumps(e[2]["e"]["a"]) for e in es})
    cases = [({"k": "one"}, [evt("select", *json.loads(o)) for o in ops[k:k + 200]]) for k in range(0, len(ops), 200)]
    core.seq_check(chk, sp, "SqlM", exe, cases, w, "small")
    core.seq_check(chk, sp, "SqlM", exe, [gen(chk.rng) for _ in range(1500 if q else 30000)], w, "random")
