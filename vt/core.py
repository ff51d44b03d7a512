"""Shared machinery: build the code under test, drive TLC, replay/validate, evidence, verdicts."""
import fcntl, glob, hashlib, json, os, random, re, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VT_REPO", "/repo")
EB = os.path.join(REPO, "_build")
BUILD = os.path.join(VERIF, "build")
SPEC = os.path.join(VERIF, "spec")
HARN = os.path.join(VERIF, "harness")
TLA_CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
NCPU = os.cpu_count() or 4


class CheckError(Exception):
    """an error of the machinery (exit 2), never a verdict"""


class BuildOnly(BaseException):
    """raised instead of running anything when VT_BUILD_ONLY is set (tools/setup.py)"""


def only_build():
    if os.environ.get("VT_BUILD_ONLY"):
        raise BuildOnly()


def log(*a):
    print("[%6.1fs]" % (time.time() - T0), *a, file=sys.stderr, flush=True)


T0 = time.time()


def sh(cmd, timeout=900, env=None, cwd=None, ok=True, stdin=None):
    e = dict(os.environ)
    e.update({"LC_ALL": "C.UTF-8", "TMPDIR": "/tmp", "OMP_NUM_THREADS": "1", "OPENBLAS_NUM_THREADS": "1"})
    if env:
        e.update(env)
    p = subprocess.run(cmd, shell=isinstance(cmd, str), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, env=e,
                       cwd=cwd, input=stdin)
    o = p.stdout.decode("utf-8", "replace")
    if ok and p.returncode != 0:
        raise CheckError("command failed (%d): %s\n%s" % (p.returncode, cmd if isinstance(cmd, str) else " ".join(cmd), o[-6000:]))
    return p.returncode, o


# ---------------------------------------------------------------------------------------------------------------------
# building eckit from the working tree


def _hash(p):
    h = hashlib.sha1()
    with open(p, "rb") as f:
        h.update(f.read())
    return h.hexdigest()


def source_hashes():
    r = {}
    for base in ("src", "CMakeLists.txt", "cmake"):
        b = os.path.join(REPO, base)
        if os.path.isfile(b):
            r[base] = _hash(b)
            continue
        for d, ds, fs in os.walk(b):
            for f in fs:
                p = os.path.join(d, f)
                if os.path.isfile(p):
                    r[os.path.relpath(p, REPO)] = _hash(p)
    return r


def build_libs(targets=("eckit",)):
    """ninja in /repo/_build (a folder git ignores), for the needed library targets only.
    Objects older than a changed source are detected by content hash, not only by mtime."""
    os.makedirs(BUILD, exist_ok=True)
    lock = open(os.path.join(BUILD, "lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    try:
        t = time.time()
        if not os.path.exists(os.path.join(EB, "build.ninja")):
            sh("rm -rf %s/CMakeCache.txt %s/CMakeFiles; . /opt/vp/env.sh; bash /opt/vp/configure.sh" % (EB, EB), timeout=600)
        stamp = os.path.join(EB, ".vt_hashes.json")
        ref = os.path.join(VERIF, "vt", "base_hashes.json")
        now = source_hashes()
        old = None
        for f in (stamp, ref):
            if os.path.exists(f):
                try:
                    old = json.load(open(f))
                    break
                except ValueError:
                    pass
        if old is not None:
            for p, h in now.items():
                if old.get(p) != h and p.endswith((".cc", ".h", ".c", ".in", ".yaml", ".txt", ".cmake")):
                    try:
                        os.utime(os.path.join(REPO, p), None)
                    except OSError:
                        pass
        sh(". /opt/vp/env.sh; ninja -C %s %s" % (EB, " ".join(targets)), timeout=850)
        if os.path.isdir(EB):
            # only these targets are up to date: remember hashes per file only when the whole set of targets is known
            json.dump(now, open(stamp, "w"))
        log("eckit libraries %s up to date (%.1fs)" % (",".join(targets), time.time() - t))
    finally:
        lock.close()


CXX = "/usr/bin/g++"
INC = "-I%s/src -I%s/_build/src -I%s/src/eckit/io/fam/openfam_mock -I/usr/include/uuid -I%s" % (REPO, REPO, REPO, HARN)


def build_harness(name, srcs, instr=(), libs=("eckit",), flags="", ldflags="", sched=False):
    """srcs: harness sources; instr: sources (harness or repo/src relative) compiled with -fsanitize=thread,
    whose memory accesses and atomics become scheduling points."""
    d = os.path.join(BUILD, "h", name)
    os.makedirs(d, exist_ok=True)
    n = ["ninja_required_version = 1.5",
         "rule cc", "  command = %s -std=gnu++17 -O1 -g -fPIC -w $fl %s -MMD -MF $out.d -c $in -o $out" % (CXX, INC), "  depfile = $out.d", "  deps = gcc",
         "rule ld", "  command = %s -rdynamic -o $out $in $lf" % CXX]
    objs = []

    def add(s, fl):
        p = s if os.path.isabs(s) else (os.path.join(HARN, s) if os.path.exists(os.path.join(HARN, s)) else os.path.join(REPO, "src", s))
        o = os.path.join(d, re.sub(r"[/.]", "_", s) + ".o")
        n.append("build %s: cc %s" % (o, p))
        n.append("  fl = %s" % fl)
        objs.append(o)

    for s in srcs:
        add(s, flags)
    for s in instr:
        add(s, flags + " -fsanitize=thread --param tsan-instrument-func-entry-exit=0")
    if sched:
        add("vsched.cc", "-fno-threadsafe-statics")
    exe = os.path.join(d, name)
    libfiles = " ".join(os.path.join(EB, "lib", "lib%s.so" % l) for l in libs)
    n.append("build %s: ld %s | %s" % (exe, " ".join(objs), libfiles))
    n.append("  lf = -L%s/lib -Wl,-rpath,%s/lib -Wl,-rpath-link,%s/lib -Wl,--no-as-needed %s -lpthread -ldl %s" %
             (EB, EB, EB, " ".join("-l" + l for l in libs), ldflags))
    n.append("default %s" % exe)
    f = os.path.join(d, "build.ninja")
    txt = "\n".join(n) + "\n"
    if not os.path.exists(f) or open(f).read() != txt:
        open(f, "w").write(txt)
    t = time.time()
    sh(["ninja", "-C", d, "-f", f], timeout=600)
    log("harness %s built (%.1fs)" % (name, time.time() - t))
    return exe


def scratch(name):
    d = os.path.join(BUILD, "scratch", "%s.%d" % (name, os.getpid()))
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    return d


# ---------------------------------------------------------------------------------------------------------------------
# TLC

def tlc(dirname, module, cfg, workers=1, timeout=600, mem="2g", extra=(), props=()):
    open(os.path.join(dirname, module + ".cfg"), "w").write(cfg)
    cmd = ["java", "-XX:+UseParallelGC", "-XX:ParallelGCThreads=2", "-Xmx" + mem, "-Xss16m", *props, "-cp", TLA_CP, "tlc2.TLC", "-nowarning",
           "-metadir", os.path.join(dirname, "meta_" + module), "-workers", str(workers), "-config", module + ".cfg", *extra, module + ".tla"]
    rc, o = sh(cmd, timeout=timeout, cwd=dirname, ok=False)
    shutil.rmtree(os.path.join(dirname, "meta_" + module), ignore_errors=True)
    return rc, o


def tlc_stats(o):
    st = tr = 0
    for m in re.finditer(r"([\d,]+) states generated(?: \([^)]*\))?, ([\d,]+) distinct states found", o):
        tr, st = int(m.group(1).replace(",", "")), int(m.group(2).replace(",", ""))
    return st, tr


def specdir(name):
    d = os.path.join(BUILD, "tlc", "%s.%d" % (name, os.getpid()))
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    for f in glob.glob(os.path.join(SPEC, "*.tla")):
        shutil.copy(f, d)
    return d


# a result <<"sets", <<S1, ..., Sn>>>> is matched by lists without duplicates, in any order; <<"any">> by every result but those that only a broken
# harness gives
SAME = r"""
Same(a, b) == IF a[1] = "any" THEN b[1] \in {"ok", "exc", "none", "tree"} ELSE a[1] = b[1] /\ (IF Len(a) # Len(b) THEN FALSE ELSE IF Len(a) < 2 THEN TRUE
              ELSE IF a[1] = "sets" THEN Len(a[2]) = Len(b[2]) /\ \A i \in DOMAIN a[2] : a[2][i] = {b[2][i][k] : k \in DOMAIN b[2][i]} /\ Cardinality(a[2][i]) = Len(b[2][i])
              ELSE a[2] = b[2])
"""

# sequential conformance: Steps(st, e) is the set of permitted outcomes [s |-> state, r |-> result]
SEQ = r"""---- MODULE %(W)s ----
EXTENDS %(M)s, TLC, Json, FiniteSets
VARIABLES st, tid, l
Data == JsonDeserialize("%(F)s")
""" + SAME + r"""
Ev == Data[tid].ev
WInit == tid \in 1..Len(Data) /\ l = 1 /\ st = Init0(Data[tid].cfg)
WNext == /\ l <= Len(Ev)
         /\ \E o \in Steps(st, Ev[l]) : Same(o.r, Ev[l].r) /\ st' = o.s
         /\ l' = l + 1 /\ UNCHANGED tid
WSpec == WInit /\ [][WNext]_<<st, tid, l>>
ASSUME \A i \in 1..Len(Data) : TLCSet(i, 0)
Track == TLCSet(tid, IF TLCGet(tid) < l THEN l ELSE TLCGet(tid))
WInv == Inv(st)
Post == \A i \in 1..Len(Data) : (TLCGet(i) = Len(Data[i].ev) + 1) \/ PrintT(<<"REJECT", i, TLCGet(i)>>)
Diag == (l = %(L)s) => PrintT(<<"DIAG", st, IF l <= Len(Ev) THEN {o.r : o \in Steps(st, Ev[l])} ELSE {}>>)
====
"""

# concurrent histories: call/ret/stuck events; the effect of a call is a silent step between call and return
LIN = r"""---- MODULE %(W)s ----
EXTENDS %(M)s, TLC, Json, FiniteSets
VARIABLES st, tid, l, pend
Data == JsonDeserialize("%(F)s")
""" + SAME + r"""
Ev == Data[tid].ev
Idle == [on |-> 0]
Thr == 0..15
WInit == tid \in 1..Len(Data) /\ l = 1 /\ st = Init0(Data[tid].cfg) /\ pend = [t \in Thr |-> Idle]
Busy(t) == pend[t].on # 0
Lin(t) == /\ pend[t].on = 1
          /\ \E o \in Steps(st, pend[t].e) :
                /\ st' = o.s
                /\ pend' = [pend EXCEPT ![t] = [on |-> 2, e |-> pend[t].e, r |-> o.r]]
Blocked == \A t \in Thr : /\ pend[t].on # 2
                          /\ pend[t].on = 1 => Steps(st, pend[t].e) = {}
Consume == LET e == Ev[l] IN
  CASE e.op = "call" -> pend' = [pend EXCEPT ![e.t] = [on |-> 1, e |-> e.e]] /\ UNCHANGED st
    [] e.op = "ret" -> pend[e.t].on = 2 /\ Same(pend[e.t].r, e.r) /\ pend' = [pend EXCEPT ![e.t] = Idle] /\ UNCHANGED st
    [] e.op = "stuck" -> Blocked /\ UNCHANGED <<st, pend>>
    [] e.op = "limit" -> UNCHANGED <<st, pend>>
    [] OTHER -> FALSE
WNext == /\ l <= Len(Ev)
         /\ UNCHANGED tid
         /\ \/ Consume /\ l' = l + 1
            \/ Ev[l].op \in {"ret", "stuck"} /\ UNCHANGED l /\ \E t \in Thr : Lin(t)
WSpec == WInit /\ [][WNext]_<<st, tid, l, pend>>
ASSUME \A i \in 1..Len(Data) : TLCSet(i, 0)
Track == TLCSet(tid, IF TLCGet(tid) < l THEN l ELSE TLCGet(tid))
WInv == Inv(st)
Post == \A i \in 1..Len(Data) : (TLCGet(i) = Len(Data[i].ev) + 1) \/ PrintT(<<"REJECT", i, TLCGet(i)>>)
Diag == (l = %(L)s) => PrintT(<<"DIAG", st, {t \in Thr : Busy(t)}>>)
====
"""

# action specs: vars, CInit(c), Act(e) (event-labelled action), Silent (unlogged action, FALSE if none)
ACT = r"""---- MODULE %(W)s ----
EXTENDS %(M)s, TLC, Json
VARIABLES tid, l
Data == JsonDeserialize("%(F)s")
Ev == Data[tid].ev
WInit == tid \in 1..Len(Data) /\ l = 1 /\ CInit(Data[tid].cfg)
WNext == /\ l <= Len(Ev)
         /\ UNCHANGED tid
         /\ \/ Act(Ev[l]) /\ l' = l + 1
            \/ Silent(Ev[l]) /\ UNCHANGED l
WSpec == WInit /\ [][WNext]_<<vars, tid, l>>
ASSUME \A i \in 1..Len(Data) : TLCSet(i, 0)
Track == TLCSet(tid, IF TLCGet(tid) < l THEN l ELSE TLCGet(tid))
WInv == Inv
Post == \A i \in 1..Len(Data) : (TLCGet(i) = Len(Data[i].ev) + 1) \/ PrintT(<<"REJECT", i, TLCGet(i)>>)
Diag == (l = %(L)s) => PrintT(<<"DIAG", vars>>)
====
"""

TEMPL = {"seq": SEQ, "lin": LIN, "act": ACT}

# exhaustive exploration of the sequential specification and dump of every transition (for replay)
MC = r"""---- MODULE %(W)s ----
EXTENDS %(M)s, TLC, Json
VARIABLES st, last, cf
MInit == cf \in %(CFGS)s /\ st = Init0(cf) /\ last = [op |-> "init"]
MNext == \E e \in Ops(cf, st) : \E o \in Steps(st, e) :
            /\ st' = o.s
            /\ last' = [e |-> e, r |-> o.r]
            /\ UNCHANGED cf
MSpec == MInit /\ [][MNext]_<<st, last, cf>>
MView == <<cf, st>>
MInv == Inv(st)
MBound == Bound(cf, st)
MBlock == PrintT("BLOCK " \o ToJson(<<cf, st, {e \in Ops(cf, st) : Steps(st, e) = {}}>>))
Dump == PrintT("EDGE " \o ToJson(<<cf, st, last', st'>>))
====
"""


class Spec:
    def __init__(self, name):
        self.name = name
        self.dir = specdir(name)
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.events = 0
        self.n = 0

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)

    def mc(self, module, cfgs, edges=True, block=False, timeout=300, workers=None, inv=True, mem="4g"):
        """exhaustive check of Inv on the sequential spec; returns the list of edges (cfg, s, event, s')"""
        only_build()
        w = "%s_MC%d" % (module, self.n)
        self.n += 1
        open(os.path.join(self.dir, w + ".tla"), "w").write(MC % dict(W=w, M=module, CFGS=cfgs))
        cfg = "SPECIFICATION MSpec\nVIEW MView\nCONSTRAINT MBound\nCHECK_DEADLOCK FALSE\n"
        if inv:
            cfg += "INVARIANT MInv\n"
        if edges:
            cfg += "ACTION_CONSTRAINT Dump\n"
        if block:
            cfg += "INVARIANT MBlock\n"
        rc, o = tlc(self.dir, w, cfg, workers=workers or (1 if edges else NCPU), timeout=timeout, mem=mem)
        if rc != 0 or "No error has been found" not in o:
            raise CheckError("TLC on %s (model checking the specification itself) failed:\n%s" % (module, o[-5000:]))
        st, tr = tlc_stats(o)
        self.states += st
        self.transitions += tr
        es = []
        if edges:
            for m in re.finditer(r'^"EDGE (.*)"$', o, re.M):
                es.append(json.loads(json.loads('"' + m.group(1) + '"')))
        if block:
            self.blocked = [json.loads(json.loads('"' + m.group(1) + '"')) for m in re.finditer(r'^"BLOCK (.*)"$', o, re.M)]
        log("TLC %s: %d states, %d transitions, %d edges" % (module, st, tr, len(es)))
        return es

    def model(self, module, cfgtext, timeout=300, workers=None, mem="6g", extra=()):
        """plain TLC run of a module with its own Spec and cfg text"""
        only_build()
        rc, o = tlc(self.dir, module, cfgtext, workers=workers or NCPU, timeout=timeout, mem=mem, extra=extra)
        if rc != 0 or "No error has been found" not in o:
            raise CheckError("TLC on %s (model checking the specification itself) failed:\n%s" % (module, o[-6000:]))
        st, tr = tlc_stats(o)
        self.states += st
        self.transitions += tr
        log("TLC %s: %d states, %d transitions" % (module, st, tr))
        return st, tr

    def validate(self, kind, module, traces, timeout=600, chunk=None, inv=True, count=True, dfq=False):
        """traces: list of {"cfg":..., "ev":[...]}; returns list of (index, position) of rejected traces"""
        only_build()
        if not traces:
            return []
        nproc = NCPU
        tot = sum(len(t["ev"]) for t in traces) + len(traces)
        k = max(1, min(nproc, tot // 1500 + 1, len(traces)))
        groups = [[] for _ in range(k)]
        sizes = [0] * k
        for i in sorted(range(len(traces)), key=lambda i: -len(traces[i]["ev"])):
            j = sizes.index(min(sizes))
            groups[j].append(i)
            sizes[j] += len(traces[i]["ev"]) + 1
        self.n += 1
        base = "%s_T%d" % (module, self.n)

        def one(j):
            g = groups[j]
            w = "%s_%d" % (base, j)
            f = os.path.join(self.dir, w + ".json")
            json.dump([{"cfg": traces[i]["cfg"], "ev": traces[i]["ev"]} for i in g], open(f, "w"))
            open(os.path.join(self.dir, w + ".tla"), "w").write(TEMPL[kind] % dict(W=w, M=module, F=w + ".json", L="0"))
            cfg = "SPECIFICATION WSpec\nCONSTRAINT Track\nPOSTCONDITION Post\nCHECK_DEADLOCK FALSE\n"
            if inv:
                cfg += "INVARIANT WInv\n"
            props = ("-Dtlc2.tool.queue.IStateQueue=StateDeque",) if dfq else ()
            rc, o = tlc(self.dir, w, cfg, workers=1, timeout=timeout, mem="3g", props=props)
            rej = [(g[int(a) - 1], int(b)) for a, b in re.findall(r'<<"REJECT", (\d+), (\d+)>>', o)]
            os.remove(f)
            if "Invariant WInv is violated" in o:
                m = re.findall(r"^/\\ tid = (\d+)", o, re.M)
                l = re.findall(r"^/\\ l = (\d+)", o, re.M)
                if m:
                    return [(g[int(m[-1]) - 1], int(l[-1]) - 1 if l else 0)], (0, 0)
            if rc != 0 or "Model checking completed" not in o or ("Error:" in o):
                raise CheckError("TLC failed validating traces of %s:\n%s" % (module, o[-5000:]))
            return rej, tlc_stats(o)

        rej = []
        with ThreadPoolExecutor(max_workers=k) as ex:
            for r, (s, t) in ex.map(one, range(k)):
                rej += r
                if count:
                    self.states += s
                    self.transitions += t
        if count:
            self.traces += len(traces)
            self.events += sum(len(t["ev"]) for t in traces)
        return sorted(rej)

    def diagnose(self, kind, module, trace, pos):
        self.n += 1
        w = "%s_D%d" % (module, self.n)
        f = os.path.join(self.dir, w + ".json")
        json.dump([{"cfg": trace["cfg"], "ev": trace["ev"]}], open(f, "w"))
        open(os.path.join(self.dir, w + ".tla"), "w").write(TEMPL[kind] % dict(W=w, M=module, F=w + ".json", L=str(pos)))
        cfg = "SPECIFICATION WSpec\nCONSTRAINTS Track Diag\nCHECK_DEADLOCK FALSE\n"
        rc, o = tlc(self.dir, w, cfg, workers=1, timeout=120)
        d = re.findall(r'(<<\s*"DIAG".*?)(?=\n(?:<<|Model checking|Progress|Finished|Error))', o, re.S)
        return "\n".join(d[:4])[:3000]


# ---------------------------------------------------------------------------------------------------------------------
# replay of the state graph: one test per transition

def tours(edges, seed=1, maxlen=60, maxpaths=4000, limit=None):
    """edges: [cfg, s, last, s'] -> list of (cfg, [events]) covering every edge (greedy walks from the initial state)"""
    rng = random.Random(seed)
    key = lambda x: json.dumps(x, sort_keys=True)
    graphs = {}
    for c, s, l, t in edges:
        graphs.setdefault(key(c), (c, {}))[1].setdefault(key(s), []).append((l, key(t)))
    paths = []
    for ck, (c, g) in graphs.items():
        # the initial state is the source of the first edge printed for this cfg
        init = None
        for cc, s, l, t in edges:
            if key(cc) == ck:
                init = key(s)
                break
        # BFS tree
        par = {init: None}
        q = [init]
        for s in q:
            for i, (l, t) in enumerate(g.get(s, [])):
                if t not in par:
                    par[t] = (s, i)
                    q.append(t)
        todo = {(s, i) for s in par for i in range(len(g.get(s, [])))}
        order = [(s, i) for s in q for i in range(len(g.get(s, [])))]
        left = {s: len(g.get(s, [])) for s in par}

        def did(e):
            if e in todo:
                todo.discard(e)
                left[e[0]] -= 1
        for (s, i) in order:
            if (s, i) not in todo:
                continue
            path = []
            x = s
            while par[x] is not None:
                p, k = par[x]
                path.append((p, k))
                x = p
            path.reverse()
            path.append((s, i))
            cur = g[s][i][1]
            while len(path) < maxlen:
                o = [k for k in range(len(g.get(cur, []))) if (cur, k) in todo and (cur, k) not in path[-1:]]
                if not o:
                    break
                # rather where there is more to do
                k = rng.choice([x for x in o if left[g[cur][x][1]] > 0] or o)
                path.append((cur, k))
                did((cur, k))
                cur = g[cur][k][1]
            for p in path:
                did(p)
            paths.append((c, [g[p][k][0] for p, k in path]))
            if limit and len(paths) >= limit:
                break
    return paths


def wakes(edges, blocked, names, rng, limit, words):
    """every way in which one call makes a blocked one possible, as concurrent scenarios: a thread 0 prefix leading to a state in which one or two
    calls (of the operations in names) block, those calls in threads of their own, and a call after which they are enabled in another"""
    key = lambda x: json.dumps(x, sort_keys=True)
    init, par, adj = {}, {}, {}
    for c, s, l, t in edges:
        ck = key(c)
        if ck not in init:
            init[ck] = key(s)
            par[ck] = {key(s): None}
        adj.setdefault((ck, key(s)), []).append((l, key(t)))
    for ck, i in init.items():
        todo = [i]
        while todo:
            n = []
            for s in todo:
                for l, t in adj.get((ck, s), []):
                    if t not in par[ck]:
                        par[ck][t] = (s, l)
                        n.append(t)
            todo = n
    bl = {(key(c), key(s)): [e for e in es if e["op"] in names] for c, s, es in blocked}
    cand = []
    for (ck, sk), bs in bl.items():
        if not bs or sk not in par.get(ck, {}):
            continue
        for l, t in adj.get((ck, sk), []):
            if t == sk or (ck, t) not in bl:
                continue
            kb = {key(e) for e in bl[(ck, t)]}
            free = [e for e in bs if key(e) not in kb]
            for e in free:
                cand.append((ck, sk, [e], l["e"]))
            if free:
                cand.append((ck, sk, [rng.choice(free), rng.choice(bs)], l["e"]))
    # one of each kind first, then at random
    rng.shuffle(cand)
    kinds, first, rest = set(), [], []
    for x in cand:
        k = (x[0], tuple(sorted(e["op"] for e in x[2])), x[3]["op"])
        (rest if k in kinds else first).append(x)
        kinds.add(k)
    out = []
    for ck, sk, bs, u in (first + rest)[:limit]:
        path = []
        x = sk
        while par[ck][x] is not None:
            x, l = par[ck][x]
            path.append(l["e"])
        path.reverse()
        c = json.loads(ck)
        ops = [[0, e["op"]] + e["a"] for e in path]
        for i, e in enumerate(bs):
            ops.append([i + 1, e["op"]] + e["a"])
        ops.append([len(bs) + 1, u["op"]] + u["a"])
        out.append((c, words(c), ops))
    return out


# ---------------------------------------------------------------------------------------------------------------------
# verdicts

class Check:
    def __init__(self, pid, tier, seed, level="model_checking"):
        self.pid, self.tier, self.seed, self.level = pid, tier, seed, level
        self.quick = tier == "quick"
        self.rng = random.Random(seed * 1000003 + int(hashlib.sha1(pid.encode()).hexdigest()[:6], 16))
        self.specs = []
        self.extra = {}
        self.samples = []
        self.violations = []
        self.known_seen = []
        self.assumptions = []
        self.known = load_known(pid)
        self.scr = scratch(pid)
        self.t0 = time.time()

    def spec(self, name):
        s = Spec(name)
        self.specs.append(s)
        return s

    def sample(self, x):
        if len(self.samples) < 4:
            self.samples.append(x)

    def violation(self, what, replay, signature=None):
        """signature: stable identification of the failing input/site/history, matched against KNOWN_FINDINGS"""
        sig = signature or what
        for k in self.known:
            if re.search(k["match"], sig):
                if k not in self.known_seen:
                    self.known_seen.append(k)
                return False
        os.makedirs(os.path.join(BUILD, "replay"), exist_ok=True)
        f = os.path.join(BUILD, "replay", "%s_%d.json" % (self.pid, len(self.violations)))
        json.dump({"property": self.pid, "what": what, "signature": sig, "replay": replay}, open(f, "w"), indent=1)
        self.violations.append((what, f))
        return True

    def abandon(self):
        for s in self.specs:
            s.close()
        shutil.rmtree(self.scr, ignore_errors=True)

    def finish(self):
        st = sum(s.states for s in self.specs)
        tr = sum(s.transitions for s in self.specs)
        nt = sum(s.traces for s in self.specs)
        cov = {"states": st, "transitions": tr, "traces_validated_against_impl": nt,
               "events_validated": sum(s.events for s in self.specs), "samples": self.samples}
        cov.update(self.extra)
        ev = {"property": self.pid, "tier": self.tier, "seed": self.seed, "level": self.level, "coverage": cov,
              "wall_s": round(time.time() - self.t0, 2)}
        if self.assumptions:
            ev["assumptions"] = self.assumptions
        if self.violations:
            cov["rejected"] = [{"what": w[:2000], "replay": f} for w, f in self.violations[:20]]
        ev["violations"] = len(self.violations)
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        json.dump(ev, open(os.path.join(VERIF, "evidence", self.pid + ".json"), "w"), indent=1)
        for s in self.specs:
            s.close()
        shutil.rmtree(self.scr, ignore_errors=True)
        for k in self.known_seen:
            print("KNOWN-FINDING: property=%s %s" % (self.pid, k["what"]))
        if self.violations:
            for w, f in self.violations[:5]:
                print("VIOLATION property=%s replay=%s" % (self.pid, f))
                print("  " + w[:1500].replace("\n", "\n  "))
            return 1
        print("OK property=%s states=%d transitions=%d traces=%d wall=%.1fs" % (self.pid, st, tr, nt, time.time() - self.t0))
        return 0


def load_known(pid):
    """KNOWN_FINDINGS: lines 'known: property=<id> match=<regex> :: <what fails>' and 'fixed: ...' (which suppress nothing)"""
    r = []
    f = os.path.join(VERIF, "KNOWN_FINDINGS")
    if os.path.exists(f):
        for l in open(f):
            m = re.match(r"known: property=(\S+) match=(.*?) :: (.*)$", l.strip())
            if m and m.group(1) == pid:
                r.append({"match": m.group(2), "what": m.group(3)})
    return r


# ---------------------------------------------------------------------------------------------------------------------
# sequential harness protocol

def pct(s):
    s = str(s)
    r = ""
    for ch in s.encode("utf-8"):
        c = chr(ch)
        if c.isalnum() or c in "_-.,/:;+*=~@#()[]{}<>!?|&^$'":
            r += c
        else:
            r += "%%%02X" % ch
    return r if r else "%00"


def run_scripts(exe, scripts, chk, env=None, timeout=600, jobs=None):
    """scripts: list of (cfgwords, [op word lists]) -> list of lists of raw results (python values)"""
    only_build()
    jobs = jobs or min(NCPU, max(1, len(scripts) // 4))
    groups = [list(range(j, len(scripts), jobs)) for j in range(jobs)]

    def one(j):
        d = os.path.join(chk.scr, "run%d_%d" % (j, random.getrandbits(30)))
        os.makedirs(d)
        fi, fo = os.path.join(d, "in"), os.path.join(d, "out")
        with open(fi, "w") as f:
            for i in groups[j]:
                c, ops = scripts[i]
                f.write("BEGIN %s\n" % " ".join(pct(x) for x in c))
                for o in ops:
                    f.write(" ".join(pct(x) for x in o) + "\n")
                f.write("END\n")
        e = {"VT_SCRATCH": os.path.join(d, "s"), "HOME": os.path.join(d, "home")}
        os.makedirs(e["VT_SCRATCH"])
        os.makedirs(e["HOME"])
        if env:
            e.update(env)
        rc, o = sh([exe, fi, fo], timeout=timeout, env=e, ok=False, cwd=d)
        if rc != 0:
            raise CheckError("harness %s failed (%d): %s" % (exe, rc, o[-2000:]))
        res = []
        cur = None
        for l in open(fo, errors="replace"):
            l = l.rstrip("\n")
            if l == "BEGIN":
                cur = []
            elif l == "END":
                res.append(cur)
            else:
                cur.append(json.loads(l))
        shutil.rmtree(d, ignore_errors=True)
        if len(res) != len(groups[j]):
            raise CheckError("harness %s: %d results for %d scripts" % (exe, len(res), len(groups[j])))
        return res

    out = [None] * len(scripts)
    with ThreadPoolExecutor(max_workers=jobs) as ex:
        for j, r in enumerate(ex.map(one, range(jobs))):
            for i, x in zip(groups[j], r):
                out[i] = x
    return out


def mktrace(cfg, events, results):
    """zip operations with observed results; abnormal ends become events that no specification action matches"""
    ev = []
    for k, r in enumerate(results):
        if isinstance(r, dict) and ("crash" in r or "hang" in r or "uncaught" in r):
            e = dict(events[k]) if k < len(events) else {"op": "end"}
            e["r"] = ["ABNORMAL", json.dumps(r)]
            ev.append(e)
            break
        e = dict(events[k])
        e["r"] = r
        ev.append(e)
    else:
        if len(results) < len(events):
            e = dict(events[len(results)])
            e["r"] = ["ABNORMAL", "missing"]
            ev.append(e)
    return {"cfg": cfg, "ev": ev}


def seq_check(chk, spec, module, exe, cases, words, label, env=None, kind="seq", sig=None, timeout=600, post=None):
    """cases: list of (cfg record, [event records without r]); words(cfg) -> cfg words; words(ev) -> op words.
    Runs them on the real code and validates the recorded traces; rejections are reproduced before being reported."""
    def go(cs, count=True):
        scripts = [(words(c, None), [words(c, e) for e in evs]) for c, evs in cs]
        res = run_scripts(exe, scripts, chk, env=env, timeout=timeout)
        tr = [mktrace(c, evs, r) for (c, evs), r in zip(cs, res)]
        if post:
            tr = [post(t) for t in tr]
        return tr, spec.validate(kind, module, tr, count=count)

    tr, rej = go(cases)
    for t in tr[:1]:
        chk.sample({"kind": label, "cfg": t["cfg"], "events": t["ev"][:12]})
    log("%s: %d traces validated, %d rejected" % (label, len(tr), len(rej)))
    n = 0
    for i, pos in rej:
        if n >= 8:
            break
        t2, r2 = go([cases[i]], count=False)
        if not r2:
            log("rejection of %s #%d not reproduced; ignored" % (label, i))
            if os.environ.get("VT_DEBUG"):
                log(json.dumps(tr[i]["ev"][max(0, pos - 6):pos]))
            continue
        n += 1
        t, pos = t2[0], r2[0][1]
        e = t["ev"][pos - 1] if 0 < pos <= len(t["ev"]) else {}
        d = spec.diagnose(kind, module, t, pos) if n <= 3 else ""
        what = "%s: operation #%d %s is not allowed by %s.tla\n%s" % (label, pos, json.dumps(e)[:600], module, d)
        s = sig(t, pos) if sig else "%s op=%s" % (label, e.get("op"))
        chk.violation(what, {"cfg": t["cfg"], "events": t["ev"][:pos], "label": label}, s)
    return len(rej)


# ---------------------------------------------------------------------------------------------------------------------
# scheduled (concurrent) harness protocol

def run_sched(exe, chk, scenarios, n, mode="mix", max_steps=200000, preemptions=2, spurious=0, mem=1, first=0, timeout=600, env=None, seed=None):
    """scenarios: list of (cfgwords, [(op words...)]) -> list of lists of runs {"i":..,"ev":[..]}; one process per scenario group"""
    only_build()
    jobs = min(NCPU, len(scenarios))
    groups = [list(range(j, len(scenarios), jobs)) for j in range(jobs)]

    def one(j):
        d = os.path.join(chk.scr, "sch%d_%d" % (j, random.getrandbits(30)))
        os.makedirs(d)
        fi, fo = os.path.join(d, "in"), os.path.join(d, "out")
        with open(fi, "w") as f:
            for i in groups[j]:
                c, ops = scenarios[i]
                f.write("BEGIN %s\n" % " ".join(pct(x) for x in c))
                for o in ops:
                    f.write(" ".join(pct(x) for x in o) + "\n")
                f.write("END\n")
        e = {"VT_SCRATCH": os.path.join(d, "s"), "HOME": os.path.join(d, "home")}
        os.makedirs(e["VT_SCRATCH"])
        os.makedirs(e["HOME"])
        if env:
            e.update(env)
        nn = n if not callable(n) else None
        rc, o = sh([exe, fi, fo, str(n), str(seed if seed is not None else chk.seed), mode, str(max_steps), str(preemptions), str(spurious), str(mem),
                    str(first)], timeout=timeout, env=e, ok=False, cwd=d)
        if rc != 0:
            raise CheckError("harness %s failed (%d): %s" % (exe, rc, o[-2000:]))
        res = {}
        for l in open(fo, errors="replace"):
            x = json.loads(l)
            res.setdefault(int(x["tag"]), []).append(x)
        shutil.rmtree(d, ignore_errors=True)
        return [res.get(k, []) for k in range(len(groups[j]))]

    out = [None] * len(scenarios)
    with ThreadPoolExecutor(max_workers=jobs) as ex:
        for j, r in enumerate(ex.map(one, range(jobs))):
            for i, x in zip(groups[j], r):
                out[i] = x
    return out


def sched_check(chk, spec, kind, module, exe, scenarios, n, label, mode="mix", max_steps=200000, preemptions=2, spurious=0, mem=1, sig=None,
                post=None, env=None, maxtraces=4000):
    """scenarios: list of (cfg record, cfg words, ops). Validates every distinct recorded history."""
    runs = run_sched(exe, chk, [(w, o) for _, w, o in scenarios], n, mode, max_steps, preemptions, spurious, mem, env=env)
    traces, seen, meta = [], set(), []
    nrun = limits = complete = 0
    for si, rs in enumerate(runs):
        for r in rs:
            if r.get("complete"):
                complete += 1
                continue
            nrun += 1
            ev = r["ev"]
            if post:
                ev = post(scenarios[si][0], ev)
            if any(e["op"] == "limit" for e in ev):
                limits += 1
            k = (si, json.dumps(ev))
            if k in seen:
                continue
            seen.add(k)
            traces.append({"cfg": scenarios[si][0], "ev": ev})
            meta.append((si, r["i"]))
    if len(traces) > maxtraces:
        idx = sorted(chk.rng.sample(range(len(traces)), maxtraces))
        # always keep abnormal ends
        keep = set(idx) | {i for i, t in enumerate(traces) if t["ev"] and t["ev"][-1]["op"] in ("crash", "hang", "stuck")}
        idx = sorted(keep)
        traces = [traces[i] for i in idx]
        meta = [meta[i] for i in idx]
    chk.extra["schedules_run"] = chk.extra.get("schedules_run", 0) + nrun
    chk.extra["distinct_histories"] = chk.extra.get("distinct_histories", 0) + len(seen)
    if mode == "dfs":
        chk.extra["scenarios_exhausted"] = chk.extra.get("scenarios_exhausted", 0) + complete
    if limits:
        chk.extra["step_limited"] = chk.extra.get("step_limited", 0) + limits
    if nrun and limits > nrun // 2 and mode != "dfs":
        raise CheckError("%s: %d of %d schedules hit the step limit" % (label, limits, nrun))
    rej = spec.validate(kind, module, traces)
    if traces:
        chk.sample({"kind": label, "cfg": traces[0]["cfg"], "events": traces[0]["ev"][:16]})
    log("%s: %d schedules, %d distinct histories validated, %d rejected" % (label, nrun, len(traces), len(rej)))
    shown = 0
    sigs = {}
    for ti, pos in rej:
        if shown >= (12 if sig is None else 60):
            break
        if sig:
            k = sig(traces[ti], pos)
            if sigs.get(k, 0) >= 2:
                continue
            sigs[k] = sigs.get(k, 0) + 1
        si, idx = meta[ti]
        if mode != "dfs":
            again = run_sched(exe, chk, [scenarios[si][1:]], 1, mode, max_steps, preemptions, spurious, mem, first=idx, env=env)[0]
            ev = again[0]["ev"] if again else []
            if post:
                ev = post(scenarios[si][0], ev)
            t = {"cfg": scenarios[si][0], "ev": ev}
        else:
            t = traces[ti]
        r2 = spec.validate(kind, module, [t], count=False)
        if not r2:
            log("rejection of %s schedule %d not reproduced; ignored" % (label, idx))
            if os.environ.get("VT_DEBUG"):
                log(json.dumps(traces[ti]["ev"][:pos]), pos)
            continue
        shown += 1
        pos = r2[0][1]
        e = t["ev"][pos - 1] if 0 < pos <= len(t["ev"]) else {}
        d = spec.diagnose(kind, module, t, pos) if shown <= 2 else ""
        what = "%s: schedule %d of scenario %s: event #%d %s is not allowed by %s.tla\n%s" % (
            label, idx, json.dumps(scenarios[si][1:])[:600], pos, json.dumps(e)[:400], module, d)
        s = sig(t, pos) if sig else "%s event=%s" % (label, e.get("op"))
        chk.violation(what, {"scenario": scenarios[si][1:], "schedule": idx, "seed": chk.seed, "mode": mode, "events": t["ev"][:pos]}, s)
    return len(rej)
