#!/usr/bin/env python3
"""seedtest.py [-n] ID...: (run inside tools/sandbox.sh) confirms planted changes: applies, builds, tests pass, demo fails/passes, and runs the property's check"""
import json, os, subprocess, sys, tempfile, shutil
S = os.environ.get("SEEDS", "/verif/seeded")
notests = "-n" in sys.argv
ids = [a for a in sys.argv[1:] if a[0] != "-"] or sorted(os.listdir(S))


def sh(c, t=1200, **k):
    p = subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=t, **k)
    return p.returncode, p.stdout.decode("utf-8", "replace")


def demo(i):
    d = tempfile.mkdtemp()
    for f in os.listdir("%s/%s" % (S, i)):
        if not f.endswith((".diff", ".patch")) and f != "meta.json":
            (shutil.copytree if os.path.isdir("%s/%s/%s" % (S, i, f)) else shutil.copy)("%s/%s/%s" % (S, i, f), d + "/" + f)
    try:
        r = sh("bash %s/demo.sh" % d, 300, cwd="/repo")
    except subprocess.TimeoutExpired:
        r = (124, "timeout")
    shutil.rmtree(d)
    return r


sh("git -C /repo checkout -- . && bash /opt/vp/build.sh")
base = set(json.load(open("/opt/vp/BASELINE.json"))["stable"]) if "stable" in json.load(open("/opt/vp/BASELINE.json")) else None
for i in ids:
    meta = json.load(open("%s/%s/meta.json" % (S, i)))
    pid = meta["property"]
    out = [i, pid]
    rc, o = demo(i)
    out.append("demo-clean:%s" % ("ok" if rc == 0 else "BAD " + o[-500:]))
    rc, o = sh("git -C /repo apply %s/%s/patch.diff" % (S, i))
    if rc:
        print(out, "APPLY FAILED", o)
        continue
    rc, o = sh("bash /opt/vp/build.sh")
    out.append("build:%s" % ("ok" if rc == 0 else "BAD " + o[-1500:]))
    if rc == 0:
        rc, o = demo(i)
        out.append("demo-bug:%s" % ("ok(%d)" % rc if rc else "BAD passes"))
        if not notests:
            rc, o = sh("bash /opt/vp/test.sh /tmp/o_%d.json" % os.getpid())
            r = json.load(open("/tmp/o_%d.json" % os.getpid()))
            b = json.load(open("/opt/vp/BASELINE.json"))
            stable = b if isinstance(b, list) else b.get("stable") or b.get("passed") or b.get("tests")
            miss = [t for t in stable if t not in set(r["passed"])]
            out.append("tests:%s" % ("ok" if not miss else "BAD %d %s" % (len(miss), miss[:3])))
        if not meta.get("skipcheck"):
            rc, o = sh("VERIF_SEED=1 VERIF_TIER=quick python3 check.py %s quick" % pid, 900, cwd="/verif")
            v = "VIOLATION property=%s" % pid in o
            out.append("check:%s" % ("caught" if rc == 1 and v else "MISSED rc=%d %s" % (rc, o[-300:])))
    sh("git -C /repo apply -R %s/%s/patch.diff; git -C /repo checkout -- ." % (S, i))
    print(*out, flush=True)
sh("bash /opt/vp/build.sh")
