#!/usr/bin/env python3
"""builds the libraries and every harness (checks do so themselves; this only shows early that everything builds)"""
import importlib, json, os, sys, traceback
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
os.environ["VT_BUILD_ONLY"] = "1"
from vt import core
rc = 0
for c in json.load(open(V + "/MANIFEST.json"))["checks"]:
    pid = c["property"]
    try:
        chk = core.Check(pid, "quick", 1)
        try:
            importlib.import_module("vt.checks." + pid.lower()).run(chk)
        except core.BuildOnly:
            pass
        chk.abandon()
    except Exception:
        traceback.print_exc()
        rc = 1
sys.exit(rc)
