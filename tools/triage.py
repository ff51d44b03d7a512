#!/usr/bin/env python3
"""summarise build/replay/<ID>_*.json: one line per distinct (configuration kind, rejected operation)"""
import json, glob, sys, re
from collections import Counter, defaultdict
c = defaultdict(list)
for f in sorted(glob.glob("/verif/build/replay/%s_*.json" % sys.argv[1])):
    j = json.load(open(f))
    r = j["replay"]
    cfg = r.get("cfg", {})
    k = json.dumps(cfg)[:int(sys.argv[2]) if len(sys.argv) > 2 else 70]
    m = re.search(r'operation #\d+ (.*) is not allowed', j["what"])
    c[k].append((f, (m.group(1) if m else j["what"])[:150]))
for k, v in c.items():
    print(len(v), k)
    for f, w in v[:3]:
        print("     ", f.split("/")[-1], w)
