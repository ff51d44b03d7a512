#!/usr/bin/env python3
"""commit selected hunks of /repo's working tree: hunks.py "message" file[:i,j,...] ... (hunks numbered from 0)"""
import re, subprocess, sys
out = ""
for a in sys.argv[2:]:
    f, _, ix = a.partition(":")
    d = subprocess.run(["git", "-C", "/repo", "diff", "-U1", f], stdout=subprocess.PIPE, check=True).stdout.decode()
    parts = re.split(r"(?m)^(?=@@)", d)
    head, hs = parts[0], parts[1:]
    sel = [int(x) for x in ix.split(",")] if ix else range(len(hs))
    out += head + "".join(hs[i] for i in sel)
subprocess.run(["git", "-C", "/repo", "apply", "--cached", "--recount", "--unidiff-zero", "-"], input=out.encode(), check=True)
subprocess.run(["git", "-C", "/repo", "commit", "-q", "-m", sys.argv[1]], check=True)
print(subprocess.run(["git", "-C", "/repo", "log", "-1", "--format=%h %s"], stdout=subprocess.PIPE).stdout.decode().strip())
