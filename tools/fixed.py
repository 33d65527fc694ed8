#!/usr/bin/env python3
"""add a fixed entry:  tools/fixed.py PROP 'commit subject substring' 'what failed'"""
import json, subprocess, sys, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
p, t, w = sys.argv[1:4]
log = subprocess.run(["git", "-C", "/repo", "log", "--format=%h %s"], capture_output=True, text=True).stdout.splitlines()
c = [l.split()[0] for l in log if t in l][0]
f = os.path.join(H, "known_findings.json")
k = json.load(open(f))
k.append({"property": p, "status": "fixed", "commit": c, "what": w, "entry": "fixed: property=%s %s %s" % (p, c, w)})
json.dump(k, open(f, "w"), indent=1)
