#!/usr/bin/env python3
"""Rewrite checks/residue.json from the current tree: the obligations the abstract
interpreter neither proves nor refutes.  Run by hand after review, never by a check."""
import os, sys, json, subprocess, tempfile
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, R + "/checks"); sys.path.insert(0, R + "/engine")
F = R + "/checks/residue.json"
import registry
ids = sys.argv[1:] or [k for k, v in registry.CHECKS.items() if v[3] == registry.AT] + ["M06"]
if not sys.argv[1:] and os.path.exists(F): os.remove(F)
d = json.load(open(F)) if os.path.exists(F) else {}
for p in ids:
    t = tempfile.mktemp()
    subprocess.run([sys.executable, R + "/checks/run.py", p], env=dict(os.environ, SBC_RESIDUE_OUT=t), stdout=subprocess.DEVNULL)
    if os.path.exists(t):
        d[p] = json.load(open(t)); os.remove(t)
        print(p, len(d[p]))
json.dump(d, open(F, "w"), indent=1, sort_keys=True)
