#!/usr/bin/env python3
"""Overlay JSON mapping /verif/harness/<pkg> into /repo/zzverif/<pkg>."""
import json, os, sys
verif, repo, out = sys.argv[1:4]
m = {}
root = os.path.join(verif, "harness")
for d, _, fs in os.walk(root):
    for f in fs:
        if f.endswith((".go", ".s")):
            p = os.path.join(d, f)
            m[os.path.join(repo, "zzverif", os.path.relpath(p, root))] = p
for x in sys.argv[4:]:
    m.update(json.load(open(x))["Replace"])
json.dump({"Replace": m}, open(out, "w"), indent=1)
