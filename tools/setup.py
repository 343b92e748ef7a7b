#!/usr/bin/env python3
"""Builds the harness once and checks that the specifications parse."""
import glob, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
import check
check.build()
for f in sorted(glob.glob(os.path.join(V, "spec", "*.tla"))):
    r = subprocess.run(["tla-sany", f], cwd=os.path.join(V, "spec"), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        sys.exit("does not parse: %s\n%s" % (f, r.stdout[-2000:]))
print("ok")
