#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = {}
missed = set(l.strip() for l in open(os.path.join(V, "seeded", "MISSED"))) if os.path.exists(os.path.join(V, "seeded", "MISSED")) else set()
ids = sorted(d for d in os.listdir(os.path.join(V, "seeded")) if os.path.isdir(os.path.join(V, "seeded", d)))
for i in ids:
    m = json.load(open(os.path.join(V, "seeded", i, "meta.json")))
    rows.setdefault(m["property"], []).append(i + (" (missed)" if i in missed else ""))
tab = "| check | catches |\n|---|---|\n" + "\n".join("| %s | %s |" % (p, ", ".join(rows[p])) for p in sorted(rows))
p = os.path.join(V, "DESIGN.md")
s = open(p).read()
s = s.replace("@N@", str(len(ids))).replace("@TABLE@", tab)
s = re.sub(r"`seeded/<id>/` \(\d+ of them\)", "`seeded/<id>/` (%d of them)" % len(ids), s)
s = re.sub(r"\| check \| catches \|\n\|---\|---\|\n(\|.*\n)+", tab + "\n", s)
open(p, "w").write(s)
