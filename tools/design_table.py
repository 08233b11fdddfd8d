#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import collections
import glob
import json
import os
import re

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
d = collections.defaultdict(list)
for f in sorted(glob.glob(here + "/seeded/*/meta.json")):
    d[json.load(open(f))["property"]].append(os.path.basename(os.path.dirname(f)))
tab = "\n".join(f"| {k} | {', '.join(d[k])} |" for k in sorted(d))
p = here + "/DESIGN.md"
s = open(p).read()
s = re.sub(r"<!-- planted -->.*<!-- /planted -->", lambda m: f"<!-- planted -->\n| check | planted bugs it catches |\n|---|---|\n{tab}\n<!-- /planted -->", s, flags=re.S)
open(p, "w").write(s)
print(sum(map(len, d.values())), "planted bugs")
