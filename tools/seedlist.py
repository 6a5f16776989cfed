"""Rewrites the table of planted bugs in DESIGN.md."""
import collections
import glob
import json
import os
import re

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
by = collections.defaultdict(list)
for d in sorted(glob.glob(os.path.join(HERE, "seeded", "*"))):
    m = json.load(open(d + "/meta.json"))
    by[m["property"]].append(f"**{os.path.basename(d)[4:]}**: {m['needs']}")
rows = "".join(f"| {p} | {'; '.join(v)} |\n" for p, v in sorted(by.items()))
path = os.path.join(HERE, "DESIGN.md")
t = open(path).read()
t = re.sub(r"(\|---\|---\|\n)(?:\| C\d\d \|.*\n|SEEDROWS\n)+", lambda m: m.group(1) + rows, t)
open(path, "w").write(t)
