"""Rewrites the list of planted bugs in DESIGN.md from seeded/*/meta.json."""
import collections
import glob
import json
import os
import re

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
bugs = collections.defaultdict(list)
for f in sorted(glob.glob(ROOT + "/seeded/*/meta.json"), key=lambda f: int(f.split("/")[-2][1:])):
    m = json.load(open(f))
    bugs[m["property"]].append((f.split("/")[-2], m["what_it_breaks"]))
t = (f"`seeded/` holds {sum(map(len, bugs.values()))} changes that compile and pass the existing tests, each with a demonstration. "
     "Every one is caught by the quick\ncheck of its property:\n\n")
for c in sorted(bugs):
    t += f"* **{c}**: " + "; ".join(f"{b} {w[:90].rstrip(' ;')}" for b, w in bugs[c]) + "\n"
p = ROOT + "/DESIGN.md"
s = open(p).read()
s = re.sub(r"`seeded/` holds.*?(?=\nLate ones)", lambda m: t, s, flags=re.S)
open(p, "w").write(s)
