#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json. ALSO: other checks seen to report them."""
import glob, json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
also = {}
p = os.path.join(here, "tools", "also.json")
if os.path.exists(p): also = json.load(open(p))
rows = ["| planted bug | needs | what it breaks | reported by |", "|---|---|---|---|"]
for d in sorted(glob.glob(os.path.join(here, "seeded", "*", "meta.json"))):
    m = json.load(open(d)); k = os.path.basename(os.path.dirname(d))
    rows.append(f"| {k} | {m['needs']} | {m['what_it_breaks']} | {', '.join([m['property']] + also.get(k, []))} |")
f = os.path.join(here, "DESIGN.md")
t = open(f).read()
a, b = "<!-- seeds: tools/gen_seed_table.py -->\n", "<!-- end of seeds -->\n"
t = t.replace("@@SEEDS@@", a + b) if a not in t else t
i, j = t.index(a) + len(a), t.index(b)
open(f, "w").write(t[:i] + "\n".join(rows) + "\n" + t[j:])
