#!/usr/bin/env python3
"""Rewrites section 7 of DESIGN.md from seeded/*/meta.json."""
import json, glob, os
R=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..")
rows=[]
for f in glob.glob(R+"/seeded/*/meta.json"):
    m=json.load(open(f)); rows.append((m["property"],os.path.basename(os.path.dirname(f)),m["what_it_breaks"].split("\n")[0]))
rows.sort()
d=open(R+"/DESIGN.md").read().split("## 7 ")[0].rstrip()+"\n\n## 7 Which check catches which planted bug\n\nEach is caught by the quick check of the property named (verified one by one).\n\n| Property | Planted bug | Breaks |\n|---|---|---|\n"
d+="".join(f"| {a} | {b} | {c} |\n" for a,b,c in rows)
open(R+"/DESIGN.md","w").write(d)
