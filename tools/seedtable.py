#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import json,glob,os
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows=["| change | property | what it breaks | needs |","|---|---|---|---|"]
for f in sorted(glob.glob(V+"/seeded/*/meta.json")):
    m=json.load(open(f)); rows.append("| %s | %s | %s | %s |"%(os.path.basename(os.path.dirname(f)),m["property"],m["what_it_breaks"],m["needs"]))
p=V+"/DESIGN.md"; s=open(p).read()
h,r=s.split("<!-- seedtable -->\n"); _,t=r.split("<!-- /seedtable -->")
open(p,"w").write(h+"<!-- seedtable -->\n"+"\n".join(rows)+"\n<!-- /seedtable -->"+t)
