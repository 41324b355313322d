#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the table below."""
import json, os
here=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SUM="summary-based abstract interpretation of the Go source (loop summarisation) "
ENC=SUM+"extracting each Encoding's clause schema; the schema is decided on exhaustive instance families"
C={}
def c(ids,technique,note):
    for i in ids.split(): C[i]=(technique,note)
c("P01 P02 P03 P04 P05 P06 P07 P08 P09",ENC,
  "The clause schema is extracted for all inputs; its meaning is decided for every operand/model up to a bounded dimension and tree size only.")
c("P10 P11 P12",ENC,"Sub-queries are opaque formulas from a finite family; bounded dimensions and models.")
c("P13 P14 P15 P17",SUM+"of the cnf operations, result terms decided on a family of formulas",
  "Formulas, clause shapes and literal values come from a bounded family; the summary itself is for all inputs.")
c("P16 P30","effect and alias analysis over extracted function summaries, plus a type-resolved rule on package-level state",
  "P16/P30 are decided for every function reachable from the exported API; aliasing through interfaces supplied by the caller is out of reach.")
c("P19",ENC,"Auxiliary-variable freshness decided for a bounded family of children and negation nestings.")
exec(open(os.path.join(here,"tools","more_checks.py")).read()) if os.path.exists(os.path.join(here,"tools","more_checks.py")) else None
NA={}
PENDING="the check for this property is still being built"
ids=[json.loads(l)["id"] for l in open(os.path.join(here,"properties.jsonl"))]
m={"version":1,"setup_cmd":"cd /verif/goexv && GOPROXY=off GOFLAGS=-mod=mod GOTOOLCHAIN=local go vet . >/dev/null 2>&1; mkdir -p /verif/evidence",
   "checks":[],"not_applicable":[]}
for i in ids:
    if i in C:
        t,n=C[i]
        m["checks"].append({"property":i,"quick_cmd":f"bash /verif/check.sh {i}","thorough_cmd":f"bash /verif/check.sh {i} thorough",
            "evidence_file":f"evidence/{i}.json","technique":t,"level":"other","level_note":n})
    else:
        m["not_applicable"].append({"property":i,"reason":NA.get(i,PENDING)})
json.dump(m,open(os.path.join(here,"MANIFEST.json"),"w"),indent=1)
