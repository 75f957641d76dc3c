#!/usr/bin/env python3
# regenerates /verif/MANIFEST.json from the list of claimed properties
import json
props=[json.loads(l) for l in open('/verif/properties.jsonl')]
CLAIMED=open('/verif/tools/claimed.txt').read().split()
NA={}
for l in open('/verif/tools/not_applicable.txt'):
    if l.strip(): k,v=l.strip().split(' ',1); NA[k]=v
note="Every obligation generated from /repo's current source (go/ssa) by bin/gover for the functions under contract is discharged by z3/cvc5 for all inputs and iterations; the bounded oracle run against the real code is a cross-check and source of failing inputs, not counted as proved. Assumes the listed external contracts (evidence: trusted_base, assumptions)."
m={"version":1,
 "setup_cmd":"cd gover && mkdir -p ../bin && GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local go build -o ../bin/gover .",
 "checks":[{"property":p["id"],"quick_cmd":"bin/gover -prop "+p["id"],"thorough_cmd":"VERIF_TIER=thorough bin/gover -prop "+p["id"],
   "technique":"contract-based deductive verification (weakest-precondition style VCs from go/ssa, SMT back ends)","level":"proof","level_note":note} for p in props if p["id"] in CLAIMED],
 "not_applicable":[{"property":p["id"],"reason":NA.get(p["id"],"no check yet")} for p in props if p["id"] not in CLAIMED],
 "notes":"See DESIGN.md."}
json.dump(m,open('/verif/MANIFEST.json','w'),indent=1)
