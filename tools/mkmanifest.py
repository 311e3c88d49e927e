#!/usr/bin/env python3
# Writes MANIFEST.json. CLAIMED: property -> note on strength.
import json
props=[json.loads(l) for l in open('/verif/properties.jsonl')]
exec(open('/verif/tools/claims.py').read())
TECH="contract-based deductive verification of the real Go code: contracts per function, weakest-precondition style symbolic execution of its SSA form, every obligation discharged by SMT (gvc)"
checks=[];na=[]
for p in props:
    i=p['id']
    if i in CLAIMED:
        checks.append({"property":i,"quick_cmd":"bash check.sh %s quick"%i,"thorough_cmd":"bash check.sh %s thorough"%i,
          "evidence_file":"evidence/%s.json"%i,"technique":TECH,"level":"proof","level_note":CLAIMED[i]+" "+COMMON})
    else:
        na.append({"property":i,"reason":NA.get(i,"contracts for this property are not finished yet")})
m={"version":1,"setup_cmd":"bash setup.sh","checks":checks,"not_applicable":na,
 "notes":"No hooks: the checks read /repo's source as it is. See DESIGN.md."}
json.dump(m,open('/verif/MANIFEST.json','w'),indent=1)
print(len(checks),"claimed")
