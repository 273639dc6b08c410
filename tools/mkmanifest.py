#!/usr/bin/env python3
# Writes MANIFEST.json: a check for every property that has a harness, not_applicable for the rest.
import json,os,re,glob
d=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..")
have=set()
for f in glob.glob(d+"/harness/*.go"):
    have|={m.split("_")[0] for m in re.findall(r'^func (C\d\d_\w+)\(\)',open(f).read(),re.M)}
note="Holds for every value of the symbolic inputs within the bounds each harness states (DESIGN.md and the evidence file list them); nothing is claimed outside. Trusts go/ssa, the engine's models of the Go runtime, and the SMT solver; every violation is replayed on the natively compiled code before it is reported, and a sample of passing paths is compared with native runs."
checks=[];na=[]
for l in open(d+"/properties.jsonl"):
    p=json.loads(l)["id"]
    if p in have:
        checks.append({"property":p,"quick_cmd":f"bash check.sh {p} quick","thorough_cmd":f"bash check.sh {p} thorough",
          "technique":"symbolic execution of the Go SSA of the real code with SMT (z3), counterexamples replayed natively",
          "level":"model_checking","level_note":note})
    else:
        na.append({"property":p,"reason":"no check built yet"})
m={"version":1,"setup_cmd":"bash build.sh","checks":checks,"not_applicable":na,
   "notes":"No hooks in /repo: the harnesses use the public API only. Known findings and repairs: known_findings.json."}
json.dump(m,open(d+"/MANIFEST.json","w"),indent=1)
print(len(checks),"checks",len(na),"n/a")
