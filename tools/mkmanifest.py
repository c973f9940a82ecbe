import json,os
props=[json.loads(l) for l in open("/verif/properties.jsonl")]
NA={}
checks=[];na=[]
conc={"C02","C08","C09","C12","C13","C18","C19","C20","C21","C22","C23","C25","C32"}
for p in props:
    i=p["id"]
    if os.path.exists(f"/verif/harness/{i.lower()}/h.go"):
        t="symbolic execution of the real Go SSA, path conditions and assertions decided by z3"
        if i in conc: t+="; goroutine schedules as symbolic choices"
        checks.append(dict(property=i,quick_cmd=f"bash check.sh {i} quick",thorough_cmd=f"bash check.sh {i} thorough",
          evidence_file=f"evidence/{i}.json",technique=t,level="model_checking",
          level_note="Holds for every input, choice and schedule within the bounds listed in the evidence file (bounds come from the harness source); counterexamples are replayed against the natively compiled code before they are reported and sampled path witnesses are replayed too. Trusts the engine (go/ssa interpreter, term simplifier), z3, and the stand-ins listed in DESIGN.md."))
    else:
        na.append(dict(property=i,reason=NA.get(i,"the harness for this property is not built yet")))
json.dump(dict(version=1,setup_cmd="bash setup.sh",checks=checks,not_applicable=na,
 notes="No hooks in /repo: harnesses are laid over the module with a build overlay."),open("/verif/MANIFEST.json","w"),indent=1)
