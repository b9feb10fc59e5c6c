#!/usr/bin/env python3
# Writes MANIFEST.json: a property is claimed when a harness for it exists.
import json,glob,os,re
root=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props=[json.loads(l) for l in open(root+"/properties.jsonl")]
have={}
for f in glob.glob(root+"/harness/**/zz_C*.go",recursive=True):
    m=re.match(r"zz_(C\d\d)_",os.path.basename(f)); have.setdefault(m.group(1),[]).append(f)
NA={}
exec(open(root+"/tools/na.py").read())
checks=[];na=[]
for p in props:
    i=p["id"]
    if i in have and i not in NA:
        txt="".join(open(f).read() for f in sorted(have[i]))
        n=len(re.findall(r"^func ZZ_"+i+r"_",txt,re.M))
        model=[]
        if "zzmodel" in txt or i in FSPROPS: model.append("the in-memory file system and mmap model of harness/internal/zzmodel stands for the kernel")
        if i in CONC: model.append("interleavings at synchronisation operations (data races are a separate assertion), goroutine counts as stated in the bounds")
        note=("Bounded symbolic execution of the real functions (go/ssa, regenerated every run), %d harnesses; every assertion and branch decided by z3 over all values within the bounds listed per harness in the evidence. "%n)
        note+="Trusted: the engine's Go semantics (cross-checked by running solver models on the compiled code each run)"
        if model: note+="; "+"; ".join(model)
        note+=". Nothing is claimed beyond the stated bounds."
        checks.append(dict(property=i,quick_cmd="./run.sh "+i,thorough_cmd="./run.sh "+i,evidence_file="evidence/%s.json"%i,
          technique="symbolic execution of Go SSA with SMT (z3)"+("; scheduler and fault choices as path decisions" if i in CONC or i in FAULT else ""),
          level="model_checking",level_note=note))
    else:
        na.append(dict(property=i,reason=NA.get(i,"No check built yet: the encoding of this part is still in progress.")))
json.dump(dict(version=1,setup_cmd="./setup.sh",checks=checks,not_applicable=na,
  notes="Checks run the symbolic engine in /verif/engine on /repo's working tree; no hooks are added to /repo. VERIF_TIER selects bounds."),
  open(root+"/MANIFEST.json","w"),indent=1)
print(len(checks),"claimed",len(na),"not")
