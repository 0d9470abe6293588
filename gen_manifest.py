# Source of MANIFEST.json: run `python3 gen_manifest.py` after adding harness functions.
import json,re,glob
props=[json.loads(l) for l in open('properties.jsonl')]
have={}
for f in sorted(glob.glob('harness/h/c*.go')):
    for m in re.finditer(r'^func (C\d\d)_(\w+)\(\)',open(f).read(),re.M):
        have.setdefault(m.group(1),[]).append(m.group(2))
NOTE={
}
base=("Every path of the harness functions %s through the real code (Go SSA of /repo and of its dependencies) is executed with symbolic inputs; "
 "z3 decides each branch and assertion for all values within the bounds stated in the harness and in DESIGN.md. Counterexamples are replayed natively before they are reported. "
 "Trusted: the engine in /verif/engine (SSA semantics and its models of reflect, encoding/json, regexp, fmt, yaml), cross-checked on every run by native replay of sampled paths.")
checks=[];na=[]
for p in props:
    i=p['id']
    if i in have:
        checks.append(dict(property=i,quick_cmd='./run.sh '+i,thorough_cmd='VERIF_TIER=thorough ./run.sh '+i,
          technique='symbolic execution of the Go SSA of the real code with z3, native replay of counterexamples',
          level='model_checking',level_note=base%', '.join(have[i])+(' '+NOTE[i] if i in NOTE else '')))
    else:
        na.append(dict(property=i,reason=NOTE.get(i,'No harness yet: planned, not claimed.')))
json.dump(dict(version=1,setup_cmd='./setup.sh',checks=checks,not_applicable=na,
  notes='No hooks in /repo are needed: the harness uses the public API and regenerates the encoding from the working tree of /repo on every run.'),
  open('MANIFEST.json','w'),indent=1)
print(len(checks),'checks',len(na),'not claimed')
