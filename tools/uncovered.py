#!/usr/bin/env python3
"""Lists exported and internal functions of /repo that no evidence file names as encoded, and those only partly encoded."""
import glob,json,re
cov={}
for f in glob.glob('/verif/evidence/*.json'):
    for x in json.load(open(f))['coverage'].get('functions_encoded',[]):
        m=re.match(r'(.*) \((\d+) of (\d+) blocks\)',x)
        n,a,b=m.group(1),int(m.group(2)),int(m.group(3))
        o=cov.get(n,(0,b)); cov[n]=(max(o[0],a),b)
part={n:c for n,c in cov.items() if c[0]<c[1]}
decl=set()
for f in glob.glob('/repo/*.go')+glob.glob('/repo/*/*.go'):
    if f.endswith('_test.go'): continue
    pkg=re.search(r'^package (\w+)',open(f).read(),re.M).group(1)
    pre={'openapi':'openapi-go','internal':'openapi-go/internal'}.get(pkg,'openapi-go/'+pkg)
    for m in re.finditer(r'^func (?:\((?:\w+ )?(\*?)(\w+)\) )?(\w+)\(',open(f).read(),re.M):
        st,t,n=m.groups()
        if t: decl.add((f,'(%s%s.%s).%s'%(st,pre,t,n)))
        else: decl.add((f,'%s.%s'%(pre,n)))
print('not encoded:')
for f,n in sorted(decl):
    if n not in cov: print('  ',f.replace('/repo/',''),n)
print('partly:')
for n,c in sorted(part.items()): print('  ',n,c)
