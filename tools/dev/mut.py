#!/usr/bin/env python3
"""mut.py SPEC.py [ids]: apply each mutant to /repo, build+test, run the property's check, revert."""
import sys, subprocess, importlib.util, time, json, re
def sh(c): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
sp=importlib.util.spec_from_file_location('s',sys.argv[1]); m=importlib.util.module_from_spec(sp); sp.loader.exec_module(m)
want=sys.argv[2:]
base=set(json.load(open('/opt/vp/BASELINE.json')).get('passed',[])) if False else None
for mu in m.M:
    if want and mu[0] not in want: continue
    mid, props, edits = mu[0], mu[1].split(), mu[2]
    assert sh('git -C /repo status --porcelain').stdout.strip()=='', 'dirty repo'
    ok=True
    for f,a,b in edits:
        s=open('/repo/'+f).read()
        if s.count(a)<1: print(mid,'EDIT NOT FOUND',f,repr(a[:60])); ok=False; break
        open('/repo/'+f,'w').write(s.replace(a,b,1))
    try:
        if ok:
            t=sh('/tmp/rt.sh').stdout.strip().split('\n')[-1]
            for p in props:
                t0=time.time(); r=sh('cd /verif && VERIF_SEED=1 VERIF_TIER=quick python3 check.py '+p)
                lines=[l for l in r.stdout.split('\n') if l.strip()]
                v=[l for l in lines if l.startswith('VIOLATION')]
                print(mid,p,'exit',r.returncode,(v[0] if v else lines[-1] if lines else '')[:150],'| tests:',t[:60],'| %.0fs'%(time.time()-t0),flush=True)
    finally:
        sh('git -C /repo checkout -- .')
