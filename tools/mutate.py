#!/usr/bin/env python3
"""usage: mutate.py LIST.py [substr] -- mutation campaign: for every (id, props, file, old, new[, nth]) of LIST, in a copy of
/repo, builds, runs the repository's tests and the quick checks of props, and reports which mutants survive."""
import sys, subprocess, os, runpy, shutil, re
VF=os.environ.get('VF','/verif'); WT=os.environ.get('MT','/tmp/p/mt')
lst=runpy.run_path(sys.argv[1])['M']
sub=sys.argv[2] if len(sys.argv)>2 else ''
env=dict(os.environ)
tenv=dict(env,HOME='/opt/vp/home',GOPROXY='off',GOFLAGS='-mod=mod',GOWORK='off',GOMODCACHE='/root/go/pkg/mod',GOCACHE='/root/.cache/go-build')
if os.path.exists(WT): shutil.rmtree(WT)
shutil.copytree('/repo',WT,symlinks=True)
def sh(cmd,**k): return subprocess.run(cmd,shell=True,capture_output=True,text=True,cwd=WT,**k)
if os.environ.get('FROM'): lst=lst[[m[0] for m in lst].index(os.environ['FROM']):]
for m in lst:
    mid,props,f,old,new=m[:5]; nth=m[5] if len(m)>5 else 0
    if sub and not any(x in mid for x in sub.split(',')): continue
    p=os.path.join(WT,f); src=open(p).read()
    extra=''
    if isinstance(new,tuple): new,extra=new
    parts=src.split(old)
    if len(parts)<=nth+1 or (len(parts)!=2 and len(m)<6):
        print(mid,'BAD PATTERN',len(parts)-1,flush=True); continue
    open(p,'w').write(old.join(parts[:nth+1])+new+old.join(parts[nth+1:])+extra)
    b=sh('go build ./...',env=tenv)
    if b.returncode: print(mid,'BUILD',b.stderr[-200:],flush=True); open(p,'w').write(src); continue
    t=sh('go test -vet=off -count=1 ./...',env=tenv)
    tests='tests-pass' if t.returncode==0 else 'TESTS-FAIL'
    if t.returncode: 
        print(mid,tests,flush=True); open(p,'w').write(src); continue
    res=[]
    for pr in props.split():
        c=sh(f'{VF}/check.sh {pr} quick {os.environ.get("CF","")} > /tmp/p/mut.{mid}.{pr}.log 2>&1',env=dict(env,VERIF_REPO=WT))
        res.append(f'{pr}={c.returncode}')
        if c.returncode==1: break
    ok='caught' if any(r.endswith('=1') for r in res) else 'MISSED'
    print(mid,tests,' '.join(res),ok,flush=True)
    open(p,'w').write(src)
