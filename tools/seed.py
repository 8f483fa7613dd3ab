"""seed.py ID PROPERTY FILE 'needs' 'breaks' < spec  ; spec on stdin: OLD\n=====\nNEW\n=====\nDEMO C++ body
Makes /verif/seeded/ID, validates: builds, stable tests pass, demo 0 -> nonzero."""
import sys, os, subprocess, json, re
REPO='/repo'
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
DEMO = r'''#!/bin/bash
# builds demo.cpp against the libraries built from /repo (cwd) and runs it
d=$(cd "$(dirname "$0")" && pwd); t=$(mktemp -d); trap 'rm -rf "$t"' EXIT
P=/usr/lib/petscdir/petsc3.19/x86_64-linux-gnu-real
M=/usr/lib/x86_64-linux-gnu/openmpi
export OMPI_ALLOW_RUN_AS_ROOT=1 OMPI_ALLOW_RUN_AS_ROOT_CONFIRM=1 OMPI_MCA_plm=isolated OMPI_MCA_btl=self,vader
export OMP_NUM_THREADS=1
g++ -std=c++14 -w -O1 -g -fopenmp -fno-access-control -DWITH_PETSC=1 -DDEBUG=1 -DEIGEN_DONT_PARALLELIZE -Isrc -I"$d" \
  -I$P/include -I/usr/lib/petscdir/petsc3.19/include -I/usr/include/eigen3 -isystem /usr/include/scotch \
  -I$M/include -I$M/include/openmpi "$d/demo.cpp" -o "$t/demo" \
  -Wl,--start-group _build/lib/*.a -Wl,--end-group -lboost_program_options -lscotch -lscotcherr \
  -L$P/lib -lpetsc_real $M/lib/libmpi.so $M/lib/libmpi_cxx.so || exit 99
cd "$t" && timeout 250 ./demo
'''
def validate(sid, quiet=False):
    d='/verif/seeded/'+sid; p=d+'/patch.diff'
    assert sh('git -C /repo status --porcelain').stdout=='' , 'repo dirty'
    r=sh('bash /opt/vp/build.sh >/tmp/b.log 2>&1')
    r=sh('bash %s/demo.sh'%d,cwd=REPO); print('unchanged: demo', r.returncode, r.stdout[-300:], r.stderr[-500:])
    ok = r.returncode==0
    a=sh('git -C /repo apply '+p); assert a.returncode==0, a.stderr
    try:
        b=sh('bash /opt/vp/build.sh >/tmp/b.log 2>&1')
        if b.returncode: print('BUILD FAILED'); return False
        r=sh('bash %s/demo.sh'%d,cwd=REPO); print('patched: demo', r.returncode, r.stdout[-300:])
        ok = ok and r.returncode not in (0,99)
        sh('bash /opt/vp/test.sh /tmp/t.json >/dev/null 2>&1')
        c=sh('python3 /tmp/cmp.py'); print('missing stable tests:', c.stdout.strip())
        ok = ok and c.stdout.strip()=='stable failing: []'
    finally:
        sh('git -C /repo checkout -- .')
    print(sid, 'OK' if ok else 'REJECTED')
    return ok
if __name__=='__main__':
    if sys.argv[1]=='validate':
        for s in sys.argv[2:]: validate(s)
        sys.exit()
    sid,prop,f,needs,breaks=sys.argv[1:6]
    old,new,demo=re.split(r'^=====\n',sys.stdin.read(),flags=re.M)
    old=old.rstrip('\n'); new=new.rstrip('\n')
    s=open(REPO+'/'+f).read(); assert s.count(old)==1, s.count(old)
    open(REPO+'/'+f,'w').write(s.replace(old,new))
    patch=sh('git -C /repo diff').stdout; sh('git -C /repo checkout -- .')
    d='/verif/seeded/'+sid; os.makedirs(d,exist_ok=True)
    open(d+'/patch.diff','w').write(patch)
    open(d+'/demo.sh','w').write(DEMO); open(d+'/demo.cpp','w').write(demo)
    json.dump(dict(property=prop,needs=needs,what_it_breaks=breaks),open(d+'/meta.json','w'),indent=1)
    validate(sid)
