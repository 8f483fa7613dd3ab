import sys, os, shutil
from . import build
pid = sys.argv[1]
w = '/tmp/dbg/' + pid
from contracts import props
h = ['/verif/contracts/' + x for x in props.PROPS[pid]['harness']]
# cache the repo objects: rebuild harness only
base = '/tmp/dbg/base.bc'
if not os.path.exists(base) or '--all' in sys.argv:
    m = build.build_module('/tmp/dbg/b', [])
    shutil.move(m, base)
os.makedirs(w, exist_ok=True)
outs = []
for x in h:
    d = w + '/' + os.path.basename(x) + '.bc'
    build.compile_bc(x, d, ('-fno-access-control', '-I/verif/contracts'))
    build.run([build.tool('opt'), '-passes=' + build.PASSES, d, '-o', d])
    outs.append(d)
build.run([build.tool('llvm-link'), '-o', w + '/all.bc', base] + outs)
print(w + '/all.bc')
