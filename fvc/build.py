"""Builds the verification module and the native replay driver from /repo's current working tree."""
import os
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor

REPO = os.environ.get('FV_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CXX = 'clang++-18' if os.path.exists('/usr/bin/clang++-18') else 'clang++'
PETSC = '/usr/lib/petscdir/petsc3.19'
INC = ['-I' + REPO + '/src',
       '-I' + PETSC + '/x86_64-linux-gnu-real/include', '-I' + PETSC + '/include',
       '-I/usr/include/eigen3', '-isystem', '/usr/include/scotch',
       '-I/usr/lib/x86_64-linux-gnu/openmpi/include', '-I/usr/lib/x86_64-linux-gnu/openmpi/include/openmpi']
DEF = ['-DEIGEN_DONT_PARALLELIZE', '-DEIGEN_DONT_VECTORIZE', '-DWITH_PETSC=1', '-DDEBUG=1']
CFLAGS = ['-std=c++14', '-O1', '-Xclang', '-disable-llvm-passes', '-fno-vectorize', '-ffp-contract=off', '-w',
          '-fno-discard-value-names', '-D_GLIBCXX_USE_CXX11_ABI=1', '-fno-unroll-loops']
LIBS = ['-L' + PETSC + '/x86_64-linux-gnu-real/lib', '-Wl,--as-needed', '-lboost_program_options', '-lpetsc_real',
        '-lmpi', '-lptscotch', '-lscotch', '-lptscotcherr', '-lm', '-ldl']
EXCLUDE = {'fvens_steady.cpp', 'convertformat.cpp'}
PASSES = 'function(sroa,early-cse,simplifycfg,early-cse)'


class BuildError(Exception):
    pass


def run(cmd, **kw):
    r = subprocess.run(cmd, capture_output=True, text=True, **kw)
    if r.returncode != 0:
        raise BuildError(' '.join(cmd) + '\n' + r.stderr[-4000:])
    return r


def tool(n):
    for c in (n + '-18', n, '/usr/lib/llvm-18/bin/' + n):
        from shutil import which
        if which(c):
            return which(c)
    raise BuildError('missing tool ' + n)


def sources():
    out = []
    for d, _, fs in os.walk(REPO + '/src'):
        for f in sorted(fs):
            if f.endswith('.cpp') and f not in EXCLUDE:
                out.append(os.path.join(d, f))
    return sorted(out)


def compile_bc(src, dst, extra=()):
    run([CXX] + CFLAGS + DEF + INC + list(extra) + ['-emit-llvm', '-c', src, '-o', dst])
    return dst


def build_module(work, harness):
    """compile the whole of /repo/src and the harness files to one bitcode module; returns its path"""
    os.makedirs(work, exist_ok=True)
    jobs = []
    srcs = sources()
    if not srcs:
        raise BuildError('no sources in ' + REPO)
    for h in harness:
        d = os.path.join(work, 'h_' + os.path.basename(h) + '.bc')
        jobs.append((h, d, ('-fno-access-control', '-I' + VERIF + '/contracts')))
    slow = ('controlparser', 'flow_spatial', 'aodesolver', 'diffusion', 'mesh', 'agradient')
    srcs.sort(key=lambda s: 0 if any(k in s for k in slow) else 1)
    for s in srcs:
        jobs.append((s, os.path.join(work, os.path.relpath(s, REPO).replace('/', '_') + '.bc'), ()))
    failed = {}

    def do(j):
        try:
            return compile_bc(*j)
        except BuildError as e:
            failed[j[0]] = str(e)
            return None
    with ThreadPoolExecutor(8) as ex:
        outs = list(ex.map(do, jobs))
    if failed:
        raise BuildError('\n'.join(failed.values()))
    mod = os.path.join(work, 'all.bc')
    run([tool('llvm-link'), '-o', mod + '.raw'] + [o for o in outs if o])
    run([tool('opt'), '-passes=' + PASSES, mod + '.raw', '-o', mod])
    for o in outs:
        if o and os.path.exists(o):
            os.unlink(o)
    os.unlink(mod + '.raw')
    return mod


def build_native(work, mod):
    rt = os.path.join(work, 'fvrt.o')
    exe = os.path.join(work, 'replay')
    with ThreadPoolExecutor(2) as ex:
        a = ex.submit(run, [CXX, '-std=c++17', '-O1', '-I' + VERIF + '/contracts', '-c',
                            VERIF + '/native/fvrt.cpp', '-o', rt])
        b = ex.submit(run, [CXX, '-O1', '-fno-vectorize', '-ffp-contract=off', '-c', mod, '-o', mod + '.o'])
        a.result()
        b.result()
    run([CXX, mod + '.o', rt, '-o', exe, '-Wl,--unresolved-symbols=ignore-all', '-Wl,--gc-sections',
         '-rdynamic'] + LIBS)
    return exe
