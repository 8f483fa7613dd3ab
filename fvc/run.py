"""Check of one property:  python3-vt -m fvc.run PROPERTY

Builds the verification module from /repo's working tree, generates the obligations of every contract of the
property, discharges them, and reports.  Exit 0 / 1 (with a VIOLATION line).
"""
import importlib
import json
import multiprocessing as mp
import os
import shutil
import signal
import subprocess
import sys
import tempfile
import threading
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, VERIF)
from fvc import build, llvm, engine, prove   # noqa: E402

MODULE = None
CFG = None

BASE_ASSUMPTIONS = [
    'double arithmetic is real arithmetic: rounding, overflow to infinity and NaN are not modelled; a floating literal '
    'means its shortest decimal value',
    'machine integers (int, long, size_t) are mathematical integers: no wrap-around',
    'clang 18 front end and the LLVM passes sroa, early-cse, simplifycfg preserve the meaning of the source '
    '(the verified text is the bitcode clang makes of the real sources on this run)',
    'loads of memory never written yield an arbitrary value; objects are disjoint and 64-byte aligned',
    'OpenMP pragmas are ignored (serial semantics)',
]
TRUSTED = [
    'fvc/engine.py (path-wise symbolic execution of LLVM IR, memory model, loop rule)',
    'fvc/pit.py (algebraic back end: Schwartz-Zippel evaluation over F_p, p = 2^521-1 and 2^607-1; error bound reported)',
    'fvc/prove.py sign calculus and case splitting',
    'z3 5.3 / cvc5 1.1.2', 'clang 18.1.3, LLVM 18',
]


def load_known():
    p = os.path.join(VERIF, 'known_findings.json')
    return json.load(open(p)) if os.path.exists(p) else {'findings': [], 'fixed': []}


def task(job):
    name, opts, tier, seed = job
    t0 = time.time()
    out = {'contract': name, 'status': 'ok', 'obligations': 0, 'proved': 0, 'reach': [], 'fails': [], 'by': {},
           'time': {}, 'paths': 0, 'functions': [], 'externs': [], 'contracted': [], 'bits': None, 'loops': [],
           'labels': {}, 'samples': []}
    try:
        o = dict(opts)
        o.setdefault('time', 250 if tier == 'quick' else 1500)
        e = engine.Engine(MODULE, o)
        e.run(name)
        pr = prove.Prover(e.params, tier, str(seed))
        e.prover = pr
        deadline = time.time() + (300 if tier == 'quick' else 3000)
        for ob in e.obls:
            if ob.kind == 'reach':
                if ob.label not in out['reach']:
                    out['reach'].append(ob.label)
                continue
            out['obligations'] += 1
            if time.time() > deadline:
                st, how = 'undecided', 'time-limit'
            else:
                st, how = pr.prove(ob)
            lab = out['labels'].setdefault(ob.label, [0, 0])
            lab[0] += 1
            if st == 'proved':
                out['proved'] += 1
                lab[1] += 1
                if len(out['samples']) < 2 and how not in ('syntactic',):
                    out['samples'].append({'obligation': name + ':' + ob.label, 'by': how,
                                           'hypotheses': len(ob.pc)})
            else:
                out['fails'].append({'label': ob.label, 'status': st, 'how': how, 'where': ob.where,
                                     'stack': [demangle(x) for x in ob.stack[:6]],
                                     'goal': engine.pp(ob.goal if not isinstance(ob.goal, tuple) else ob.goal[0], 5)[:600],
                                     'hyps': [engine.pp(c, 5)[:200] for c in ob.pc[-12:]]})
        out['by'], out['time'], out['bits'] = pr.by, pr.time, pr.minbits
        out['paths'] = len(e.ends)
        out['functions'] = sorted(e.called)
        out['externs'] = sorted(e.externs)
        out['contracted'] = sorted(e.contracted)
        out['loops'] = [str(x) for x in e.loop_summaries]
        out['insts'] = e.ninst
        out['intcalls'] = e.isolv.calls
        out['inttime'] = e.isolv.time
    except engine.Unsupported as x:
        out['status'] = 'unsupported'
        out['error'] = str(x)
    except Exception as x:
        out['status'] = 'error'
        out['error'] = traceback.format_exc()[-3000:]
    out['wall'] = time.time() - t0
    return out


def demangle(n):
    return n


def demangle_all(names):
    try:
        r = subprocess.run(['c++filt'], input='\n'.join(names), capture_output=True, text=True, timeout=30)
        return r.stdout.split('\n')[:len(names)]
    except Exception:
        return list(names)


def main():
    global MODULE
    pid = sys.argv[1]
    only = sys.argv[2:]
    tier = os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1'))
    t0 = time.time()
    from contracts import props
    cfg = props.PROPS[pid]
    known = load_known()
    kf = [k for k in known.get('findings', []) if k['property'] == pid]
    work = tempfile.mkdtemp(prefix='fv_' + pid + '_')
    try:
        rc = check(pid, cfg, tier, seed, work, kf, only, t0)
    finally:
        shutil.rmtree(work, ignore_errors=True)
    sys.stdout.flush()
    sys.exit(rc)


def check(pid, cfg, tier, seed, work, kf, only, t0):
    global MODULE
    harness = [os.path.join(VERIF, 'contracts', h) for h in cfg['harness']]
    ev_dir = os.path.join(VERIF, 'evidence')
    os.makedirs(ev_dir, exist_ok=True)
    evid = {'property': pid, 'tier': tier, 'seed': seed, 'level': cfg.get('level', 'proof'), 'coverage': {},
            'wall_s': 0.0, 'violations': 0, 'assumptions': BASE_ASSUMPTIONS + cfg.get('assumptions', [])}
    violations = []     # (replay path, suffix)
    findings = []
    try:
        mod = build.build_module(work, harness)
    except build.BuildError as e:
        print('ERROR: cannot build the verification module')
        print(str(e)[-6000:])
        return 3
    native = {}

    def nat():
        try:
            native['exe'] = build.build_native(work, mod)
        except build.BuildError as e:
            native['err'] = str(e)
    th = threading.Thread(target=nat)
    th.start()
    MODULE = llvm.Module(mod)
    names = sorted(n for n in MODULE.fns if n.startswith('fvc_') and not llvm.IsDecl(MODULE.fns[n]))
    if only:
        names = [n for n in names if n in only]
    jobs = [(n, cfg.get('opts', {}).get(n, cfg.get('opts', {}).get('*', {})), tier, seed) for n in names]
    jobs.sort(key=lambda j: -cfg.get('cost', {}).get(j[0], 1))
    results = run_jobs(jobs, tier)
    th.join()
    exe = native.get('exe')
    if exe is None:
        print('ERROR: native build failed\n' + native.get('err', ''))
        return 3
    # concrete cross-check of every contract on the real code, and search for failing inputs of failed obligations
    xc = crosscheck(exe, results, cfg, tier, seed, work, kf)
    total = disch = 0
    by, tm = {}, {}
    fns, ext, con, loops, samples = set(), set(), set(), set(), []
    minbits = None
    evals = 0
    undecided = []
    for r in results:
        total += r['obligations']
        disch += r['proved']
        for k, v in r['by'].items():
            by[k] = by.get(k, 0) + v
        for k, v in r['time'].items():
            tm[k] = round(tm.get(k, 0) + v, 3)
        fns.update(r['functions'])
        ext.update(r['externs'])
        con.update(r['contracted'])
        loops.update(r['loops'])
        samples += r['samples']
        if r['bits'] is not None:
            minbits = r['bits'] if minbits is None else min(minbits, r['bits'])
        n = r['contract']
        x = xc.get(n, {})
        evals += x.get('ran', 0)
        probs = {}
        if r['status'] != 'ok':
            probs['contract not decided: ' + r.get('error', '')[-400:]] = None
        else:
            for f in r['fails']:
                probs.setdefault(f['label'], f)
            if r['obligations'] == 0 and not cfg.get('allow_empty'):
                probs['no obligations generated (vacuous)'] = None
            for want in cfg.get('reach', {}).get(n, ['end']):
                if want not in r['reach'] and not any(f['label'].startswith('unreachable') for f in r['fails']):
                    probs.setdefault('contract is vacuous: point "%s" unreachable' % want, None)
        cex = x.get('fail')
        listed = {}
        for lab in list(probs):
            k = match_known(kf, n, lab)
            if k is not None:
                listed[lab] = k
                del probs[lab]
        for lab, k in listed.items():
            findings.append((n, lab, k))
        if cex:
            path = os.path.join(ev_dir, 'replay-%s-%s.txt' % (pid, n))
            with open(path, 'w') as f:
                f.write('property %s contract %s: failing input found on the real code\n' % (pid, n))
                f.write('replay: build with fvc.build and run  replay --run %s <this file>\n' % n)
                f.write(cex)
                for lab, fl in probs.items():
                    f.write('# undischarged obligation: %s %s\n' % (lab, json.dumps(fl)[:1500] if fl else ''))
            violations.append((n, path, '', sorted(probs) or ['concrete run']))
        elif probs:
            path = os.path.join(ev_dir, 'replay-%s-%s.txt' % (pid, n))
            with open(path, 'w') as f:
                f.write('property %s contract %s: obligation not discharged, no failing input found\n' % (pid, n))
                for lab, fl in probs.items():
                    f.write('obligation %s\n' % lab)
                    if fl:
                        f.write(json.dumps(fl, indent=1) + '\n')
            violations.append((n, path, ' no-failing-input-found', sorted(probs)))
    names_d = demangle_all(sorted(x for x in fns if not x.startswith('fvc_')))
    repo_fns = [x for x in names_d if 'fvens' in x or 'amat' in x]
    evid['violations'] = len(violations)
    evid['wall_s'] = round(time.time() - t0, 2)
    evid['coverage'] = {
        'obligations': total, 'discharged': disch,
        'checker_cmd': 'python3-vt -m fvc.run ' + pid,
        'trusted_base': TRUSTED + cfg.get('trusted', []),
        'contracts': len(results),
        'contract_names': [r['contract'] for r in results],
        'by_backend': by, 'solver_time_s': tm,
        'algebraic_error_log2': -minbits if minbits is not None else None,
        'functions_executed_from_repo': len(repo_fns),
        'functions': repo_fns[:400],
        'replaced_by_contract': demangle_all(sorted(con)),
        'external_functions_assumed_effect_free': demangle_all(sorted(ext)),
        'loop_rules': sorted(loops)[:200],
        'concrete_crosscheck_runs': evals,
        'paths': sum(r['paths'] for r in results),
        'instructions': sum(r.get('insts', 0) for r in results),
        'samples': samples[:6],
        'per_contract': [{'contract': r['contract'], 'obligations': r['obligations'], 'discharged': r['proved'],
                          'paths': r['paths'], 'wall_s': round(r['wall'], 2), 'status': r['status']} for r in results],
    }
    if cfg.get('bounded'):
        evid['coverage']['bounded_not_proved'] = cfg['bounded']
    if findings:
        evid['coverage']['known_findings'] = sorted({k['id'] for _, _, k in findings})
    with open(os.path.join(ev_dir, pid + '.json'), 'w') as f:
        json.dump(evid, f, indent=1)
    seen = set()
    for n, lab, k in findings:
        if k['id'] not in seen:
            seen.add(k['id'])
            print('KNOWN-FINDING: property=%s %s' % (pid, k['what']))
    for r in results:
        print('%-44s %s obligations %d discharged %d paths %d  %.1fs' % (
            r['contract'], r['status'], r['obligations'], r['proved'], r['paths'], r['wall']))
        if r['status'] == 'error':
            print(r['error'])
    print('%s: %d contracts, %d obligations, %d discharged, %d concrete runs, %.1fs' % (
        pid, len(results), total, disch, evals, time.time() - t0))
    if not results:
        print('ERROR: no contracts')
        return 3
    for n, path, suf, labs in violations:
        for l in labs[:6]:
            print('  %s: %s' % (n, l))
        print('VIOLATION property=%s replay=%s%s' % (pid, path, suf))
    return 1 if violations else 0


def match_known(kf, contract, label):
    for k in kf:
        if k['contract'] in (contract, '*') and any(label.startswith(l) for l in k['labels']):
            return k
    return None


def run_jobs(jobs, tier):
    """each contract in its own process (fork: the module is shared)"""
    res = {}
    limit = 400 if tier == 'quick' else 4000
    pending = list(jobs)
    running = []
    ctx = mp.get_context('fork')

    def child(conn, j):
        try:
            conn.send(task(j))
        finally:
            conn.close()
    while pending or running:
        while pending and len(running) < 8:
            j = pending.pop(0)
            a, b = ctx.Pipe(False)
            p = ctx.Process(target=child, args=(b, j))
            p.start()
            b.close()
            running.append((p, a, j, time.time()))
        nxt = []
        for p, a, j, ts in running:
            r = None
            if a.poll(0.02):
                try:
                    r = a.recv()
                except EOFError:
                    r = dead(j, 'worker died')
            elif not p.is_alive():
                r = dead(j, 'worker died')
            elif time.time() - ts > limit:
                p.kill()
                r = dead(j, 'time limit %ds' % limit)
            if r is None:
                nxt.append((p, a, j, ts))
            else:
                r['wall'] = time.time() - ts
                res[j[0]] = r
                p.join()
        running = nxt
    return [res[j[0]] for j in sorted(jobs)]


def dead(j, why):
    return {'contract': j[0], 'status': 'unsupported', 'error': why, 'obligations': 0, 'proved': 0, 'reach': [],
            'fails': [], 'by': {}, 'time': {}, 'paths': 0, 'functions': [], 'externs': [], 'contracted': [],
            'bits': None, 'loops': [], 'labels': {}, 'samples': []}


def crosscheck(exe, results, cfg, tier, seed, work, kf):
    from concurrent.futures import ThreadPoolExecutor
    out = {}
    skip = set(cfg.get('no_native', ()))

    def one(r):
        n = r['contract']
        if n in skip:
            return
        labs = {f['label'] for f in r['fails']} if r['status'] == 'ok' else None
        ign = [l for k in kf if k['contract'] in (n, '*') for l in k['labels']]
        bad = r['status'] != 'ok' or any(match_known(kf, n, f['label']) is None for f in r['fails'])
        of = os.path.join(work, n + '.cex')
        secs = (3 if not bad else 40) * (1 if tier == 'quick' else 6)
        runs = 2000 if not bad else 2000000
        cmd = [exe, '--search', n, str(runs), str(secs), str(seed), of, '0' if bad else '1'] + ['-' + l for l in ign]
        try:
            p = subprocess.run(cmd, capture_output=True, text=True, timeout=secs + 30)
        except subprocess.TimeoutExpired:
            out[n] = {'ran': 0}
            return
        d = {'ran': 0}
        for line in p.stdout.split('\n'):
            if line.startswith('RAN'):
                d['ran'] = int(line.split()[1])
        if p.returncode == 1 and os.path.exists(of):
            d['fail'] = open(of).read()
        out[n] = d
    with ThreadPoolExecutor(8) as ex:
        list(ex.map(one, results))
    return out


if __name__ == '__main__':
    main()
