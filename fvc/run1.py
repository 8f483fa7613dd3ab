import sys, time
from . import llvm, engine, prove
def main(mod, names):
    m = llvm.Module(mod)
    if not names:
        names = sorted(n for n in m.fns if n.startswith('fvc_'))
    for n in names:
        t = time.time()
        import os
        from contracts import props
        o = props.PROPS.get(os.path.basename(os.path.dirname(mod)), {}).get('opts', {})
        e = engine.Engine(m, dict(o.get(n, o.get('*', {}))))
        try:
            e.run(n)
        except engine.Unsupported as x:
            print(n, 'UNSUPPORTED', x); continue
        t1 = time.time()
        pr = prove.Prover(e.params)
        res = {}
        bad = []
        for o in e.obls:
            s, h = pr.prove(o)
            res[(s, h)] = res.get((s, h), 0) + 1
            if s not in ('proved', 'reach'): bad.append((o.label, s, h))
        print(n, 'paths', len(e.ends), 'obl', len(e.obls), 'exec %.1f prove %.1f' % (t1 - t, time.time() - t1), res, 'bits', pr.minbits, 'killed', e.killed, 'inst', e.ninst)
        for b in bad[:12]: print('   ', b)
        for l in e.loop_summaries: print('   LOOP', l)
if __name__ == '__main__':
    main(sys.argv[1], sys.argv[2:])
