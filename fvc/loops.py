"""The loop rule.

A loop whose trip count is symbolic is entered once, at an arbitrary iteration:
  1. the memory the loop can modify is found by executing one arbitrary iteration until a fixpoint (cells, array
     regions, ghost sums, loop-carried registers); all of it is replaced by fresh unknowns at the loop head;
  2. registers (and pointers) that move by a constant per iteration become  init + stride*K  for the iteration count K,
     with 0 <= K <= trip count when the exit test gives one;
  3. arrays that iteration K writes only at indices affine in K, with values that do not depend on other iterations, are
     replaced at the head by the exact summary "elements of iterations 0..K-1 hold those values" (an inductive
     invariant by construction);
  4. the remaining invariants come from the contract (fv_loop_candidate): the callback is evaluated at the loop entry
     and at the end of the arbitrary iteration, where each of its fv_inv* is an obligation, and at the loop head,
     where it is assumed;
  5. the code after the loop continues from the head state of an arbitrary iteration that takes an exit.
"""
import re
from .terms import *
from .engine import (Unsupported, Ptr, Fn, Killed, ForkOn, Obligation, Obj, llvm)

PAT = re.compile(r'[!~](\d+)$')
ATP = re.compile(r'@(\d+)$')

ENTRY, HEAD, BACK = 0, 1, 2


class Info:
    pass


def tfresh(eng, v, hint):
    if isinstance(v, T):
        return eng.fresh(v.sort, hint)
    if isinstance(v, bool):
        return eng.fresh('B', hint)
    if isinstance(v, int):
        return eng.fresh('I', hint)
    if isinstance(v, list):
        return [tfresh(eng, x, hint) for x in v]
    if isinstance(v, Ptr):
        return Ptr(-1, 0)
    return None


def same(a, b):
    if a is b:
        return True
    if isinstance(a, Ptr):
        return a.same(b)
    if isinstance(a, Fn):
        return isinstance(b, Fn) and a.name == b.name
    if isinstance(a, list):
        return isinstance(b, list) and len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, T) or isinstance(b, T):
        return False
    return type(a) is type(b) and a == b


class Mods:
    def __init__(self):
        self.cells = {}      # oid -> {off: (size, sample value)}
        self.whole = set()   # oid: zeroed objects
        self.regions = set()

    def count(self):
        return (sum(len(x) for x in self.cells.values()), len(self.regions), len(self.whole))


def compare(h, b, mods, meta, zapped=()):
    for oid, ho in h.mem.items():
        bo = b.mem.get(oid)
        if bo is None or bo is ho:
            continue
        if ho.region:
            if bo.es is not None:
                meta[oid] = (bo.es, bo.sort)
            if bo.log is not ho.log or bo.zero != ho.zero:
                mods.regions.add(oid)
            continue
        if bo.zero != ho.zero:
            mods.whole.add(oid)
        for k in set(ho.cells) | set(bo.cells):
            x, y = ho.cells.get(k), bo.cells.get(k)
            if x is not None and y is not None and x[0] == y[0] and same(x[1], y[1]):
                continue
            mods.cells.setdefault(oid, {})
            if k not in mods.cells[oid] or mods.cells[oid][k] is None:
                mods.cells[oid][k] = y if y is not None else x


def apply(eng, st, fr, src, B, stop):
    from . import engine
    uid = fr.uid
    F = fr.fn
    body = eng.loopinfo(F)[B.idx]
    eng.collect(st)
    # initial values of the loop-carried registers
    init = {}
    for p in B.phis:
        for s, o in p.ops:
            if s == src:
                init[p.res] = eng.val(st, o)
                break
        else:
            raise Unsupported('phi')
    fr.prev = src
    fr.blk = B
    fr.pos = 0
    mods, meta = Mods(), {}
    phik = {p.res: 'fresh' for p in B.phis}       # 'fresh' | 'same' | int stride
    maps = {}                                     # oid -> (orig Obj, stride, vals, Katom)
    L = Info()
    L.uid, L.B, L.body, L.eng = uid, B, body, eng

    def head(K, guess=False):
        """state at the loop head in an arbitrary iteration; returns (state, phi values)"""
        h = st.fork()
        f = h.frames[-1]
        for oid in mods.whole | set(mods.cells):
            o = h.wobj(oid)
            if oid in mods.whole:
                o.zero = False
                o.cells = {}
            for k, sv in mods.cells.get(oid, {}).items():
                if k in o.cells:
                    del o.cells[k]
                if sv is not None:
                    eng.overlap_clear(o, k, sv[0])
                    if isinstance(sv[1], (Ptr, Fn)) or sv[1] is None:
                        v = Ptr(-1, 0)
                    else:
                        v = tfresh(eng, sv[1], 'cell')
                    o.cells[k] = (sv[0], v)
        for oid in mods.regions:
            o = h.wobj(oid)
            if oid in maps:
                orig, stride, vals, atom = maps[oid]
                o.log = (orig.log, ('map', atom, 0, K, stride, vals))
                o.zero = orig.zero
                continue
            eng.freshcount[0] += 1
            o.base = '%s~%d' % (o.base.split('~')[0], eng.freshcount[0])
            o.log = ()
            o.zero = False
            o.inv = None
            o.range = None
            for g in list(o.ghost):
                o.ghost[g] = rvar('sum(%s,%d,%d)' % (o.base, g[0], g[1]))
        vals = {}
        for p in B.phis:
            k = phik[p.res]
            i0 = init[p.res]
            if k == 'same':
                vals[p.res] = i0
            elif k == 'fresh':
                if isinstance(i0, Ptr):
                    if i0.obj <= 0:
                        vals[p.res] = i0
                    else:
                        x = eng.fresh('I', 'phip')
                        if guess:       # only to find the stride; exact or unrestricted afterwards
                            x = iadd(i0.off, imul(x, st.mem[i0.obj].es or 8))
                        vals[p.res] = Ptr(i0.obj, x)
                else:
                    vals[p.res] = tfresh(eng, i0, 'phi')
            else:
                if isinstance(i0, Ptr):
                    vals[p.res] = Ptr(i0.obj, iadd(i0.off, imul(K, k)))
                else:
                    vals[p.res] = iadd(i0, imul(K, k))
            f.env[p.res] = vals[p.res]
        if ile(0, K) is not True:
            h.add_pc(ile(0, K))
        return h, vals

    def trial(starts, collect):
        """execute one iteration from the given head states: (back states, exits [(state, src, block)])"""
        backs, exits = [], []

        def myst(s, f, sr, Bn):
            if f.uid != uid:
                return None
            if Bn.idx == B.idx:
                backs.append((s, sr))
                return []
            if Bn.idx not in body:
                exits.append((s, sr, Bn))
                return []
            return None
        keep = (eng.obls, eng.ends)
        if not collect:
            eng.obls, eng.ends = [], []
        try:
            eng.explore([x.fork() for x in starts], myst)
        finally:
            if not collect:
                eng.obls, eng.ends = keep
        return backs, exits

    def newK():
        eng.freshcount[0] += 1
        return ivar('K!%d' % eng.freshcount[0])

    def mark_regs(backs, vals):
        ch = False
        for p in B.phis:
            if phik[p.res] != 'fresh':
                continue
            hv = vals[p.res]
            ds = set()
            for s, sr in backs:
                v = None
                for q, o in p.ops:
                    if q == sr:
                        v = eng.val(s, o)
                if same(v, hv):
                    ds.add(0)
                elif isinstance(v, Ptr) and isinstance(hv, Ptr) and v.obj == hv.obj:
                    d = isub(v.off, hv.off)
                    ds.add(d if isinstance(d, int) else None)
                elif isinstance(v, Ptr) or isinstance(hv, Ptr):
                    raise Unsupported('pointer carried by a loop moves between objects in ' + F.name)
                elif (isinstance(v, int) or isinstance(v, T) and v.sort == 'I') and not isinstance(v, bool) and \
                        (isinstance(hv, int) or isinstance(hv, T) and hv.sort == 'I'):
                    d = isub(v, hv)
                    ds.add(d if isinstance(d, int) else None)
                else:
                    ds.add(None)
            if len(ds) == 1 and None not in ds:
                d = ds.pop()
                phik[p.res] = 'same' if d == 0 else d
                ch = True
            elif not ds:
                pass
        return ch

    # --- 1. what does the loop modify
    for rnd in range(12):
        K = newK()
        h, vals = head(K, rnd == 0)
        nglob = set(h.globals)
        backs, exits = trial([h], False)
        newg = set()
        for s in [b[0] for b in backs] + [e[0] for e in exits]:
            newg |= set(s.globals) - nglob
        if newg:
            for g in sorted(newg):
                eng.global_ptr(st, g)
            continue
        before = mods.count()
        ch = mark_regs(backs, vals)
        if not backs:       # the head is never reached again: it sees the initial values only
            for p in phik:
                if phik[p] == 'fresh':
                    phik[p] = 'same'
                    ch = True
        for s, _ in backs:
            compare(h, s, mods, meta)
        for oid, (es, sort) in meta.items():
            o = st.mem.get(oid)
            if o is not None and o.es is None:
                o = st.wobj(oid)
                o.es, o.sort = es, sort
        if mods.count() == before and not ch and (
                rnd or not any(isinstance(init[q], Ptr) and k == 'fresh' for q, k in phik.items())):
            break
    else:
        raise Unsupported('loop modification analysis did not converge in ' + F.name)
    # --- 2. bound on the iteration count
    T_ = bound(eng, st, F, B, body, exits, K, init)
    zero_states = []
    if T_ is not None:
        d = eng.decide(st, ile(0, T_))
        if d is None:
            z = st.fork()
            z.add_pc(ilt(T_, 0))
            st.add_pc(ile(0, T_))
            zero_states.append(z)
        elif d is False:
            zero_states.append(st.fork())
    for z in zero_states:
        eng.enter_vals(z, z.frames[-1], src, B, init)
    if T_ is not None and d is False:
        return zero_states

    def bounded(h, K):
        if T_ is not None:
            c = ile(K, T_)
            if isinstance(c, T):
                h.add_pc(c)
    # the body is never completed: the head sees the initial values only
    if T_ is not None and eng.decide(st, ilt(0, T_)) is False:
        K = newK()
        h, vals = head(K)
        bounded(h, K)
        if not trial([h], False)[0]:
            mods = Mods()
            for p in phik:
                phik[p] = 'same'
            T_ = None
    # --- 3. exact summaries of arrays
    for rnd in range(6):
        K = newK()
        mark = eng.freshcount[0]
        omark = eng.objcount[0]
        h, vals = head(K)
        bounded(h, K)
        ok = False
        cand = [oid for oid in mods.regions if oid not in maps and not st.mem[oid].ghost]
        if not cand:
            break
        backs, exits = trial([h], False)
        if not backs or len(backs) > 8:
            break
        conds = conditions(h, [x[0] for x in backs])
        if len(backs) > 1 and any(volatile(c, mark, omark, K, None) for c in conds if isinstance(c, T)):
            break
        for oid in cand:
            m = None
            for i in range(len(backs) - 1, -1, -1):
                x = summarize(eng, st, h, backs[i][0], oid, K, mark, omark)
                m = x if i == len(backs) - 1 else merge(conds[i], x, m)
                if m is None:
                    break
            if m is not None:
                maps[oid] = m
                ok = True
        if not ok:
            break
    # --- 4. invariants of the contract
    K = newK()
    h, vals = head(K)
    bounded(h, K)
    mainphi = None
    for p in B.phis:
        if isinstance(phik[p.res], int) and not isinstance(init[p.res], Ptr):
            if mainphi is None or abs(phik[p.res]) == 1 and abs(phik[mainphi]) != 1:
                mainphi = p.res
    open_regions = {oid for oid in mods.regions if oid not in maps}
    open_cells = {(oid, k) for oid, d in mods.cells.items() for k in d}
    k0 = init[mainphi] if mainphi is not None else 0
    lc = (open_regions, open_cells, mods.whole, st.fork(), k0)
    useful = bool(open_regions or open_cells) and bool(st.cands)

    def kval(v):
        return v

    def callbacks(s, k, phase):
        """run the contract's loop callback in state s; returns the resulting states"""
        if not useful:
            return [s]
        states = [s]
        for cb, ctx in s.cands:
            nxt = []
            for x in states:
                out = []
                x.loopctx = (phase,) + lc
                if 'acc' in x.tags and cb == s.cands[0][0]:
                    del x.tags['acc']
                Fc = eng.m.function(cb)

                def done(e, y, v, out=out):
                    out.append(y)
                    return []
                eng.push(x, Fc, [ctx, k, phase], None, done)
                eng.explore([x], None)
                for y in out:
                    y.loopctx = ()
                nxt += out
            states = nxt
        return states
    kh = vals[mainphi] if mainphi is not None else K
    kb = iadd(vals[mainphi], phik[mainphi]) if mainphi is not None else iadd(K, 1)
    # accumulators (registers and cells to which every iteration adds something): which one is which
    # of the partial sums of the contract (fv_inv_acc) is found by comparing the increments
    accs = {}
    if eng.opts.get('acc') and st.cands:
        carried = [('r', p.res) for p in B.phis if phik[p.res] == 'fresh' and not isinstance(init[p.res], Ptr)]
        carried += [('c',) + c for c in sorted(open_cells)]
        useful = useful or bool(carried)
        if carried:
            accs = discover(eng, B, h, carried, callbacks, trial, kh, kb)

    def accvals(s):
        return s.tags.get('acc', {})
    es = st.fork()
    for s in callbacks(es, k0, ENTRY):
        if useful:
            for c, (lab, ini) in accs.items():
                v = accvals(s)[lab]
                emit_inv(eng, s, lab, ENTRY, v, R0 if issort(v, 'R') else 0)
            eng.collect(s)
    starts = callbacks(h, kh, HEAD)
    ini0 = {c: init[c[1]] if c[0] == 'r' else st.mem[c[1]].cells[c[2]][1] for c in accs}
    for s in starts:
        for c, (lab, _) in accs.items():
            setcarried(eng, s, c, plus(ini0[c], accvals(s)[lab]))
    backs, exits = trial(starts, True)
    for s, sr in backs:
        for y in callbacks(s, kb, BACK):
            for c, (lab, _) in accs.items():
                emit_inv(eng, y, lab, BACK, backval(eng, B, y, sr, c), plus(ini0[c], accvals(y)[lab]))
            eng.collect(y)
    eng.loop_summaries.append('%s block %d: %s, %d exact array summaries, %d havocked arrays%s' % (
        F.name, B.idx, 'bounded' if T_ is not None else 'unbounded', len(maps), len(open_regions),
        ', contract invariants' if useful else ''))
    # --- 5. continue after the loop
    out = list(zero_states)
    for s, sr, Bn in exits:
        f = s.frames[-1]
        if sr == B.idx and T_ is not None and eng.decide(s, ieq(K, T_)) is True:
            kat = as_atom(K)
            for p in B.phis:
                k = phik[p.res]
                if isinstance(k, int):
                    i0 = init[p.res]
                    f.env[p.res] = Ptr(i0.obj, iadd(i0.off, imul(T_, k))) if isinstance(i0, Ptr) else \
                        iadd(i0, imul(T_, k))
            for oid in maps:
                o = s.mem[oid]
                if o.log and o.log[1][0] == 'map' and o.log[1][3] is K:
                    w = s.wobj(oid)
                    e = o.log[1]
                    w.log = (o.log[0], e[:3] + (T_,) + e[4:])
        r = eng.goto(s, f, Bn, stop)
        if r is None:
            out.append(s)
        else:
            out.extend(r)
    return out


def issort(v, s):
    return isinstance(v, T) and v.sort == s


def plus(a, b):
    return radd(a, b) if issort(a, 'R') or issort(b, 'R') else iadd(a, b)


def emit_inv(eng, s, lab, phase, a, b):
    real = issort(a, 'R') or issort(b, 'R')
    eng.emit(s, Obligation('loop invariant %s %s' % (lab, ('established', '', 'preserved')[phase]),
                           'eq' if real else 'bool', s.pc, (a, b) if real else ieq(a, b)))


def setcarried(eng, s, c, v):
    if c[0] == 'r':
        s.frames[-1].env[c[1]] = v
    else:
        eng.put(s, c[1], c[2], s.mem[c[1]].cells[c[2]][0], v)


def headval(s, c):
    return s.frames[-1].env[c[1]] if c[0] == 'r' else s.mem[c[1]].cells[c[2]][1]


def backval(eng, B, s, sr, c):
    if c[0] == 'c':
        x = s.mem[c[1]].cells.get(c[2])
        return x[1] if x is not None else None
    for p in B.phis:
        if p.res == c[1]:
            for q, o in p.ops:
                if q == sr:
                    return eng.val(s, o)
    return None


def discover(eng, B, h, carried, callbacks, trial, kh, kb):
    from .prove import Prover
    keep = eng.obls
    eng.obls = []
    found = {}
    try:
        left = None
        for s in callbacks(h.fork(), kh, HEAD):
            hacc = dict(s.tags.get('acc', {}))
            hv = {c: headval(s, c) for c in carried}
            for b, sr in trial([s], False)[0]:
                for y in callbacks(b, kb, BACK):
                    bacc = y.tags.get('acc', {})
                    ok = set()
                    for c in carried:
                        bv = backval(eng, B, y, sr, c)
                        if bv is None or isinstance(bv, (Ptr, Fn, list)) or isinstance(hv[c], (Ptr, Fn, list)):
                            continue
                        if issort(bv, 'B') or issort(hv[c], 'B') or isinstance(bv, bool):
                            continue
                        real = issort(hv[c], 'R')
                        for lab in bacc:
                            if lab not in hacc or left is not None and (c, lab) not in left:
                                continue
                            if real != (issort(bacc[lab], 'R') or issort(hacc[lab], 'R')):
                                continue
                            if real:
                                d, e = rsub(bv, hv[c]), rsub(bacc[lab], hacc[lab])
                                if d is e or Prover(eng.params).eq(list(y.pc), d, e)[0] == 'proved':
                                    ok.add((c, lab))
                            else:
                                d, e = isub(bv, hv[c]), isub(bacc[lab], hacc[lab])
                                q = ieq(d, e)
                                if q is True or eng.decide(y, q) is True:
                                    ok.add((c, lab))
                    left = ok
        for c in carried:
            for lab in sorted(x for cc, x in left or () if cc == c):
                found[c] = (lab, None)
                break
    finally:
        eng.obls = keep
    return found


def bound(eng, st, F, B, body, exits, K, init):
    """trip count from the exit test of the header: a term t with  continue <=> K < t  (given K <= t)"""
    br = B.insts[-1]
    if br.op != 'br' or not br.x[0]:
        return None
    inb = [x.idx in body for x in br.x[1:3]]
    if inb[0] == inb[1]:
        return None
    c = br.ops[0]
    if c[0] != 'r':
        return None
    cmp = None
    for I in B.insts:
        if I.res == c[1]:
            cmp = I
    if cmp is None or cmp.op != 'icmp':
        return None
    ex = [s for s, sr, _ in exits if sr == B.idx]
    if not ex:
        return None
    s = ex[0]
    f = s.frames[-1]

    def v(o):
        return f.env.get(o[1]) if o[0] == 'r' else eng.cval(s, o)
    a, b = v(cmp.ops[0]), v(cmp.ops[1])
    if isinstance(a, Ptr) and isinstance(b, Ptr):
        if a.obj != b.obj:
            return None
        a, b = a.off, b.off
    for x in (a, b):
        if isinstance(x, bool) or not (isinstance(x, int) or isinstance(x, T) and x.sort == 'I'):
            return None
    p = cmp.x
    if not inb[0]:      # continue when the comparison is false
        p = {32: 33, 33: 32, 34: 37, 35: 36, 36: 35, 37: 34, 38: 41, 39: 40, 40: 39, 41: 38}[p]
    if p in (34, 35, 36, 37):
        p += 4
    if p == 38:
        d = isub(a, b)
    elif p == 39:
        d = iadd(isub(a, b), 1)
    elif p == 40:
        d = isub(b, a)
    elif p == 41:
        d = iadd(isub(b, a), 1)
    elif p == 33:
        d = isub(b, a)
    else:
        return None
    kat = as_atom(K)
    s = None
    dd = idict(d)
    coef = 0
    for m, cc in dd.items():
        if kat in m:
            if m != (kat,):
                return None
            coef = cc
    for x in postorder([d]) if isinstance(d, T) else ():
        if x is kat:
            continue
        if x.op == 'sel' or x.op == 'ite' or x.op in ('idiv', 'irem'):
            if kat in postorder([x]):
                return None
        if x.op == 'var' and x.args and isinstance(x.args[0], str):
            m = PAT.search(x.args[0])
            if m and int(m.group(1)) > int(PAT.search(kat.args[0]).group(1)):
                return None
    if p == 33 and coef > 0:
        d, coef = ineg(d), -coef
    if coef >= 0:
        return None
    rest = iadd(d, imul(K, -coef))
    if coef == -1:
        return rest
    if p == 33:
        return idivexact(rest, -coef)
    t = idivexact(rest, -coef)
    return t


def volatile(t, mark, omark, K, okbase):
    """does the term depend on anything invented inside the iteration (other than K)?"""
    kat = as_atom(K)
    for x in postorder([t]):
        if x is kat:
            continue
        if x.op == 'var':
            m = PAT.search(str(x.args[0]))
            if m and int(m.group(1)) > mark:
                return True
        elif x.op == 'sel':
            bse = x.args[0]
            m = PAT.search(bse)
            if m and int(m.group(1)) > mark and bse != okbase:
                return True
            m = ATP.search(bse)
            if m and int(m.group(1)) > omark:
                return True
    return False


def conditions(h, bs):
    """for each of the ways through the iteration, its path condition (facts common to all of them dropped)"""
    common = set.intersection(*[set(b.pcset) for b in bs])
    out = []
    for b in bs:
        c = True
        for x in b.pc:
            if x.id not in common:
                c = band(c, x)
        out.append(c)
    return out


def merge(cond, x, y):
    """summary of a loop whose iteration does x if cond, y otherwise"""
    if x is None or y is None or x[1] != y[1]:
        return None
    ky = {k.id if isinstance(k, T) else k: k for k in y[2]}
    kx = {k.id if isinstance(k, T) else k: k for k in x[2]}
    if set(kx) != set(ky):
        return None
    vals = {}
    for i, k in kx.items():
        a, b = x[2][k], y[2][ky[i]]
        if same(a, b):
            vals[k] = a
        elif isinstance(cond, T):
            ra = isinstance(a, T) and a.sort or ('B' if isinstance(a, bool) else 'I')
            vals[k] = {'R': rite, 'I': iite, 'B': bite}[ra](cond, a, b)
        else:
            return None
    return (x[0], x[1], vals, x[3])


def summarize(eng, st, h, b, oid, K, mark, omark):
    ho, bo = h.mem[oid], b.mem[oid]
    orig = st.mem[oid]
    kat = as_atom(K)
    ents = []
    log = bo.log
    while log is not ho.log:
        if not log:
            return None
        log, e = log
        ents.append(e)
    ents.reverse()
    if not ents:
        return None
    vals = {}
    stride = None
    for e in ents:
        if e[0] == 'fill' and isinstance(e[3], (int, T)):
            n = isub(e[2], e[1])
            if not isinstance(n, int) or n > 64:
                return None
            ws = [(iadd(e[1], i), e[3]) for i in range(n)]
        elif e[0] == 'w':
            ws = [(e[1], e[2])]
        else:
            return None
        for idx, v in ws:
            dd = idict(idx)
            s = 0
            for m, cc in dd.items():
                if kat in m:
                    if m != (kat,):
                        return None
                    s = cc
            if s <= 0 or stride is not None and s != stride:
                return None
            stride = s
            c = isub(idx, imul(K, s))
            if isinstance(c, T):
                for x in postorder([c]):
                    if x is kat:
                        return None
                if volatile(c, mark, omark, K, None):
                    return None
            vals[c] = v
    keys = list(vals)
    for i in range(len(keys)):
        for j in range(i):
            if not eng.never_divisible(isub(keys[i], keys[j]), stride):
                return None
    out = {}
    for c, v in vals.items():
        if not isinstance(v, T):
            if isinstance(v, (int, bool)):
                out[c] = v
                continue
            return None
        if volatile(v, mark, omark, K, ho.base):
            return None
        # reads of the array itself: elements that no earlier iteration has written
        rep = {}
        for x in postorder([v]):
            if x.op == 'sel' and x.args[0] == ho.base and ho.base != orig.base:
                for cc in vals:
                    d = isub(x.args[1], cc)
                    kk = idivexact(d, stride) if stride != 1 else d
                    if kk is None:
                        if eng.never_divisible(d, stride):
                            continue
                        return None
                    df = isub(kk, K)
                    if not isinstance(df, int) or df < 0:
                        return None
                t = llvm.Ty()
                t.kind, t.size, t.width = (3, 8, 0) if x.sort == 'R' else (8, orig.es, 8 * orig.es)
                try:
                    rep[x.id] = eng.region_load(h, orig, x.args[1], t, True)
                except (ForkOn, Unsupported):
                    return None
        if rep:
            v = substitute([v], rep)[0]
            if volatile(v, mark, omark, K, None):
                return None
        out[c] = v
    return (orig.copy(), stride, out, kat)
