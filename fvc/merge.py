"""Merging the two sides of a branch where they meet again (option 'merge').

Values become conditional terms; a fact e learned on the side of condition c becomes the implication c => e.   When the
sides cannot be merged (pointers to different objects, differing cell layouts, ...) they stay separate paths."""
from .terms import *


CACHE = {}


class NoMerge(Exception):
    pass


def ipdoms(F):
    """block -> immediate post-dominator (blocks ending in unreachable ignored); None if it is the function's end"""
    if F in CACHE:
        return CACHE[F]
    n = len(F.blocks)
    succ = [[b.idx for b in B.succ] for B in F.blocks]
    ends = [i for i in range(n) if F.blocks[i].insts[-1].op == 'ret']
    E = n
    pred = [[] for _ in range(n + 1)]
    for i in range(n):
        for j in succ[i]:
            pred[j].append(i)
    pred[E] = ends
    order, seen = [], set()

    def dfs(r):
        seen.add(r)
        stack = [(r, iter(pred[r]))]
        while stack:
            x, it = stack[-1]
            for y in it:
                if y not in seen:
                    seen.add(y)
                    stack.append((y, iter(pred[y])))
                    break
            else:
                stack.pop()
                order.append(x)
    dfs(E)
    rpo = order[::-1]
    num = {b: i for i, b in enumerate(rpo)}
    idom = {E: E}
    changed = True
    while changed:
        changed = False
        for b in rpo:
            if b == E:
                continue
            ss = list(succ[b]) + ([E] if b in ends else [])
            x = None
            for p in ss:
                if p not in idom:
                    continue
                if x is None:
                    x = p
                    continue
                y = p
                while x != y:
                    while num[x] > num[y]:
                        x = idom[x]
                    while num[y] > num[x]:
                        y = idom[y]
            if x is not None and idom.get(b) != x:
                idom[b] = x
                changed = True
    CACHE[F] = {b: (None if d == E else d) for b, d in idom.items() if b != E}
    return CACHE[F]


def ite(c, a, b):
    if a is b:
        return a
    if isinstance(a, list) and isinstance(b, list) and len(a) == len(b):
        return [ite(c, x, y) for x, y in zip(a, b)]
    if a is None or b is None or hasattr(a, 'obj') or hasattr(b, 'obj'):
        if hasattr(a, 'obj') and hasattr(b, 'obj'):
            if a.same(b):
                return a
            if a.obj == b.obj and a.obj > 0:
                return type(a)(a.obj, iite(c, a.off, b.off))
        raise NoMerge
    if not isinstance(a, (int, T)) or not isinstance(b, (int, T)):
        if type(a) is type(b) and getattr(a, 'name', 0) == getattr(b, 'name', 1):
            return a
        raise NoMerge
    sa = a.sort if isinstance(a, T) else 'B' if isinstance(a, bool) else 'I'
    sb = b.sort if isinstance(b, T) else 'B' if isinstance(b, bool) else 'I'
    if sa != sb:
        raise NoMerge
    if not isinstance(a, T) and not isinstance(b, T) and a == b:
        return a
    return {'R': rite, 'I': iite, 'B': bite}[sa](c, a, b)


def entries(log, stop):
    out = []
    while log is not stop:
        if not log:
            raise NoMerge
        log, e = log
        if e[0] != 'w':
            raise NoMerge
        out.append(e)
    return out[::-1]


def suffix(a, b):
    """longest common tail of two logs"""
    seen = set()
    x = a
    while x:
        seen.add(id(x))
        x = x[0]
    x = b
    while x:
        if id(x) in seen:
            return x
        x = x[0]
    return ()


def elem_ty(eng, o, v):
    from . import llvm
    t = llvm.Ty()
    if isinstance(v, T) and v.sort == 'R':
        t.kind, t.size, t.width = 3, 8, 0
    elif isinstance(v, (int, T)) and not isinstance(v, bool) and (isinstance(v, int) or v.sort == 'I') and o.es:
        t.kind, t.size, t.width = 8, o.es, 8 * o.es
    else:
        raise NoMerge
    return t


def obj(eng, st, c, a, b, xs, ys):
    if a is b:
        return a
    if a.region != b.region or a.zero != b.zero or a.base != b.base or a.alive != b.alive or a.inv != b.inv or \
            a.size is not b.size and a.size != b.size:
        raise NoMerge
    o = a.copy()
    o.es = a.es or b.es
    o.sort = a.sort or b.sort
    for g in set(a.ghost) | set(b.ghost):
        o.ghost[g] = ite(c, a.ghost[g], b.ghost[g])
    if a.region:
        if a.log is b.log:
            return o
        s = suffix(a.log, b.log)
        ea, eb = entries(a.log, s), entries(b.log, s)
        idx = []
        for e in ea + eb:
            if not any(e[1] is i or not isinstance(i, T) and not isinstance(e[1], T) and i == e[1] for i, _ in idx):
                idx.append((e[1], e[2]))
        log = s
        for i, v in idx:
            t = elem_ty(eng, o, v)
            va = eng.region_load(xs, a, i, t, True)
            vb = eng.region_load(ys, b, i, t, True)
            log = (log, ('w', i, ite(c, va, vb)))
        o.log = log
        return o
    for k in set(a.cells) | set(b.cells):
        x, y = a.cells.get(k), b.cells.get(k)
        if x is not None and y is not None and x[0] == y[0]:
            if x[1] is not y[1]:
                o.cells[k] = (x[0], ite(c, x[1], y[1]))
        elif x is None and y is not None and not overlaps(a, k, y[0]) and not a.zero:
            o.cells.pop(k, None)       # uninitialized on one side: stays so
        elif y is None and x is not None and not overlaps(b, k, x[0]) and not b.zero:
            o.cells.pop(k, None)
        else:
            raise NoMerge
    return o


def overlaps(o, k, sz):
    return any(q < k + sz and k < q + c[0] for q, c in o.cells.items())


def merge(eng, base, c, x, y):
    """state for  c ? x : y"""
    if len(x.frames) != len(y.frames) or x.loopctx != y.loopctx or x.split != y.split or x.cands != y.cands \
            or x.claims != y.claims or x.writes != y.writes or x.tags != y.tags or x.eqs != y.eqs:
        raise NoMerge
    for f, g in zip(x.frames[:-1], y.frames[:-1]):
        if f.uid != g.uid or f.pos != g.pos:
            raise NoMerge
    m = x.fork()
    for g, p in y.globals.items():
        if g in m.globals and m.globals[g] != p:
            raise NoMerge
        m.globals[g] = p
    fx, fy = x.frames[-1], y.frames[-1]
    env = m.frames[-1].env = {}
    phis = {p.res for p in fx.blk.phis}
    for k, v in fx.env.items():
        if k in fy.env:
            w = fy.env[k]
            try:
                env[k] = v if v is w else ite(c, v, w)
            except NoMerge:
                if k in phis:
                    raise
    for h, n in fy.forks.items():
        m.frames[-1].forks[h] = max(n, fx.forks.get(h, 0))
    if fx.allocas != fy.allocas:
        raise NoMerge
    mem = dict(x.mem)
    for oid, o in y.mem.items():
        if oid not in mem:
            mem[oid] = o
        elif mem[oid] is not o:
            mem[oid] = obj(eng, m, c, mem[oid], o, x, y)
    m.mem = mem
    m.own = set()
    m.obls = x.obls + tuple(o for o in y.obls if not any(o is p for p in x.obls))
    m.known = {k: v for k, v in x.known.items() if k in y.known}
    m.pc, m.pcset, m.sc = base.pc, base.pcset, None
    for s, h in ((x, c), (y, bnot(c))):
        for e in s.pc:
            if e.id not in m.pcset and e is not h:
                if e.id in x.pcset and e.id in y.pcset:
                    m.add_pc(e)
                else:
                    m.add_pc(bor(bnot(h), e))
    return m


def branch(eng, st, fr, c, bt, bf, stop):
    """both sides of a branch, merged where they meet; None if they do not meet"""
    F = fr.fn
    J = ipdoms(F).get(fr.blk.idx)
    if J is None or (F.name, J) in eng.invloops:
        return None
    for h in eng.loops_of(F, fr.blk.idx):      # must meet inside the innermost enclosing summarized loop
        if (F.name, h) in eng.invloops and J not in eng.loopinfo(F)[h]:
            return None
    uid = fr.uid
    base = st.fork()
    sides = []
    for cc, B in ((bnot(c), bf), (c, bt)):
        s = st.fork()
        s.add_pc(cc)
        got = []

        def my(s_, f, sr, Bn, got=got):
            if f.uid == uid and Bn.idx == J:
                if Bn.idx in f.forks and eng.entering(F, sr, Bn.idx):
                    del f.forks[Bn.idx]
                eng.enter(s_, f, sr, Bn)
                got.append(s_)
                return []
            return stop(s_, f, sr, Bn) if stop is not None else None
        my.target, my.got = (uid, J), got
        r = eng.goto(s, s.frames[-1], B, my)
        eng.explore([s] if r is None else list(r), my)
        sides.append(got)
    n, p = sides
    out = n + p
    if len(n) == 1 and len(p) == 1:
        try:
            out = [merge(eng, base, c, p[0], n[0])]
        except NoMerge:
            pass
    if getattr(stop, 'target', None) == (uid, J):  # an enclosing branch meets in the same block
        stop.got.extend(out)
        return []
    return out
