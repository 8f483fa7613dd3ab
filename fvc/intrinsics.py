"""Meaning of the harness intrinsics (fv_*) and of the few library functions the real code calls."""
from .engine import (Obligation, Unsupported, Killed, Ptr, NULL, PUSHED, STATES, Fn, ForkOn)
from .terms import *
from . import llvm
from .diff import diff

TABLE = {}
PREFIX = []


def reg(*names):
    def d(f):
        for n in names:
            TABLE[n] = f
        return f
    return d


def cstr(eng, st, p):
    o = st.mem[p.obj]
    out = []
    k = p.off
    while True:
        c = o.cells.get(k)
        if c is None:
            if o.zero:
                break
            raise Unsupported('string')
        b = c[1] & ((1 << (8 * c[0])) - 1)
        stop = False
        for i in range(c[0]):
            ch = (b >> (8 * i)) & 255
            if ch == 0:
                stop = True
                break
            out.append(chr(ch))
        if stop:
            break
        k += c[0]
    return ''.join(out)


def realval(x):
    return x


# ------------------------------------------------------------------ inputs
@reg('fv_real')
def _real(eng, st, fr, I, a):
    n = cstr(eng, st, a[0])
    eng.vars[n] = (float(a[1].args[0]), float(a[2].args[0]))
    return rvar(n)


@reg('fv_real_i')
def _reali(eng, st, fr, I, a):
    n = cstr(eng, st, a[0]) + str(a[1])
    eng.vars[n] = (float(a[2].args[0]), float(a[3].args[0]))
    return rvar(n)


@reg('fv_unit2')
def _unit2(eng, st, fr, I, a):
    n = cstr(eng, st, a[0])
    x, y = rvar(n + 'x'), rvar(n + 'y')
    eng.params[n + 'x'] = ('cos', n)
    eng.params[n + 'y'] = ('sin', n)
    eng.vars[n + 'x'] = (-1, 1)
    eng.vars[n + 'y'] = (-1, 1)
    c = beq(radd(rmul(x, x), rmul(y, y)), R1)
    st.add_pc(c)
    t = dbl()
    eng.store(st, a[1], t, x)
    eng.store(st, Ptr(a[1].obj, iadd(a[1].off, 8)), t, y)
    return None


@reg('fv_lemma')
def _lemma(eng, st, fr, I, a):
    c = tob(eng, a[0])
    if c is True:
        return None
    eng.emit(st, Obligation(cstr(eng, st, a[1]), 'bool', st.pc, c))
    if c is False:
        raise Killed('assume')
    st.add_pc(c)


@reg('fv_contract')
def _contract(eng, st, fr, I, a):
    eng.contracts[cstr(eng, st, a[0])] = a[1].name
    return None


@reg('fv_havoc')
def _havoc(eng, st, fr, I, a):
    v = eng.fresh('R', 'h_' + cstr(eng, st, a[0]))
    return v


@reg('fv_int')
def _int(eng, st, fr, I, a):
    n = cstr(eng, st, a[0])
    v = ivar(n)
    eng.intvars[n] = True
    if not st.tags.get(('int', n)):
        st.tags[('int', n)] = True
        c = band(ile(a[1], v), ile(v, a[2]))
        if c is False:
            raise Killed('assume')
        if isinstance(c, T):
            st.add_pc(c)
    return v


def tob(eng, v):
    if isinstance(v, T) and v.sort == 'I':
        return eng.i2b(v)
    if isinstance(v, int):
        return bool(v)
    return v


@reg('fv_assume')
def _assume(eng, st, fr, I, a):
    c = tob(eng, a[0])
    if c is True:
        return None
    if c is False:
        raise Killed('assume')
    t, f = eng.branch_feasible(st, c)
    if not t:
        raise Killed('assume')
    st.add_pc(c)
    return None


@reg('fv_ensure')
def _ensure(eng, st, fr, I, a):
    eng.emit(st, Obligation(cstr(eng, st, a[1]), 'bool', st.pc, tob(eng, a[0])))


@reg('fv_ensure_eq')
def _ensure_eq(eng, st, fr, I, a):
    eng.emit(st, Obligation(cstr(eng, st, a[2]), 'eq', st.pc, (a[0], a[1])))


@reg('fv_ensure_le')
def _ensure_le(eng, st, fr, I, a):
    eng.emit(st, Obligation(cstr(eng, st, a[2]), 'bool', st.pc, ble(a[0], a[1])))


@reg('fv_ensure_lt')
def _ensure_lt(eng, st, fr, I, a):
    eng.emit(st, Obligation(cstr(eng, st, a[2]), 'bool', st.pc, blt(a[0], a[1])))


@reg('fv_ensure_ieq')
def _ensure_ieq(eng, st, fr, I, a):
    eng.emit(st, Obligation(cstr(eng, st, a[2]), 'bool', st.pc, ieq(a[0], a[1])))


@reg('fv_reach')
def _reach(eng, st, fr, I, a):
    eng.emit(st, Obligation(cstr(eng, st, a[0]), 'reach', st.pc, True))


@reg('fv_diff')
def _diff(eng, st, fr, I, a):
    n = cstr(eng, st, a[1])
    return diff(a[0], rvar(n))


@reg('fv_diff_i')
def _diffi(eng, st, fr, I, a):
    n = cstr(eng, st, a[1]) + str(a[2])
    return diff(a[0], rvar(n))


@reg('fv_native')
def _native(eng, st, fr, I, a):
    return False if I.ty.width == 1 else 0


@reg('fv_rarray')
def _rarray(eng, st, fr, I, a):
    n = cstr(eng, st, a[0])
    oid = eng.new_obj(st, n, 0)
    o = st.wobj(oid)
    o.region = True
    o.es = 8
    o.sort = 'R'
    o.base = n
    o.length = a[1]
    o.size = imul(a[1], 8)
    return Ptr(oid, 0)


@reg('fv_iarray')
def _iarray(eng, st, fr, I, a):
    """fv_iarray(name, n, inv, ctx): int array whose every element satisfies inv(ctx, idx, value)"""
    n = cstr(eng, st, a[0])
    oid = eng.new_obj(st, n, 0)
    o = st.wobj(oid)
    o.region = True
    o.es = 4
    o.sort = 'I'
    o.base = n
    o.length = a[1]
    o.size = imul(a[1], 4)
    o.range = (a[2], a[3])
    if isinstance(a[4], Fn):
        o.inv = (a[4].name, a[5], n)
    return Ptr(oid, 0)


@reg('fv_ghost_sum')
def _ghost(eng, st, fr, I, a):
    """fv_ghost_sum(ptr, stride, col): the sum over rows of column col of the array ptr"""
    p, stride, col = a
    o = st.wobj(p.obj)
    off = idivexact(p.off, o.es)
    col = col + off
    if (stride, col) not in o.ghost:
        if o.log != ():
            raise Unsupported('ghost sum introduced after writes')
        o.ghost[(stride, col)] = R0 if o.zero else rvar('sum(%s,%d,%d)' % (o.base, stride, col))
    return o.ghost[(stride, col)]


@reg('fv_zero_region')
def _zr(eng, st, fr, I, a):
    o = st.wobj(a[0].obj)
    o.log = ()
    o.zero = True


@reg('fv_loop_candidate')
def _cand(eng, st, fr, I, a):
    st.cands = st.cands + ((a[0].name, a[1]),)


@reg('fv_clear_candidates')
def _ccand(eng, st, fr, I, a):
    st.cands = ()


def _inv_ob(eng, st, phase, lab, kind, goal):
    eng.emit(st, Obligation('loop invariant %s %s' % (lab, ('established', '', 'preserved')[phase]), kind, st.pc, goal))


@reg('fv_inv')
def _inv(eng, st, fr, I, a):
    """fv_inv(cond, label): assumed at the loop head, proved at entry and after an iteration"""
    if not st.loopctx:
        return None
    phase = st.loopctx[0]
    c = tob(eng, a[0])
    if phase == 1:
        if c is False:
            raise Killed('assume')
        if c is not True:
            t, f = eng.branch_feasible(st, c)
            if not t:
                raise Killed('assume')
            st.add_pc(c)
    else:
        _inv_ob(eng, st, phase, cstr(eng, st, a[1]), 'bool', c)


@reg('fv_inv_eq')
def _inveq(eng, st, fr, I, a):
    """fv_inv_eq(ptr, value, label): *ptr == value at the loop head"""
    if not st.loopctx:
        return None
    phase, regions, cells, whole = st.loopctx[:4]
    p, v, lab = a
    o = st.mem[p.obj]
    if o.region:
        if p.obj not in regions:
            return None
    elif (p.obj, p.off) not in cells and p.obj not in whole:
        return None
    if phase == 1:
        if o.region:
            idx = eng.elem_index(st, o, p.off, 8)
            o = st.wobj(o.id)
            o.log = (o.log, ('w', idx, v))
        else:
            eng.put(st, p.obj, p.off, 8, v)
        return None
    cur = eng.load(st, p, dbl())
    _inv_ob(eng, st, phase, cstr(eng, st, lab), 'eq', (cur, v))


@reg('fv_inv_acc', 'fv_inv_iacc')
def _invacc(eng, st, fr, I, a):
    """the partial sum so far of something the loop accumulates in a variable (see loops.discover)"""
    if st.loopctx:
        d = dict(st.tags.get('acc', {}))
        d[cstr(eng, st, a[1])] = a[0]
        st.tags['acc'] = d


@reg('fv_inv_sum')
def _invsum(eng, st, fr, I, a):
    """fv_inv_sum(ptr, stride, col, value, label): ghost sum of the column"""
    if not st.loopctx:
        return None
    phase, regions, cells, whole = st.loopctx[:4]
    p, stride, col, v, lab = a
    if p.obj not in regions:
        return None
    if phase == 1:
        o = st.wobj(p.obj)
        key = (stride, col + idivexact(p.off, o.es))
        if key not in o.ghost:
            raise Unsupported('ghost sum not introduced before the loop')
        o.ghost[key] = v
        return None
    _inv_ob(eng, st, phase, cstr(eng, st, lab), 'eq', (_ghost(eng, st, fr, I, a[:3]), v))


@reg('fv_loop_start')
def _loopstart(eng, st, fr, I, a):
    return st.loopctx[5] if st.loopctx else 0


@reg('fv_inv_add')
def _invadd(eng, st, fr, I, a):
    if not st.loopctx:
        return None
    if _modified(st, a[0]):
        old = eng.load(_entry(st), a[0], dbl())
        _inveq(eng, st, fr, I, [a[0], radd(old, a[1]), a[2]])


def _entry(st):
    """the memory at the entry of the loop, under what is known now"""
    t = st.fork()
    t.mem = dict(st.loopctx[4].mem)
    return t


@reg('fv_inv_sum_add')
def _invsumadd(eng, st, fr, I, a):
    if not st.loopctx or a[0].obj not in st.loopctx[1]:
        return None
    old = _ghost(eng, _entry(st), fr, I, a[:3])
    _invsum(eng, st, fr, I, [a[0], a[1], a[2], radd(old, a[3]), a[4]])


def _modified(st, p):
    phase, regions, cells, whole = st.loopctx[:4]
    if st.mem[p.obj].region:
        return p.obj in regions
    return (p.obj, p.off) in cells or p.obj in whole


@reg('fv_loop_array')
def _looparr(eng, st, fr, I, a):
    """fv_loop_array(i): the i-th array (in order of allocation) that the current loop modifies without summary"""
    if not st.loopctx:
        return Ptr(0, 0)
    rs = sorted(st.loopctx[1])
    return Ptr(rs[a[0]], 0) if a[0] < len(rs) else Ptr(0, 0)


@reg('fv_length')
def _length(eng, st, fr, I, a):
    """number of elements of an array"""
    o = st.mem[a[0].obj]
    if o.length is not None:
        return o.length
    n = idivexact(o.size, o.es) if o.es else None
    if n is None:
        raise Unsupported('length of ' + o.name)
    return n


@reg('fv_case')
def _case(eng, st, fr, I, a):
    """fv_case(c): one path for each value of c"""
    c = tob(eng, a[0])
    if isinstance(c, bool):
        return c
    t, f = eng.branch_feasible(st, c)
    if t and f:
        raise ForkOn(c)
    st.add_pc(c if t else bnot(c))
    return t


@reg('fv_split')
def _split(eng, st, fr, I, a):
    st.split = bool(tob(eng, a[0]))
    return None


@reg('fv_fn')
def _fn(eng, st, fr, I, a):
    """fv_fn(name, i, args, n): component i of an uninterpreted function of the n values at args"""
    t = dbl()
    xs = [eng.load(st, Ptr(a[2].obj, iadd(a[2].off, 8 * k)), t) for k in range(a[3])]
    return rfn('%s#%d' % (cstr(eng, st, a[0]), a[1]), *xs)


@reg('fv_stop')
def _stop(eng, st, fr, I, a):
    raise Killed('assume')


@reg('fv_event')
def _event(eng, st, fr, I, a):
    """appends to the ghost trace"""
    st.trace = st.trace + (tuple(a),)


@reg('fv_event_count')
def _evc(eng, st, fr, I, a):
    return len(st.trace)


# ------------------------------------------------------------------ C / C++ runtime
@reg('_Znwm', '_Znam', 'malloc', '_ZnwmSt11align_val_t')
def _new(eng, st, fr, I, a):
    n = a[0]
    nm = 'heap'
    return Ptr(eng.new_obj(st, nm, n), 0)


@reg('posix_memalign')
def _pm(eng, st, fr, I, a):
    oid = eng.new_obj(st, 'heap', a[2])
    o = st.wobj(a[0].obj)
    eng.put(st, a[0].obj, a[0].off, 8, Ptr(oid, 0))
    return 0


@reg('calloc')
def _calloc(eng, st, fr, I, a):
    oid = eng.new_obj(st, 'heap', imul(a[0], a[1]))
    st.wobj(oid).zero = True
    return Ptr(oid, 0)


@reg('_ZdlPv', '_ZdaPv', 'free', '_ZdlPvm', '_ZdaPvm', '_ZdlPvmSt11align_val_t')
def _del(eng, st, fr, I, a):
    return None


@reg('sqrt', 'sqrtf')
def _sqrt(eng, st, fr, I, a):
    return eng.sqrt(st, a[0])


@reg('fabs', '_ZSt3absd')
def _fabs(eng, st, fr, I, a):
    return eng.fabs(st, a[0])


@reg('pow')
def _pow(eng, st, fr, I, a):
    return eng.pow(st, a[0], a[1])


@reg('fmin')
def _fmin(eng, st, fr, I, a):
    return eng.min(st, a[0], a[1])


@reg('fmax')
def _fmax(eng, st, fr, I, a):
    return eng.max(st, a[0], a[1])


def trig(eng, st, which, x):
    """cosine and sine of x as the components of a unit vector"""
    if x.op == 'const':
        return rfn(which, x)
    n = 'trig%d' % x.id
    if n + 'x' not in eng.params:
        eng.params[n + 'x'] = ('cos', n)
        eng.params[n + 'y'] = ('sin', n)
    a, b = rvar(n + 'x'), rvar(n + 'y')
    c = beq(radd(rmul(a, a), rmul(b, b)), R1)
    if c not in st.pc:
        st.add_pc(c)
    return a if which == 'cos' else b


for _n in ('sin', 'cos'):
    TABLE[_n] = (lambda nn: lambda eng, st, fr, I, a: trig(eng, st, nn, a[0]))(_n)
for _n in ('exp', 'log', 'tan', 'tanh', 'log10', 'asin', 'acos', 'atan'):
    def _mk(nn):
        def f(eng, st, fr, I, a):
            return rfn(nn, a[0])
        return f
    TABLE[_n] = _mk(_n)


@reg('_ZSt3minIdERKT_S2_S2_', '_ZSt3maxIdERKT_S2_S2_')
def _minmax(eng, st, fr, I, a):
    """std::min/max on doubles: the returned reference is to a fresh cell holding the selected value"""
    callee = I.x['callee'][1]
    t = dbl()
    x = eng.load(st, a[0], t)
    y = eng.load(st, a[1], t)
    v = eng.min(st, x, y) if 'min' in callee else eng.max(st, x, y)
    oid = eng.new_obj(st, 'tmp', 8)
    eng.put(st, oid, 0, 8, v)
    return Ptr(oid, 0)


def dbl():
    t = llvm.Ty()
    t.kind = 3
    t.size = 8
    t.width = 0
    return t


def _mkty(kind, size, width=0):
    t = llvm.Ty()
    t.kind, t.size, t.width = kind, size, width
    return t


I8, I64, PTRT = _mkty(8, 1, 8), _mkty(8, 8, 64), _mkty(12, 8)


@reg('__assert_fail')
def _af(eng, st, fr, I, a):
    raise Killed('assertion failure in ' + fr.fn.name)


@reg('abort', '_ZSt9terminatev', '__cxa_pure_virtual', 'exit', '_exit')
def _abort(eng, st, fr, I, a):
    raise Killed('abort')


@reg('__cxa_throw', '__cxa_rethrow', '_ZSt17__throw_bad_allocv', '_ZSt20__throw_length_errorPKc',
     '_ZSt24__throw_out_of_range_fmtPKcz', '_ZSt19__throw_logic_errorPKc', '_ZSt28__throw_bad_array_new_lengthv')
def _throw(eng, st, fr, I, a):
    raise Killed('exception')


@reg('__cxa_allocate_exception')
def _cae(eng, st, fr, I, a):
    return Ptr(eng.new_obj(st, 'exc', 256), 0)


@reg('__cxa_guard_acquire')
def _ga(eng, st, fr, I, a):
    return 1


@reg('__cxa_guard_release', '__cxa_atexit', '__cxa_free_exception')
def _gr(eng, st, fr, I, a):
    return 0 if I.ty.kind == 8 else None


@reg('strlen')
def _strlen(eng, st, fr, I, a):
    return len(cstr(eng, st, a[0]))


@reg('memcmp', 'strcmp')
def _memcmp(eng, st, fr, I, a):
    if len(a) == 3:
        n = a[2]
        x = bytes_of(eng, st, a[0], n)
        y = bytes_of(eng, st, a[1], n)
    else:
        x, y = cstr(eng, st, a[0]), cstr(eng, st, a[1])
    return 0 if x == y else (1 if x > y else -1)


def bytes_of(eng, st, p, n):
    t = llvm.Ty()
    t.kind = 8
    t.size = 1
    t.width = 8
    out = []
    for i in range(n):
        v = eng.load(st, Ptr(p.obj, p.off + i), t)
        if not isinstance(v, int):
            raise Unsupported('symbolic bytes')
        out.append(v & 255)
    return out


@reg('memcpy', 'memmove')
def _memcpy(eng, st, fr, I, a):
    eng.memcpy(st, a[0], a[1], a[2])
    return a[0]


@reg('memset')
def _memset(eng, st, fr, I, a):
    eng.memset(st, a[0], a[1], a[2])
    return a[0]


@reg('MPI_Barrier', 'printf', 'puts', 'putchar', 'fflush', 'fprintf')
def _zero(eng, st, fr, I, a):
    return 0


def _stream(eng, st, fr, I, a):
    return a[0] if I.ty.kind == 12 else None


for _p in ('_ZNSo', '_ZStls', '_ZSt4endl', '_ZSt5flush', '_ZSt16__ostream_insert', '_ZNSi', '_ZNSt9basic_ios'):
    PREFIX.append((_p, _stream))


@reg('__isoc99_sscanf')
def _ss(eng, st, fr, I, a):
    raise Unsupported('sscanf')


@reg('_ZNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEE9_M_createERmm')
def _strcreate(eng, st, fr, I, a):
    n = eng.load(st, a[1], I64)
    return Ptr(eng.new_obj(st, 'string', iadd(n, 1)), 0)


def cppstr(eng, st, p):
    """contents of a std::string"""
    d = eng.load(st, p, PTRT)
    n = eng.load(st, Ptr(p.obj, iadd(p.off, 8)), I64)
    if not isinstance(n, int) or not isinstance(d, Ptr):
        raise Unsupported('string of unknown contents')
    out = []
    for i in range(n):
        c = eng.load(st, Ptr(d.obj, iadd(d.off, i)), I8)
        if not isinstance(c, int):
            raise Unsupported('string of unknown contents')
        out.append(c & 255)
    return bytes(out)


@reg('_ZNKSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEE7compareEPKc')
def _strcmpc(eng, st, fr, I, a):
    x, y = cppstr(eng, st, a[0]), cstr(eng, st, a[1]).encode('latin1')
    return (x > y) - (x < y)
