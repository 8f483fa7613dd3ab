"""Path-wise symbolic execution of LLVM IR: generates verification conditions for contract harnesses.

A harness function (verif/contracts/*.cpp) states a contract: it introduces the inputs (fv_real, fv_int,
fv_array...), assumes the precondition (fv_assume), calls the REAL function of /repo, and states the
postcondition (fv_ensure*).  Every path through the real code yields one verification condition per
postcondition: path condition |- goal.   Callees named in the contract table are replaced by their contract
stub; everything else is executed (inlined).   Loops whose trip count is not a constant are handled by the loop
rule (see loops.py).
"""
import sys
import time
from . import llvm, merge
from .terms import *
from .smt import IntSolver, is_int_only

sys.setrecursionlimit(10000)


class Unsupported(Exception):
    pass


class NeedInvariant(Exception):
    def __init__(self, fn, blk):
        self.key = (fn, blk)


class Killed(Exception):
    """path ends"""

    def __init__(self, why):
        self.why = why


class Ptr:
    __slots__ = ('obj', 'off')

    def __init__(self, obj, off):
        self.obj = obj
        self.off = off

    def __repr__(self):
        return "Ptr(%s,%s)" % (self.obj, self.off)

    def same(self, o):
        return isinstance(o, Ptr) and self.obj == o.obj and self.off == o.off


NULL = Ptr(0, 0)


class Packed:
    """several adjacent values loaded as one integer (structs passed in registers)"""
    __slots__ = ('parts',)

    def __init__(self, parts):
        self.parts = tuple(parts)

    def unpack(self, n):
        p = [x for x in self.parts if x[0] < n]
        if len(p) == 1 and p[0][0] == 0 and p[0][1] == n:
            return p[0][2]
        if len(p) > 1 and all(x[0] + x[1] <= n for x in p):
            return Packed(p)
        raise Unsupported('packed fields')

    def shift(self, n):
        p = [(x[0] - n, x[1], x[2]) for x in self.parts if x[0] >= n]
        if any(x[0] < n < x[0] + x[1] for x in self.parts):
            raise Unsupported('packed fields')
        return Packed(p)


class Fn:
    __slots__ = ('name',)

    def __init__(self, name):
        self.name = name


class Obj:
    __slots__ = ('id', 'name', 'size', 'cells', 'region', 'es', 'sort', 'base', 'log', 'zero', 'inv', 'ghost',
                 'alive', 'length', 'range')

    def __init__(self, id, name, size):
        self.id = id
        self.name = name
        self.size = size
        self.cells = {}
        self.region = False
        self.es = None
        self.sort = None
        self.base = None
        self.log = ()
        self.zero = False
        self.inv = None
        self.ghost = {}
        self.alive = True
        self.length = None
        self.range = None

    def copy(self):
        o = Obj(self.id, self.name, self.size)
        o.cells = dict(self.cells)
        o.region = self.region
        o.es = self.es
        o.sort = self.sort
        o.base = self.base
        o.log = self.log
        o.zero = self.zero
        o.inv = self.inv
        o.ghost = dict(self.ghost)
        o.alive = self.alive
        o.length = self.length
        o.range = self.range
        return o


class Frame:
    __slots__ = ('fn', 'blk', 'pos', 'env', 'prev', 'ret', 'cont', 'forks', 'allocas', 'mode', 'uid')

    def copy(self):
        f = Frame()
        f.fn = self.fn
        f.blk = self.blk
        f.pos = self.pos
        f.env = dict(self.env)
        f.prev = self.prev
        f.ret = self.ret
        f.cont = self.cont
        f.forks = dict(self.forks)
        f.allocas = self.allocas
        f.mode = self.mode
        f.uid = self.uid
        return f


class Mode:
    ASSUME, CHECK = 'assume', 'check'


class State:
    def __init__(self):
        self.frames = []
        self.mem = {}
        self.own = set()
        self.pc = ()          # tuple of B terms
        self.pcset = frozenset()
        self.fresh = 0
        self.globals = {}
        self.eqs = {}
        self.obls = ()
        self.trace = ()
        self.cands = ()
        self.known = {}       # (base, idx id) -> inv already applied
        self.loopctx = ()
        self.claims = ()
        self.tags = {}
        self.writes = ()
        self.sc = None
        self.split = False

    def fork(self):
        s = State()
        s.frames = [f.copy() for f in self.frames]
        s.mem = dict(self.mem)
        s.own = set()
        self.own = set()
        s.pc = self.pc
        s.pcset = self.pcset
        s.fresh = self.fresh
        s.globals = dict(self.globals)
        s.eqs = dict(self.eqs)
        s.obls = self.obls
        s.trace = self.trace
        s.cands = self.cands
        s.known = dict(self.known)
        s.loopctx = self.loopctx
        s.claims = self.claims
        s.tags = dict(self.tags)
        s.writes = self.writes
        s.sc = self.sc
        s.split = self.split
        return s

    def wobj(self, oid):
        o = self.mem[oid]
        if oid not in self.own:
            o = o.copy()
            self.mem[oid] = o
            self.own.add(oid)
        return o

    def add_pc(self, c):
        if c is True or c.id in self.pcset:
            return
        if c.op == 'and':
            for x in c.args:
                self.add_pc(x)
            return
        self.pc = self.pc + (c,)
        self.pcset = self.pcset | {c.id}


class Obligation:
    pre = None

    def __init__(self, label, kind, pc, goal, where=''):
        self.label = label
        self.kind = kind      # 'eq' (a,b) | 'bool' (cond) | 'reach'
        self.pc = pc
        self.goal = goal
        self.where = where


def w_signed(v, w):
    v &= (1 << w) - 1
    return v - (1 << w) if v >> (w - 1) else v


class Engine:
    def __init__(self, module, opts=None):
        self.m = module
        self.opts = opts or {}
        self.isolv = IntSolver()
        self.objcount = [100]
        self.freshcount = [0]
        self.vars = {}           # name -> (lo, hi) sampling ranges
        self.intvars = {}
        self.contracts = self.opts.get('contracts', {})   # function name -> stub name
        self.invloops = set(self.opts.get('invloops', ()))
        self.max_paths = self.opts.get('max_paths', 4000)
        self.deadline = time.time() + self.opts.get('time', 600)
        self.externs = set()
        self.called = set()
        self.contracted = set()
        self.obls = []
        self.ends = []
        self.ninst = 0
        self.npaths = 0
        self.globcache = {}
        self.safety = self.opts.get('safety', True)
        self.unroll_limit = self.opts.get('unroll', 8)
        self.killed = {}
        from . import intrinsics
        self.intr = intrinsics.TABLE
        self.prefix = intrinsics.PREFIX
        self.subexec_depth = 0
        self.loop_summaries = []
        self.merging = bool(self.opts.get('merge'))
        self.uid = [0]
        self.params = {}
        from .pit import Pit
        self.pit = Pit(self.params)

    # ------------------------------------------------------------------ fresh things
    def fresh(self, sort, hint='u'):
        self.freshcount[0] += 1
        n = '%s!%d' % (hint, self.freshcount[0])
        if sort == 'R':
            return rvar(n)
        if sort == 'I':
            return ivar(n)
        return bvar(n)

    def new_obj(self, st, name, size):
        self.objcount[0] += 1
        oid = self.objcount[0]
        o = Obj(oid, name, size)
        if not isinstance(size, int):
            o.region = True
            o.base = '%s@%d' % (name, oid)
        st.mem[oid] = o
        st.own.add(oid)
        return oid

    # ------------------------------------------------------------------ operand evaluation
    def val(self, st, o):
        k = o[0]
        if k == 'r':
            return st.frames[-1].env[o[1]]
        return self.cval(st, o)

    def cval(self, st, o):
        k = o[0]
        if k == 'c':
            return o[1]
        if k == 'fc':
            return rconst(o[1])
        if k == 'null':
            return NULL
        if k == 'f':
            return Fn(o[1])
        if k == 'g':
            return self.global_ptr(st, o[1])
        if k == 'gepc':
            b = self.cval(st, o[1])
            return Ptr(b.obj, b.off + o[2])
        if k == 'zero':
            return self.zero_of(o[1])
        if k == 'undef':
            return self.undef_of(o[1])
        if k == 'agg':
            return [self.cval(st, x) for x in o[1]]
        if k == 'meta':
            return None
        raise Unsupported('operand %r' % (o,))

    def zero_of(self, t):
        if t.kind in (llvm.TK_ARRAY - 0,) or t.kind in (11, 13):
            return [self.zero_of(t.elem) for _ in range(t.n)]
        if t.kind == 10:
            return [self.zero_of(f) for f in t.fields]
        if t.kind == 8:
            return False if t.width == 1 else 0
        if t.kind in (2, 3, 4):
            return R0
        if t.kind == 12:
            return NULL
        raise Unsupported('zero type %d' % t.kind)

    def undef_of(self, t):
        if t.kind in (11, 13):
            return [self.undef_of(t.elem) for _ in range(t.n)]
        if t.kind == 10:
            return [self.undef_of(f) for f in t.fields]
        if t.kind == 8:
            return self.fresh('B', 'undef') if t.width == 1 else self.fresh('I', 'undef')
        if t.kind in (2, 3, 4):
            return self.fresh('R', 'undef')
        if t.kind == 12:
            return Ptr(-1, 0)
        return None

    def global_ptr(self, st, name):
        oid = st.globals.get(name)
        if oid is None:
            ref = self.m.globs[name]
            t = self.m.ty(llvm.GlobTy(ref))
            oid = self.new_obj(st, '@' + name, t.size)
            st.globals[name] = oid
            init = llvm.GlobInit(ref)
            if init and not name.startswith('_ZSt4c'):
                c = self.m.const(init)
                self.store_const(st, oid, 0, t, c)
        return Ptr(oid, 0)

    def store_const(self, st, oid, off, t, c):
        o = st.wobj(oid)
        if c[0] == 'agg':
            if t.kind == 10:
                for f, fo, cc in zip(t.fields, t.offs, c[1]):
                    self.store_const(st, oid, off + fo, f, cc)
            else:
                for i, cc in enumerate(c[1]):
                    self.store_const(st, oid, off + i * t.elem.size, t.elem, cc)
        elif c[0] == 'zero':
            if t.kind in (11, 13) and t.n * t.elem.size > 4096:
                o.zero = True
                return
            self.store_val(st, oid, off, t, self.zero_of(t))
        elif c[0] == 'undef':
            pass
        else:
            self.store_val(st, oid, off, t, self.cval(st, c))

    def store_val(self, st, oid, off, t, v):
        """store of concrete layout into cells (offset concrete)"""
        if t.kind in (11, 13):
            for i in range(t.n):
                self.store_val(st, oid, off + i * t.elem.size, t.elem, v[i])
        elif t.kind == 10:
            for f, fo, x in zip(t.fields, t.offs, v):
                self.store_val(st, oid, off + fo, f, x)
        else:
            self.put(st, oid, off, t.size, v)

    # ------------------------------------------------------------------ memory
    def resolve(self, st, p, sz, why):
        if not isinstance(p, Ptr):
            raise Unsupported('pointer expected in %s: %r' % (why, p))
        if p.obj <= 0:
            raise Killed('null dereference' if p.obj == 0 else 'undef dereference')
        o = st.mem.get(p.obj)
        if o is None:
            raise Unsupported('dangling object')
        return o

    def overlap_clear(self, o, off, sz):
        """remove cells overlapping [off, off+sz)"""
        c = o.cells.get(off)
        if c is not None and c[0] == sz:
            return
        for k in [k for k in range(off - 15, off + sz) if k in o.cells]:
            ks, kv = o.cells[k]
            if k < off + sz and k + ks > off and not (k == off and ks == sz):
                # splitting concrete integers is supported
                if isinstance(kv, int) and not isinstance(kv, bool):
                    b = kv & ((1 << (8 * ks)) - 1)
                    del o.cells[k]
                    for i in range(ks):
                        if not (off <= k + i < off + sz):
                            o.cells[k + i] = (1, w_signed((b >> (8 * i)) & 255, 8))
                else:
                    del o.cells[k]

    def put(self, st, oid, off, sz, v):
        if isinstance(v, Packed):
            o = st.wobj(oid)
            self.overlap_clear(o, off, sz)
            o.cells.pop(off, None)
            for po, ps, pv in v.parts:
                if po < sz:
                    o.cells[off + po] = (ps, pv)
            return
        o = st.wobj(oid)
        self.overlap_clear(o, off, sz)
        o.cells[off] = (sz, v)

    def get(self, st, o, off, t):
        sz = t.size
        c = o.cells.get(off)
        if c is not None and c[0] == sz:
            return self.retype(c[1], t)
        # compose from bytes
        if t.kind == 8 and t.width > 1:
            acc = 0
            ok = True
            i = 0
            while i < sz:
                b = o.cells.get(off + i)
                if b is not None and isinstance(b[1], (int, bool)) and b[0] + i <= sz:
                    acc |= (int(b[1]) & ((1 << (8 * b[0])) - 1)) << (8 * i)
                    i += b[0]
                    continue
                if b is None and o.zero:
                    i += 1
                    continue
                ok = False
                break
            if ok:
                return w_signed(acc, t.width)
            if sz == 8 and not (c is not None and c[0] == sz):
                parts, i = [], 0
                while i < sz:
                    b = o.cells.get(off + i)
                    if b is None:
                        if o.zero:
                            parts.append((i, 1, 0))
                        i += 1
                        continue
                    if i + b[0] > sz:
                        parts = []
                        break
                    parts.append((i, b[0], b[1]))
                    i += b[0]
                if len(parts) > 1:
                    return Packed(parts)
            # part of a larger concrete integer
            for k in range(off - 7, off):
                b = o.cells.get(k)
                if b is not None and k + b[0] >= off + sz and isinstance(b[1], int):
                    return w_signed((b[1] >> (8 * (off - k))), t.width)
                if b is not None and k + b[0] >= off + sz:
                    raise Unsupported('partial load')
        if o.zero and c is None:
            return self.zero_of(t)
        if c is not None:
            if t.kind == 8 and isinstance(c[1], int) and c[0] > sz:
                return w_signed(c[1], t.width)
            if c[0] != sz:
                raise Unsupported('mismatched load %s+%d size %d vs %d' % (o.name, off, sz, c[0]))
        v = self.undef_of(t)
        st.wobj(o.id).cells[off] = (sz, v)
        return v

    def retype(self, v, t):
        if t.kind == 8:
            if isinstance(v, T) and v.sort == 'R':
                return v
            if t.width == 1 and isinstance(v, int) and not isinstance(v, bool):
                return bool(v & 1)
            if t.width == 1 and isinstance(v, T) and v.sort == 'I':
                return self.i2b(v)
            if t.width > 1 and isinstance(v, bool):
                return int(v)
            if t.width > 1 and isinstance(v, T) and v.sort == 'B':
                return iite(v, 1, 0)
            if isinstance(v, Ptr):
                return v
            return v
        if t.kind in (2, 3, 4):
            if isinstance(v, int) and not isinstance(v, bool):
                import struct
                if t.kind == 3:
                    return rconst(struct.unpack('<d', struct.pack('<q', w_signed(v, 64)))[0])
            return v
        if t.kind == 12:
            if isinstance(v, int):
                return Ptr(0, v)
            return v
        return v

    def i2b(self, v):
        b = b01(v)
        return bnot(ieq(v, 0)) if b is None else b

    # --- regions
    def to_region(self, st, o):
        """turn a cells object into a region (concrete size, symbolic offset)"""
        raise Unsupported('symbolic offset into object %s' % o.name)

    def elem_index(self, st, o, off, sz):
        if o.es is None:
            o = st.wobj(o.id)
            o.es = sz
        if o.es != sz:
            if sz > o.es and sz % o.es == 0:
                raise Unsupported('wide access to region %s (%d vs %d)' % (o.name, sz, o.es))
            raise Unsupported('mixed access sizes in region %s (%d vs %d)' % (o.name, sz, o.es))
        idx = idivexact(off, sz)
        if idx is None:
            raise Unsupported('unaligned region offset in %s: %s' % (o.name, pp(off, 5)))
        return self.canon_idx(st, idx)

    def canon_idx(self, st, idx):
        return idx

    def decide(self, st, c):
        """truth of integer condition under pc: True/False/None"""
        if isinstance(c, bool):
            return c
        if c.id in st.pcset:
            return True
        n = bnot(c)
        if n.id in st.pcset:
            return False
        if not is_int_only(c):
            return None
        ic = [x for x in st.pc if is_int_only(x)]
        if not self.isolv.sat(ic + [c]):
            return False
        if not self.isolv.sat(ic + [n]):
            return True
        return None

    def region_load(self, st, o, idx, t, pure=False, log=None):
        """value of an element; undecided aliasing raises ForkOn(cond), or gives a conditional value if pure"""
        if log is None:
            log = o.log

        def rest(cond, v, log):
            if not pure:
                raise ForkOn(cond)
            w = self.region_load(st, o, idx, t, True, log)
            if not (isinstance(v, (int, T)) and isinstance(w, (int, T))):
                raise Unsupported('conditional memory contents')
            srt = v.sort if isinstance(v, T) else w.sort if isinstance(w, T) else 'I'
            return {'R': rite, 'I': iite, 'B': bite}[srt](cond, v, w)
        while log:
            log, ent = log
            if ent[0] == 'w':
                d = self.decide(st, ieq(idx, ent[1]))
                if d is None:
                    return rest(ieq(idx, ent[1]), ent[2], log)
                if d:
                    return ent[2]
            elif ent[0] == 'fill':     # ('fill', lo, hi, val)
                cond = band(ile(ent[1], idx), ilt(idx, ent[2]))
                d = self.decide(st, cond)
                if d is None:
                    return rest(cond, ent[3], log)
                if d:
                    return ent[3]
            elif ent[0] == 'map':      # ('map', atomid, lo, hi, stride, {c: val})
                _, atom, lo, hi, stride, vals = ent
                for c, v in vals.items():
                    dd = isub(idx, c)
                    k = idivexact(dd, stride) if stride != 1 else dd
                    if k is None:
                        # divisibility undecided syntactically: constants differ modulo stride -> not this column
                        if self.never_divisible(dd, stride):
                            continue
                        raise Unsupported('map index %s stride %d' % (pp(dd), stride))
                    cond = band(ile(lo, k), ilt(k, hi))
                    d = self.decide(st, cond)
                    if d is False:
                        continue
                    if d is None and not pure:
                        raise ForkOn(cond)
                    v = substitute([v], {atom.id: k if not isinstance(k, int) else k})[0]
                    if d is None:
                        return rest(cond, v, (log, ent[:5] + ({c2: v2 for c2, v2 in vals.items() if c2 is not c},)))
                    while isinstance(v, T) and v.op == 'ite':
                        d = self.decide(st, v.args[0])
                        if d is None:
                            if pure:
                                break
                            raise ForkOn(v.args[0])
                        v = v.args[1] if d else v.args[2]
                    return v
            elif ent[0] == 'copy':     # ('copy', dlo, n, srcobj, slo)
                _, dlo, n, src, slo = ent
                cond = band(ile(dlo, idx), ilt(idx, iadd(dlo, n)))
                d = self.decide(st, cond)
                if d is False:
                    continue
                if d is None and not pure:
                    raise ForkOn(cond)
                v = self.region_load(st, src, iadd(isub(idx, dlo), slo), t, pure)
                return v if d else rest(cond, v, log)
        if o.zero:
            return self.zero_of(t)
        if t.kind in (2, 3):
            if o.sort is None:
                st.wobj(o.id).sort = 'R'
            return mk('R', 'sel', o.base, idx)
        if t.kind == 8:
            if o.sort is None:
                st.wobj(o.id).sort = 'I'
            return iatom(mk('I', 'sel', o.base, idx))
        raise Unsupported('region load of type kind %d in %s' % (t.kind, o.name))

    def never_divisible(self, d, stride):
        from .terms import idict
        dd = idict(d)
        c0 = dd.pop((), 0)
        return all(c % stride == 0 for c in dd.values()) and c0 % stride != 0

    def load(self, st, p, t):
        if t.kind == 13 or t.kind == 11:
            es = t.elem.size
            return [self.load(st, Ptr(p.obj, iadd(p.off, i * es)), t.elem) for i in range(t.n)]
        if t.kind == 10:
            return [self.load(st, Ptr(p.obj, iadd(p.off, fo)), f) for f, fo in zip(t.fields, t.offs)]
        o = self.resolve(st, p, t.size, 'load')
        if o.region:
            idx = self.elem_index(st, o, p.off, t.size)
            o = st.mem[o.id]
            self.bounds(st, o, idx, 'load')
            v = self.region_load(st, o, idx, t, self.merging)
            if o.range and isinstance(v, T) and v.sort == 'I':
                a = as_atom(v)
                if a is not None and a.op == 'sel' and a.args[0] == o.base and ('rg', a.id) not in st.known:
                    st.known[('rg', a.id)] = True
                    for c in (ile(o.range[0], v), ile(v, o.range[1])):
                        if isinstance(c, T):
                            st.add_pc(c)
            if o.inv and isinstance(v, T):
                a = v if v.op == 'sel' else as_atom(v)
                if a is not None and a.op == 'sel' and a.args[0] == o.base:
                    key = (o.base, a.id)
                    if key not in st.known:
                        st.known[key] = True
                        raise CallInv(o.inv, idx, v)
            return v
        if not isinstance(p.off, int):
            self.fork_offset(st, o, p.off)
        if isinstance(o.size, int) and (p.off < 0 or p.off + t.size > o.size):
            raise Killed('out of bounds load %s+%d' % (o.name, p.off))
        return self.get(st, o, p.off, t)

    def fork_offset(self, st, o, off):
        """enumerate feasible concrete offsets"""
        # find linear structure: fork on the value of the offset among aligned candidates
        for k in range(0, o.size + 1, 4):
            c = ieq(off, k)
            d = self.decide(st, c)
            if d is True:
                raise Concretize(off, k)
            if d is None:
                raise ForkOn(c)
        raise Killed('symbolic offset out of object %s' % o.name)

    def bounds(self, st, o, idx, what):
        if o.length is None:
            return
        c = band(ile(0, idx), ilt(idx, o.length))
        if c is True:
            return
        key = ('b', o.id, idx if isinstance(idx, int) else idx.id)
        if key in st.known:
            return
        st.known[key] = True
        d = self.decide(st, c)
        if d is not True:
            if self.safety:
                self.emit(st, Obligation('in-bounds:%s' % o.name, 'bool', st.pc, c, what))
            st.add_pc(c) if isinstance(c, T) else None
            if c is False:
                raise Killed('out of bounds')
        elif self.safety:
            ob = Obligation('in-bounds:%s' % o.name, 'bool', st.pc, c, what)
            ob.pre = 'z3-int'      # already decided by the integer solver from this path condition
            self.emit(st, ob)

    def store(self, st, p, t, v):
        if t.kind in (11, 13):
            es = t.elem.size
            for i in range(t.n):
                self.store(st, Ptr(p.obj, iadd(p.off, i * es)), t.elem, v[i])
            return
        if t.kind == 10:
            for f, fo, x in zip(t.fields, t.offs, v):
                self.store(st, Ptr(p.obj, iadd(p.off, fo)), f, x)
            return
        o = self.resolve(st, p, t.size, 'store')
        if o.region:
            idx = self.elem_index(st, o, p.off, t.size)
            o = st.wobj(o.id)
            self.bounds(st, o, idx, 'store')
            o = st.wobj(o.id)
            if o.sort is None and isinstance(v, T):
                o.sort = v.sort if v.sort != 'B' else 'I'
            if o.ghost:
                for (stride, col) in list(o.ghost):
                    d = isub(idx, col)
                    if stride == 1 or idivexact(d, stride) is not None:
                        old = self.region_load(st, o, idx, t)
                        o = st.wobj(o.id)
                        o.ghost[(stride, col)] = radd(o.ghost[(stride, col)], rsub(v, old))
                    elif not self.never_divisible(d, stride):
                        raise Unsupported('ghost sum column undecided')
            o.log = (o.log, ('w', idx, v))
            return
        if not isinstance(p.off, int):
            self.fork_offset(st, o, p.off)
        if isinstance(o.size, int) and (p.off < 0 or p.off + t.size > o.size):
            raise Killed('out of bounds store %s+%d' % (o.name, p.off))
        self.put(st, o.id, p.off, t.size, v)

    # ------------------------------------------------------------------ obligations
    def emit(self, st, ob):
        ob.fn = st.frames[-1].fn.name if st.frames else ''
        ob.stack = [f.fn.name for f in st.frames]
        st.obls = st.obls + (ob,)

    # ------------------------------------------------------------------ running
    def start(self, st, fname, args):
        F = self.m.function(fname)
        if F.decl:
            raise Unsupported('no body for ' + fname)
        self.push(st, F, args, None, None)

    def push(self, st, F, args, ret, cont):
        f = Frame()
        f.fn = F
        f.blk = F.blocks[0]
        f.pos = 0
        f.env = {}
        for p, a in zip(F.params, args):
            f.env[p] = a
        f.prev = None
        f.ret = ret
        f.cont = cont
        f.forks = {}
        f.allocas = []
        f.mode = None
        self.uid[0] += 1
        f.uid = self.uid[0]
        st.frames.append(f)
        if len(st.frames) > 400:
            raise Unsupported('call depth')
        self.called.add(F.name)

    def run(self, fname, args=()):
        """explore all paths of fname, restarting when a loop turns out to need the loop rule"""
        while True:
            self.obls = []
            self.ends = []
            self.npaths = 0
            self.killed = {}
            self.objcount[0] = 100
            self.freshcount[0] = 0
            st = State()
            st.tags['main'] = True
            self.start(st, fname, list(args))
            try:
                self.explore([st])
                return self.ends
            except NeedInvariant as e:
                if e.key in self.invloops:
                    raise Unsupported('loop rule failed for %s' % (e.key,))
                self.invloops.add(e.key)

    def explore(self, work, stop=None):
        """run worklist; finished states appended to self.ends (unless stop handler consumes them)"""
        while work:
            st = work.pop()
            try:
                out = self.step_path(st, stop)
            except Killed as k:
                self.killed[k.why] = self.killed.get(k.why, 0) + 1
                if k.why not in ('assume', 'infeasible'):
                    self.finish(st, k.why)
                elif st.obls:
                    self.collect(st)
                continue
            if out is not None:
                work.extend(out)

    def collect(self, st):
        if self.subexec_depth == 0:
            self.obls.extend(st.obls)
            st.obls = ()

    def finish(self, st, why):
        st.end = why
        if why not in ('done', 'exit', 'assume'):
            self.emit(st, Obligation('unreachable:' + why.split('+')[0], 'bool', st.pc, False,
                                     st.frames[-1].fn.name if st.frames else ''))
        self.ends.append(st)
        self.collect(st)

    def branch_feasible(self, st, c):
        """(true possible, false possible)"""
        if isinstance(c, bool):
            return c, not c
        if c.id in st.pcset:
            return True, False
        if bnot(c).id in st.pcset:
            return False, True
        if is_int_only(c):
            ic = [x for x in st.pc if is_int_only(x)]
            t = self.isolv.sat(ic + [c])
            if not t:
                return False, True
            f = self.isolv.sat(ic + [bnot(c)])
            return t, f
        sc = self.signs(st)
        t = sc.truth(c)
        if t is None:
            # contradiction with the known facts when assumed
            t1 = not sc.with_([c]).contradictory()
            f1 = not sc.with_([bnot(c)]).contradictory()
            return t1, f1
        return t, not t

    def simplify_cond(self, st, c):
        """decide the conjuncts one by one; fork on an undecided real-valued conjunct"""
        neg = c.op == 'not'
        d = c.args[0] if neg else c
        if d.op != 'and' or is_int_only(d):
            return c
        rest = []
        for x in d.args:
            t, f = self.branch_feasible(st, x)
            if t and f:
                if not self.merging:
                    raise ForkOn(x)
                rest.append(x)
            if not t:
                return neg
        r = band(*rest)
        return bnot(r) if neg else r

    def fabs(self, st, x):
        if x.op in ('var', 'add', 'mul', 'div', 'neg', 'max') and st.pc:
            s = self.signs(st).signset(x)
            if s <= {0, 1}:
                return x
            if s <= {0, -1}:
                return rneg(x)
            if st.split:
                raise ForkOn(blt(x, R0))
        return rabs(x)

    def max(self, st, x, y):
        r = rmax(x, y)
        if st.split and r.op == 'max':
            t, f = self.branch_feasible(st, blt(x, y))
            if t and f:
                raise ForkOn(blt(x, y))
            return y if t else x
        return r

    def min(self, st, x, y):
        return rneg(self.max(st, rneg(x), rneg(y)))

    def pow(self, st, a, b):
        if isc(b) and b.args[0].denominator == 2 and abs(b.args[0]) <= 16:
            e = b.args[0]
            r = rmul(self.sqrt(st, a), rpow(a, rconst(abs(e) - Fraction(1, 2))))
            return r if e > 0 else rdiv(R1, r)
        return rpow(a, b)

    def sqrt(self, st, x):
        from .roots import simplify_sqrt
        if self.opts.get('plainroots'):
            return rsqrt(x)
        return simplify_sqrt(self, st, x)

    def signs(self, st):
        sc = st.sc
        if sc is None or sc[0] is not st.pc:
            from .prove import SignCalc
            if sc is not None and len(sc[0]) <= len(st.pc) and st.pc[:len(sc[0])] == sc[0]:
                new = sc[1].extend(st.pc[len(sc[0]):])
            else:
                new = SignCalc(self.pit, st.pc)
            st.sc = (st.pc, new)
        return st.sc[1]

    def fork_on(self, st, c):
        """returns list of states with c assumed / negated (each re-executes the current instruction)"""
        t, f = self.branch_feasible(st, c)
        out = []
        if t and f:
            s2 = st.fork()
            st.add_pc(c)
            s2.add_pc(bnot(c))
            self.npaths += 1
            return [s2, st]
        if t:
            st.add_pc(c)
            return [st]
        if f:
            st.add_pc(bnot(c))
            return [st]
        raise Killed('infeasible')

    def step_path(self, st, stop):
        """run one state until it forks or ends"""
        while True:
            fr = st.frames[-1]
            insts = fr.blk.insts
            I = insts[fr.pos]
            self.ninst += 1
            if (self.ninst & 1023) == 0 and time.time() > self.deadline:
                raise Unsupported('time limit in symbolic execution')
            try:
                r = self.exec(st, fr, I, stop)
            except ForkOn as f:
                if self.npaths > self.max_paths:
                    raise Unsupported('path limit')
                return self.fork_on(st, f.cond)
            except Concretize as cz:
                # replace symbolic offset by its concrete value: substitute in env of current frame
                for k, v in list(fr.env.items()):
                    if isinstance(v, Ptr) and isinstance(v.off, T) and v.off is cz.term:
                        fr.env[k] = Ptr(v.obj, cz.value)
                    elif isinstance(v, T) and v is cz.term:
                        fr.env[k] = cz.value
                continue
            except CallInv as ci:
                cb, ctx, _ = ci.inv
                F = self.m.function(cb)
                self.push(st, F, [ctx, ci.idx, ci.v], None, 'again')
                continue
            if r is None:
                continue
            return r

    def goto(self, st, fr, B, stop):
        """branch to block B in frame fr"""
        src = fr.blk.idx
        key = (fr.fn.name, B.idx)
        if stop is not None:
            r = stop(st, fr, src, B)
            if r is not None:
                return r
        if key in self.invloops and self.entering(fr.fn, src, B.idx):
            from . import loops
            return loops.apply(self, st, fr, src, B, stop)
        if B.idx in fr.forks and self.entering(fr.fn, src, B.idx):
            del fr.forks[B.idx]
        self.enter(st, fr, src, B)
        return None

    def enter(self, st, fr, src, B):
        if B.phis:
            vals = []
            for p in B.phis:
                for s, o in p.ops:
                    if s == src:
                        vals.append(self.val(st, o))
                        break
                else:
                    raise Unsupported('phi')
            for p, v in zip(B.phis, vals):
                fr.env[p.res] = v
        fr.prev = src
        fr.blk = B
        fr.pos = 0

    def enter_vals(self, st, fr, src, B, vals):
        for p in B.phis:
            fr.env[p.res] = vals[p.res]
        fr.prev = src
        fr.blk = B
        fr.pos = 0

    def loopinfo(self, F):
        if F.loops is None:
            F.loops = natural_loops(F)
        return F.loops

    def entering(self, F, src, hdr):
        L = self.loopinfo(F).get(hdr)
        return L is not None and src not in L

    def loops_of(self, F, b):
        return [h for h, body in self.loopinfo(F).items() if b in body]

    def exec(self, st, fr, I, stop):
        op = I.op
        env = fr.env
        if op == 'load':
            env[I.res] = self.load(st, self.val(st, I.ops[0]), I.ty)
        elif op == 'store':
            v = self.val(st, I.ops[0])
            self.store(st, self.val(st, I.ops[1]), I.x, v)
        elif op == 'gep':
            p = self.val(st, I.ops[0])
            off, var = I.x
            if isinstance(p, list):
                raise Unsupported('vector gep')
            po = p.off
            o = iadd(po, off) if off else po
            for oo, sz in var:
                iv = self.val(st, oo)
                o = iadd(o, imul(iv, sz))
            env[I.res] = Ptr(p.obj, o)
        elif op == 'br':
            if not I.x[0]:
                r = self.goto(st, fr, I.x[1], stop)
                return r
            c = self.val(st, I.ops[0])
            if not isinstance(c, bool):
                c = self.simplify_cond(st, c)
            if isinstance(c, bool):
                return self.goto(st, fr, I.x[1] if c else I.x[2], stop)
            if is_int_only(c) and (not self.merging or all(self.branch_feasible(st, c))):
                hs = self.loops_of(fr.fn, fr.blk.idx)
                for h in hs:
                    body = self.loopinfo(fr.fn)[h]
                    if I.x[1].idx in body and I.x[2].idx in body:
                        continue
                    key = (fr.fn.name, h)
                    if key in self.invloops:
                        continue
                    n = fr.forks.get(h, 0) + 1
                    fr.forks[h] = n
                    if n > self.unroll_limit:
                        raise NeedInvariant(*key)
            t, f = self.branch_feasible(st, c)
            if t and f:
                if self.npaths > self.max_paths:
                    raise Unsupported('path limit')
                self.npaths += 1
                if self.merging:
                    r = merge.branch(self, st, fr, c, I.x[1], I.x[2], stop)
                    if r is not None:
                        return r
                s2 = st.fork()
                st.add_pc(c)
                s2.add_pc(bnot(c))
                out = []
                r = self.goto(s2, s2.frames[-1], I.x[2], stop)
                out += [s2] if r is None else r
                r = self.goto(st, fr, I.x[1], stop)
                out += [st] if r is None else r
                return out
            if not t and not f:
                raise Killed('infeasible')
            if t:
                st.add_pc(c)
            else:
                st.add_pc(bnot(c))
            return self.goto(st, fr, I.x[1] if t else I.x[2], stop)
        elif op in ('fadd', 'fsub', 'fmul', 'fdiv'):
            a = self.val(st, I.ops[0])
            b = self.val(st, I.ops[1])
            env[I.res] = fbin(op, a, b)
        elif op in ('call', 'invoke'):
            return self.call(st, fr, I, stop)
        elif op == 'ret':
            v = self.val(st, I.ops[0]) if I.ops else None
            return self.do_ret(st, fr, v, stop)
        elif op in ('add', 'sub', 'mul', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr', 'sdiv', 'udiv', 'srem', 'urem'):
            a = self.val(st, I.ops[0])
            b = self.val(st, I.ops[1])
            if isinstance(a, Packed):
                if op != 'lshr' or not isinstance(b, int) or b % 8:
                    raise Unsupported('arithmetic on packed fields')
                env[I.res] = a.shift(b // 8)
            else:
                env[I.res] = self.ibin(st, op, a, b, I.ty)
        elif op == 'icmp':
            env[I.res] = self.icmp(st, I.x, self.val(st, I.ops[0]), self.val(st, I.ops[1]))
        elif op == 'fcmp':
            env[I.res] = fcmp(I.x, self.val(st, I.ops[0]), self.val(st, I.ops[1]))
        elif op == 'select':
            c = self.val(st, I.ops[0])
            a = self.val(st, I.ops[1])
            b = self.val(st, I.ops[2])
            if isinstance(c, bool):
                env[I.res] = a if c else b
            elif isinstance(c, list):
                env[I.res] = [self.sel(cc, x, y) for cc, x, y in zip(c, a, b)]
            else:
                if st.split and isinstance(a, T) and a.sort == 'R' and a is not b or \
                        isinstance(a, (Ptr, Fn)) and not (isinstance(a, Ptr) and a.same(b)):
                    t, f = self.branch_feasible(st, c)
                    if t and f:
                        raise ForkOn(c)
                    c = t
                env[I.res] = self.sel(c, a, b)
        elif op in ('zext', 'sext'):
            v = self.val(st, I.ops[0])
            env[I.res] = self.ext(op, v, I.x, I.ty)
        elif op == 'trunc':
            v = self.val(st, I.ops[0])
            if isinstance(v, Packed):
                v = v.unpack(I.ty.width // 8)
            if isinstance(v, bool):
                env[I.res] = v
            elif isinstance(v, int):
                env[I.res] = bool(v & 1) if I.ty.width == 1 else w_signed(v, I.ty.width)
            elif I.ty.width == 1:
                env[I.res] = self.i2b(v)
            else:
                env[I.res] = v
        elif op in ('sitofp', 'uitofp'):
            v = self.val(st, I.ops[0])
            if isinstance(v, list):
                env[I.res] = [i2r(x) for x in v]
            elif isinstance(v, T) and v.sort == 'B':
                env[I.res] = rite(v, R1, R0)
            else:
                env[I.res] = i2r(int(v) if isinstance(v, bool) else v)
        elif op in ('fptosi', 'fptoui'):
            v = self.val(st, I.ops[0])
            if v.op == 'const':
                env[I.res] = int(v.args[0])
            elif v.op == 'i2r':
                env[I.res] = v.args[0]
            else:
                env[I.res] = iop('r2i', v)
        elif op in ('fpext', 'fptrunc', 'freeze', 'bitcast', 'addrspacecast', 'inttoptr', 'ptrtoint'):
            v = self.val(st, I.ops[0])
            if op == 'inttoptr' and isinstance(v, int):
                v = Ptr(0, v)
            if op == 'ptrtoint' and isinstance(v, Ptr) and v.obj == 0:
                v = v.off
            if op == 'bitcast' and I.ty.kind in (2, 3) and isinstance(v, int):
                v = self.retype(v, I.ty)
            env[I.res] = v
        elif op == 'fneg':
            v = self.val(st, I.ops[0])
            env[I.res] = [rneg(x) for x in v] if isinstance(v, list) else rneg(v)
        elif op == 'alloca':
            n = self.val(st, I.ops[0]) if I.ops else 1
            if not isinstance(n, int):
                sz = imul(n, I.x.size)
            else:
                sz = I.x.size * n
            oid = self.new_obj(st, 'stk', sz)
            env[I.res] = Ptr(oid, 0)
        elif op == 'switch':
            v = self.val(st, I.ops[0])
            if not isinstance(v, int):
                for cv, bb in I.x[1]:
                    d = self.decide(st, ieq(v, cv))
                    if d is None:
                        raise ForkOn(ieq(v, cv))
                    if d:
                        return self.goto(st, fr, bb, stop)
                return self.goto(st, fr, I.x[0], stop)
            for cv, bb in I.x[1]:
                if cv == v:
                    return self.goto(st, fr, bb, stop)
            return self.goto(st, fr, I.x[0], stop)
        elif op == 'extractvalue':
            v = self.val(st, I.ops[0])
            for i in I.x:
                v = v[i]
            env[I.res] = v
        elif op == 'insertvalue':
            v = copylist(self.val(st, I.ops[0]))
            w = v
            for i in I.x[:-1]:
                w = w[i]
            w[I.x[-1]] = self.val(st, I.ops[1])
            env[I.res] = v
        elif op == 'extractelement':
            env[I.res] = self.val(st, I.ops[0])[self.val(st, I.ops[1])]
        elif op == 'insertelement':
            v = list(self.val(st, I.ops[0]))
            v[self.val(st, I.ops[2])] = self.val(st, I.ops[1])
            env[I.res] = v
        elif op == 'shufflevector':
            v = list(self.val(st, I.ops[0])) + list(self.val(st, I.ops[1]))
            env[I.res] = [v[i] if i >= 0 else None for i in I.x]
        elif op == 'unreachable':
            raise Killed('unreachable')
        elif op == 'atomicrmw':
            p = self.val(st, I.ops[0])
            x = self.val(st, I.ops[1])
            old = self.load(st, p, I.ty)
            k = I.x
            if k == 1:
                new = iadd(old, x)
            elif k == 11:
                new = radd(old, x)
            elif k == 2:
                new = isub(old, x)
            elif k == 0:
                new = x
            else:
                raise Unsupported('atomicrmw %d' % k)
            self.store(st, p, I.ty, new)
            env[I.res] = old
        elif op == 'fence':
            pass
        elif op in ('landingpad', 'resume'):
            raise Killed('exception')
        else:
            raise Unsupported('instruction ' + op)
        fr.pos += 1
        return None

    def sel(self, c, a, b):
        if isinstance(c, bool):
            return a if c else b
        if a is b:
            return a
        if isinstance(a, T) and a.sort == 'R':
            return rite(c, a, b)
        if isinstance(a, (Ptr, Fn)) or isinstance(b, (Ptr, Fn)):
            if isinstance(a, Ptr) and a.same(b):
                return a
            raise ForkOn(c)
        if isinstance(a, (bool,)) or isinstance(b, bool) or (isinstance(a, T) and a.sort == 'B'):
            return bite(c, a, b)
        if isinstance(a, list):
            return [self.sel(c, x, y) for x, y in zip(a, b)]
        return iite(c, a, b)

    def ext(self, op, v, src, dst):
        if isinstance(v, list):
            return [self.ext(op, x, src.elem, dst.elem) for x in v]
        if isinstance(v, bool):
            return (1 if op == 'zext' else -1) if v else 0
        if isinstance(v, int):
            if op == 'zext':
                return v & ((1 << src.width) - 1)
            return v
        if isinstance(v, T) and v.sort == 'B':
            return iite(v, 1 if op == 'zext' else -1, 0)
        return v

    def ibin(self, st, op, a, b, ty):
        if isinstance(a, list):
            return [self.ibin(st, op, x, y, ty.elem) for x, y in zip(a, b)]
        w = ty.width
        if w == 1:
            return self.bbin(op, a, b)
        if isinstance(a, bool):
            a = int(a)
        if isinstance(b, bool):
            b = int(b)
        if isinstance(a, int) and isinstance(b, int):
            return cint(op, a, b, w)
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            return self.ptrarith(op, a, b)
        if isinstance(a, T) and a.sort != 'I' or isinstance(b, T) and b.sort != 'I':
            raise Unsupported('int op on non-int %s %s %s' % (op, a, b))
        if op == 'add':
            return iadd(a, b)
        if op == 'sub':
            return isub(a, b)
        if op == 'mul':
            return imul(a, b)
        if op in ('and', 'or', 'xor'):
            x, y = b01(a), b01(b)
            if x is not None and y is not None:
                return iite(self.bbin(op, x, y), 1, 0)
        if op == 'shl' and isinstance(b, int):
            return imul(a, 1 << b)
        if op in ('sdiv', 'udiv', 'ashr', 'lshr'):
            if op in ('ashr', 'lshr'):
                if not isinstance(b, int):
                    raise Unsupported('shift')
                b = 1 << b
            if isinstance(b, int):
                q = idivexact(a, b)
                if q is not None:
                    return q
            if self.decide(st, ile(0, a)) is True and self.decide(st, ilt(0, b)) is True:
                q, r = split_div(a, b)
                if q is not None and isinstance(r, int):
                    return iadd(q, r // b)
                return iop('idiv', a, b)
            if isinstance(a, T) and isinstance(b, int) and self.decide(st, ile(a, 0)) is True:
                return ineg(iop('idiv', ineg(a), b))
            raise Unsupported('division of possibly negative integer')
        if op in ('srem', 'urem'):
            if self.decide(st, ile(0, a)) is True and self.decide(st, ilt(0, b)) is True:
                q, r = split_div(a, b)
                if q is not None and isinstance(r, int):
                    return r % b
                return iop('irem', a, b)
            raise Unsupported('remainder of possibly negative integer')
        return iop(op, a, b)

    def ptrarith(self, op, a, b):
        if op == 'sub' and isinstance(a, Ptr) and isinstance(b, Ptr):
            if a.obj == b.obj:
                return isub(a.off, b.off)
            if a.obj == 0 or b.obj == 0:
                raise Unsupported('ptr diff')
            raise Unsupported('pointer difference between objects')
        if op == 'add' and isinstance(a, Ptr):
            return Ptr(a.obj, iadd(a.off, b))
        if op == 'add':
            return Ptr(b.obj, iadd(b.off, a))
        if op == 'sub':
            return Ptr(a.obj, isub(a.off, b))
        if op == 'and' and isinstance(a, Ptr) and isinstance(b, int):
            if 0 <= b < 64:      # alignment test: objects are 64-aligned
                if isinstance(a.off, int):
                    return a.off & b
                return 0
            return a
        if op in ('srem', 'urem') and isinstance(a, Ptr) and isinstance(b, int) and isinstance(a.off, int):
            return a.off % b
        raise Unsupported('pointer arithmetic ' + op)

    def bbin(self, op, a, b):
        if isinstance(a, T) and a.sort == 'I':
            a = self.i2b(a)
        if isinstance(b, T) and b.sort == 'I':
            b = self.i2b(b)
        if op == 'and':
            return band(a, b)
        if op == 'or':
            return bor(a, b)
        if op == 'xor' or op == 'add' or op == 'sub':
            if isinstance(a, bool):
                return bnot(b) if a else b
            if isinstance(b, bool):
                return bnot(a) if b else a
            return bite(a, bnot(b), b)
        raise Unsupported('bool op ' + op)

    def icmp(self, st, p, a, b):
        if isinstance(a, list):
            return [self.icmp(st, p, x, y) for x, y in zip(a, b)]
        if isinstance(a, Fn) or isinstance(b, Fn):
            eq = isinstance(a, Fn) and isinstance(b, Fn) and a.name == b.name
            return eq if p == 32 else (not eq)
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            if isinstance(a, int):
                a = Ptr(0, a)
            if isinstance(b, int):
                b = Ptr(0, b)
            if a.obj == b.obj:
                a, b = a.off, b.off
            else:
                if p == 32:
                    return False
                if p == 33:
                    return True
                a, b = a.obj, b.obj
        if isinstance(a, (bool,)) or isinstance(b, bool) or (isinstance(a, T) and a.sort == 'B'):
            if isinstance(a, int):
                a = bool(a)
            if isinstance(b, int):
                b = bool(b)
            e = bite(a, b, bnot(b)) if not isinstance(a, bool) else (b if a else bnot(b))
            if p == 32:
                return e
            if p == 33:
                return bnot(e)
            raise Unsupported('bool compare')
        ci = isinstance(a, int) and isinstance(b, int)
        if p in (32, 33) and not ci:
            x, y = b01(a), b01(b)
            if x is not None and y is not None:
                e = bite(x, y, bnot(y)) if not isinstance(x, bool) else (y if x else bnot(y))
                return e if p == 32 else bnot(e)
        if p == 32:
            return ieq(a, b)
        if p == 33:
            return bnot(ieq(a, b))
        if p in (34, 35, 36, 37):
            if ci:
                a &= (1 << 64) - 1
                b &= (1 << 64) - 1
            p += 4
        if p == 38:
            return ilt(b, a)
        if p == 39:
            return ile(b, a)
        if p == 40:
            return ilt(a, b)
        if p == 41:
            return ile(a, b)
        raise Unsupported('icmp')

    # ------------------------------------------------------------------ calls
    def call(self, st, fr, I, stop):
        callee = I.x['callee']
        if callee[0] == 'f':
            name = callee[1]
        elif callee[0] == 'r' or callee[0] in ('g', 'gepc'):
            v = self.val(st, callee)
            if not isinstance(v, Fn):
                raise Unsupported('indirect call to %r' % (v,))
            name = v.name
        else:
            raise Unsupported('callee')
        if name.startswith('llvm.'):
            return self.llvm_intrinsic(st, fr, I, name, stop)
        args = [self.val(st, o) for o in I.ops]
        return self.do_call(st, fr, I, name, args, stop)

    def after(self, st, fr, I, v, stop):
        """complete a call instruction with value v"""
        if I.ty.kind != 0:
            fr.env[I.res] = v
        if I.op == 'invoke':
            return self.goto(st, fr, I.x['normal'], stop)
        fr.pos += 1
        return None

    def do_call(self, st, fr, I, name, args, stop):
        stub = self.contracts.get(name)
        if stub is not None and not any(f.fn.name == stub for f in st.frames):
            self.contracted.add(name)
            F = self.m.function(stub)
            self.push(st, F, args, I, None)
            return None
        h = self.intr.get(name)
        if h is None:
            for pre, hh in self.prefix:
                if name.startswith(pre):
                    h = hh
                    break
        if h is not None:
            v = h(self, st, fr, I, args)
            if v is PUSHED:
                return None
            if isinstance(v, STATES):
                return v.states
            return self.after(st, fr, I, v, stop)
        if self.m.has(name):
            F = self.m.function(name)
            self.push(st, F, args, I, None)
            return None
        # unknown external: result unconstrained, no memory effect (recorded as an assumption)
        self.externs.add(name)
        v = self.undef_of(I.ty) if I.ty.kind != 0 else None
        if I.ty.kind == 12 and args and isinstance(args[0], Ptr):
            v = args[0]       # stream-like functions return their first argument
        return self.after(st, fr, I, v, stop)

    def do_ret(self, st, fr, v, stop):
        st.frames.pop()
        if not st.frames:
            self.finish(st, 'done')
            return []
        caller = st.frames[-1]
        if fr.cont == 'again':
            return None
        if fr.cont is not None:
            return fr.cont(self, st, v)
        I = fr.ret
        return self.after(st, caller, I, v, stop)

    def llvm_intrinsic(self, st, fr, I, name, stop):
        n = name[5:]
        if n.startswith(('lifetime', 'dbg', 'invariant', 'experimental.noalias', 'stacksave', 'stackrestore',
                         'assume', 'va_', 'donothing', 'prefetch')):
            return self.after(st, fr, I, NULL if I.ty.kind == 12 else None, stop)
        a = [self.val(st, o) for o in I.ops]
        b = n.split('.')[0]
        if b == 'fabs':
            v = lift1(lambda x: self.fabs(st, x), a[0])
        elif b == 'sqrt':
            v = lift1(lambda x: self.sqrt(st, x), a[0])
        elif b == 'fmuladd' or b == 'fma':
            v = fbin('fadd', fbin('fmul', a[0], a[1]), a[2])
        elif b == 'pow':
            v = self.pow(st, a[0], a[1])
        elif b == 'powi':
            v = rpow(a[0], rconst(a[1]))
        elif b in ('sin', 'cos'):
            v = intrinsics.trig(self, st, b, a[0])
        elif b in ('exp', 'log', 'log10', 'floor', 'ceil'):
            v = rfn(b, a[0])
        elif b in ('minnum', 'minimum'):
            v = self.min(st, a[0], a[1])
        elif b in ('maxnum', 'maximum'):
            v = self.max(st, a[0], a[1])
        elif b == 'smax':
            v = self.sel(ilt(a[0], a[1]), a[1], a[0])
        elif b == 'smin':
            v = self.sel(ilt(a[1], a[0]), a[1], a[0])
        elif b == 'umax':
            v = self.sel(ilt(a[0], a[1]), a[1], a[0])
        elif b == 'umin':
            v = self.sel(ilt(a[1], a[0]), a[1], a[0])
        elif b == 'abs':
            v = self.sel(ilt(a[0], 0), ineg(a[0]), a[0])
        elif b in ('memcpy', 'memmove'):
            self.memcpy(st, a[0], a[1], a[2])
            v = None
        elif b == 'memset':
            self.memset(st, a[0], a[1], a[2])
            v = None
        elif b in ('umul', 'uadd', 'usub', 'smul', 'sadd', 'ssub') and 'with.overflow' in n:
            f = {'mul': imul, 'add': iadd, 'sub': isub}[b[1:]]
            v = [f(a[0], a[1]), False]
        elif b == 'expect':
            v = a[0]
        elif b == 'is' and n.startswith('is.fpclass'):
            # real semantics: every value is finite and not nan
            mask = a[1]
            v = bool(mask & (0x8 | 0x100 | 0x80 | 0x10 | 0x20 | 0x40)) and not (mask & 3 and not mask & 0x1f8)
            v = bool(mask & 0x1f8)
        elif b == 'copysign':
            v = rite(blt(a[1], R0), rneg(rabs(a[0])), rabs(a[0]))
        elif b == 'trap':
            raise Killed('trap')
        elif b == 'eh':
            v = 0
        elif b == 'load' and n.startswith('load.relative'):
            raise Unsupported(name)
        elif b == 'objectsize':
            v = -1
        elif b == 'is.constant' or n.startswith('is.constant'):
            v = False
        elif b == 'launder' or b == 'strip':
            v = a[0]
        elif b == 'ctlz' and isinstance(a[0], int):
            v = 64 - a[0].bit_length() if I.ty.width == 64 else 32 - a[0].bit_length()
        else:
            raise Unsupported('intrinsic ' + name)
        return self.after(st, fr, I, v, stop)

    def memcpy(self, st, d, s, n):
        if isinstance(n, int) and n == 0:
            return
        so = self.resolve(st, s, n, 'memcpy')
        do = self.resolve(st, d, n, 'memcpy')
        if isinstance(n, int) and not so.region and not do.region and isinstance(s.off, int) and \
                isinstance(d.off, int):
            items = [(k, c) for k, c in so.cells.items() if s.off <= k < s.off + n]
            zero = so.zero
            do = st.wobj(do.id)
            for k in [k for k in do.cells if d.off - 15 <= k < d.off + n]:
                if k >= d.off:
                    do.cells.pop(k, None)
                else:
                    self.overlap_clear(do, d.off, n)
            for k, c in items:
                if k + c[0] <= s.off + n:
                    do.cells[k - s.off + d.off] = c
                elif isinstance(c[1], int):
                    m = s.off + n - k
                    do.cells[k - s.off + d.off] = (m, w_signed(c[1], 8 * m))
            if zero and not items and n > 4096:
                do.zero = True
            elif zero:
                have = set()
                for k, c in items:
                    have.update(range(k, k + c[0]))
                for k in range(s.off, s.off + n):
                    if k not in have:
                        do.cells[k - s.off + d.off] = (1, 0)
            return
        if so.region and do.region:
            es = so.es or do.es
            if es is None:
                raise Unsupported('memcpy of untyped region')
            if do.es is None:
                st.wobj(do.id).es = es
                do = st.mem[do.id]
            if so.es is None:
                st.wobj(so.id).es = es
                so = st.mem[so.id]
            if so.es != do.es:
                raise Unsupported('memcpy between region types')
            di, si, cnt = idivexact(d.off, es), idivexact(s.off, es), idivexact(n, es)
            if di is None or si is None or cnt is None:
                raise Unsupported('memcpy alignment')
            if isinstance(cnt, int) and cnt <= 16:
                # element by element, so that the loop rule sees ordinary stores
                t = self.scalar_ty(so, do)
                vs = [self.load(st, Ptr(s.obj, iadd(s.off, k * es)), t) for k in range(cnt)]
                for k, v in enumerate(vs):
                    self.store(st, Ptr(d.obj, iadd(d.off, k * es)), t, v)
                return
            o = st.wobj(do.id)
            if o.ghost:
                raise Unsupported('memcpy over ghost region')
            snap = so.copy()
            o.sort = o.sort or so.sort
            o.log = (o.log, ('copy', di, cnt, snap, si))
            return
        if isinstance(n, int) and n <= 256:
            # element-wise between cells and region
            es = so.es or do.es or 8
            t = self.scalar_ty(so, do)
            for k in range(0, n, es):
                v = self.load(st, Ptr(s.obj, iadd(s.off, k)), t)
                self.store(st, Ptr(d.obj, iadd(d.off, k)), t, v)
            return
        raise Unsupported('memcpy')

    def scalar_ty(self, so, do):
        sort = so.sort or do.sort
        es = so.es or do.es
        t = llvm.Ty()
        t.kind = 3 if (sort == 'R' or sort is None and es == 8) else 8
        t.size = es
        t.width = es * 8
        return t

    def memset(self, st, d, v, n):
        if isinstance(n, int) and n == 0:
            return
        o = self.resolve(st, d, n, 'memset')
        if isinstance(n, int) and not o.region and isinstance(d.off, int):
            o = st.wobj(o.id)
            for k in [k for k in o.cells if d.off <= k < d.off + n]:
                del o.cells[k]
            self.overlap_clear(o, d.off, n)
            if v == 0 and d.off == 0 and n == o.size:
                o.zero = True
                return
            if not isinstance(v, int):
                raise Unsupported('memset symbolic')
            for k in range(n):
                o.cells[d.off + k] = (1, v)
            return
        if o.region and v == 0:
            o = st.wobj(o.id)
            if o.ghost:
                raise Unsupported('memset over ghost region')
            if isinstance(d.off, int) and d.off == 0 and (n is o.size or n == o.size):
                o.log = ()
                o.zero = True
                return
            es = o.es
            if es is None:
                raise Unsupported('memset of part of untyped region')
            lo, cnt = idivexact(d.off, es), idivexact(n, es)
            if lo is None or cnt is None:
                raise Unsupported('memset alignment')
            o.log = (o.log, ('fill', lo, iadd(lo, cnt), R0 if (o.sort == 'R' or (o.sort is None and es == 8)) else 0))
            return
        raise Unsupported('memset')


class ForkOn(Exception):
    def __init__(self, cond):
        self.cond = cond


class Concretize(Exception):
    def __init__(self, term, value):
        self.term = term
        self.value = value


class CallInv(Exception):
    def __init__(self, inv, idx, v):
        self.inv = inv
        self.idx = idx
        self.v = v


class STATES:
    def __init__(self, states):
        self.states = states


PUSHED = object()


def copylist(v):
    return [copylist(x) if isinstance(x, list) else x for x in v]


def lift1(f, a):
    return [f(x) for x in a] if isinstance(a, list) else f(a)


def fbin(op, a, b):
    if isinstance(a, list):
        return [fbin(op, x, y) for x, y in zip(a, b)]
    if op == 'fadd':
        return radd(a, b)
    if op == 'fsub':
        return rsub(a, b)
    if op == 'fmul':
        return rmul(a, b)
    return rdiv(a, b)


def split_div(a, b):
    """a == q*b + r with the terms of r not divisible by b"""
    if not isinstance(b, int) or b <= 0 or isinstance(a, int):
        return None, None
    q, r = 0, 0
    for m, c in a.args:
        t = c
        u = c // b if c % b == 0 else None
        if u is not None:
            t = u
        for x in m:
            t = imul(t, iatom(x))
        if u is not None:
            q = iadd(q, t)
        else:
            r = iadd(r, t)
    return q, r


def fcmp(p, a, b):
    if isinstance(a, list):
        return [fcmp(p, x, y) for x, y in zip(a, b)]
    # predicates: 1 oeq 2 ogt 3 oge 4 olt 5 ole 6 one 7 ord 8 uno 9 ueq 10 ugt 11 uge 12 ult 13 ule 14 une
    if p in (1, 9):
        return beq(a, b)
    if p in (2, 10):
        return blt(b, a)
    if p in (3, 11):
        return ble(b, a)
    if p in (4, 12):
        return blt(a, b)
    if p in (5, 13):
        return ble(a, b)
    if p in (6, 14):
        return bnot(beq(a, b))
    if p == 7 or p == 15:
        return True
    return False


def cint(op, a, b, w):
    m = (1 << w) - 1
    if op == 'add':
        r = a + b
    elif op == 'sub':
        r = a - b
    elif op == 'mul':
        r = a * b
    elif op == 'and':
        r = a & b
    elif op == 'or':
        r = a | b
    elif op == 'xor':
        r = a ^ b
    elif op == 'shl':
        r = a << (b & 63)
    elif op == 'lshr':
        r = (a & m) >> (b & 63)
    elif op == 'ashr':
        r = a >> (b & 63)
    elif op in ('sdiv', 'srem'):
        if b == 0:
            raise Killed('division by zero')
        q = abs(a) // abs(b)
        if (a < 0) != (b < 0):
            q = -q
        r = q if op == 'sdiv' else a - q * b
    elif op in ('udiv', 'urem'):
        if b == 0:
            raise Killed('division by zero')
        r = (a & m) // (b & m) if op == 'udiv' else (a & m) % (b & m)
    return w_signed(r, w)


def natural_loops(F):
    """header -> set of blocks (natural loops; loops with the same header merged)"""
    n = len(F.blocks)
    succ = [[b.idx for b in B.succ] for B in F.blocks]
    pred = [[] for _ in range(n)]
    for i in range(n):
        for j in succ[i]:
            pred[j].append(i)
    # reachable
    order = []
    seen = set()

    def dfs(i):
        stack = [(i, iter(succ[i]))]
        seen.add(i)
        while stack:
            x, it = stack[-1]
            for y in it:
                if y not in seen:
                    seen.add(y)
                    stack.append((y, iter(succ[y])))
                    break
            else:
                stack.pop()
                order.append(x)
    dfs(0)
    rpo = order[::-1]
    num = {b: i for i, b in enumerate(rpo)}
    idom = {0: 0}
    changed = True
    while changed:
        changed = False
        for b in rpo:
            if b == 0:
                continue
            ps = [p for p in pred[b] if p in idom]
            if not ps:
                continue
            x = ps[0]
            for p in ps[1:]:
                y = p
                while x != y:
                    while num[x] > num[y]:
                        x = idom[x]
                    while num[y] > num[x]:
                        y = idom[y]
            if idom.get(b) != x:
                idom[b] = x
                changed = True

    def dominates(a, b):
        while True:
            if a == b:
                return True
            if b == 0 or b not in idom:
                return False
            b = idom[b]
    loops = {}
    for i in rpo:
        for j in succ[i]:
            if dominates(j, i):
                body = loops.setdefault(j, {j})
                st = [i]
                while st:
                    x = st.pop()
                    if x in body:
                        continue
                    body.add(x)
                    st.extend(p for p in pred[x] if p in num)
    return loops
