"""Hash-consed first-order terms: reals (R), mathematical integers (I), booleans (B).

Reals:  const(Fraction) var(name) add mul div neg sqrt fabs pow fn(name,..) ite sel(base,idx) i2r
Ints :  python int, or T('poly') = canonical integer polynomial over atoms; atoms are
        var, sel(base,idx), idiv, irem, ite, and, or, xor, shl, r2i, fn
Bools:  python bool, or T with op in lt le eq (over R or I), not, and, or, var, ite
"""
from fractions import Fraction

_tab = {}


class T:
    __slots__ = ('op', 'args', 'sort', 'id', '_h')

    def __repr__(self):
        return pp(self, 4)


def mk(sort, op, *args):
    key = (sort, op) + tuple(('#', a.id) if isinstance(a, T) else a for a in args)
    t = _tab.get(key)
    if t is None:
        t = T()
        t.sort = sort
        t.op = op
        t.args = args
        t.id = len(_tab)
        t._h = hash(t.id)
        _tab[key] = t
    return t


# ---------------------------------------------------------------- reals
def rconst(v):
    if isinstance(v, float):
        if v != v or v in (float('inf'), float('-inf')):
            return mk('R', 'special', repr(v))
        v = Fraction(repr(v))
    return mk('R', 'const', Fraction(v))


R0 = rconst(0)
R1 = rconst(1)
RM1 = rconst(-1)


def rvar(name):
    return mk('R', 'var', name)


def isc(a):
    return a.op == 'const'


def radd(a, b):
    if isc(a):
        if isc(b):
            return rconst(a.args[0] + b.args[0])
        if a.args[0] == 0:
            return b
    elif isc(b) and b.args[0] == 0:
        return a
    if a.id > b.id:
        a, b = b, a
    return mk('R', 'add', a, b)


def rneg(a):
    if isc(a):
        return rconst(-a.args[0])
    if a.op == 'neg':
        return a.args[0]
    return mk('R', 'neg', a)


def rsub(a, b):
    if a is b:
        return R0
    return radd(a, rneg(b))


def rmul(a, b):
    if isc(a):
        if isc(b):
            return rconst(a.args[0] * b.args[0])
        if a.args[0] == 0:
            return R0
        if a.args[0] == 1:
            return b
        if a.args[0] == -1:
            return rneg(b)
    elif isc(b):
        return rmul(b, a)
    if a.op == 'neg':
        return rneg(rmul(a.args[0], b))
    if b.op == 'neg':
        return rneg(rmul(a, b.args[0]))
    if a.id > b.id:
        a, b = b, a
    return mk('R', 'mul', a, b)


def rdiv(a, b):
    if isc(b) and b.args[0] != 0:
        return rmul(rconst(1 / b.args[0]), a)
    if isc(a) and a.args[0] == 0:
        return R0
    if a is b:
        return R1
    if b.op == 'neg':
        return rneg(rdiv(a, b.args[0]))
    if a.op == 'neg':
        return rneg(rdiv(a.args[0], b))
    return mk('R', 'div', a, b)


def rsqrt(a):
    if isc(a):
        q = a.args[0]
        import math
        if q >= 0:
            n, d = math.isqrt(q.numerator), math.isqrt(q.denominator)
            if n * n == q.numerator and d * d == q.denominator:
                return rconst(Fraction(n, d))
    return mk('R', 'sqrt', a)


def rabs(a):
    if isc(a):
        return rconst(abs(a.args[0]))
    if a.op == 'neg':
        a = a.args[0]
    if a.op in ('sqrt', 'fabs'):
        return a
    return mk('R', 'fabs', a)


def rmax(a, b):
    if a is b:
        return a
    if isc(a) and isc(b):
        return rconst(max(a.args[0], b.args[0]))
    if a.id > b.id:
        a, b = b, a
    return mk('R', 'max', a, b)


def rmin(a, b):
    return rneg(rmax(rneg(a), rneg(b)))


def rpow(a, b):
    if isc(b):
        e = b.args[0]
        if e.denominator == 1 and abs(e) <= 16:
            n = int(e)
            r = R1
            for _ in range(abs(n)):
                r = rmul(r, a)
            return r if n >= 0 else rdiv(R1, r)
        if e.denominator == 2 and abs(e) <= 16:
            s = rsqrt(a)
            n = int((abs(e) - Fraction(1, 2)))
            r = s
            for _ in range(n):
                r = rmul(r, a)
            return r if e > 0 else rdiv(R1, r)
    return mk('R', 'pow', a, b)


def rfn(name, *args):
    if name == 'cos' and isc(args[0]) and args[0].args[0] == 0:
        return R1
    if name == 'sin' and isc(args[0]) and args[0].args[0] == 0:
        return R0
    return mk('R', 'fn', name, *args)


def rite(c, a, b):
    if c is True:
        return a
    if c is False:
        return b
    if a is b:
        return a
    if c.op == 'not':
        return rite(c.args[0], b, a)
    if c.op == 'lt':
        x, y = c.args
        if a is y and b is x:
            return rmax(x, y)
        if a is x and b is y:
            return rmin(x, y)
    return mk('R', 'ite', c, a, b)


def i2r(a):
    if isinstance(a, int):
        return rconst(a)
    return mk('R', 'i2r', a)


# ---------------------------------------------------------------- integers
def ivar(name):
    return _ipoly({(mk('I', 'var', name),): 1})


def iatom(t):
    """wrap an atom term into a polynomial"""
    return _ipoly({(t,): 1})


def _ipoly(d):
    d = {m: c for m, c in d.items() if c}
    if not d:
        return 0
    if len(d) == 1:
        (m, c), = d.items()
        if m == ():
            return c
    items = tuple(sorted(((tuple(m), c) for m, c in d.items()), key=lambda x: tuple(a.id for a in x[0])))
    key = ('I', 'poly', tuple((tuple(a.id for a in m), c) for m, c in items))
    t = _tab.get(key)
    if t is None:
        t = T()
        t.sort = 'I'
        t.op = 'poly'
        t.args = items
        t.id = len(_tab)
        t._h = hash(t.id)
        _tab[key] = t
    return t


def idict(a):
    if isinstance(a, int):
        return {(): a} if a else {}
    return dict(a.args)


def iadd(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a + b
    d = idict(a)
    for m, c in idict(b).items():
        d[m] = d.get(m, 0) + c
    return _ipoly(d)


def ineg(a):
    if isinstance(a, int):
        return -a
    return _ipoly({m: -c for m, c in a.args})


def isub(a, b):
    return iadd(a, ineg(b))


def imul(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a * b
    d = {}
    for m, c in idict(a).items():
        for n, e in idict(b).items():
            k = tuple(sorted(m + n, key=lambda t: t.id))
            d[k] = d.get(k, 0) + c * e
    return _ipoly(d)


def idivexact(a, k):
    """a / k when every coefficient is a multiple of k, else None"""
    if isinstance(a, int):
        return a // k if a % k == 0 else None
    d = {}
    for m, c in a.args:
        if c % k:
            return None
        d[m] = c // k
    return _ipoly(d)


def isub1(a, k):
    return isub(a, k)


def iop(name, *args):
    return iatom(mk('I', name, *args))


def iite(c, a, b):
    if c is True:
        return a
    if c is False:
        return b
    if a is b or (isinstance(a, int) and isinstance(b, int) and a == b):
        return a
    if c.op == 'not':
        return iite(c.args[0], b, a)
    return iatom(mk('I', 'ite', c, a, b))


def as_atom(a):
    """the atom if the integer term is exactly one atom"""
    if isinstance(a, T) and a.op == 'poly' and len(a.args) == 1:
        m, c = a.args[0]
        if c == 1 and len(m) == 1:
            return m[0]
    return None


def b01(v):
    """the boolean of an integer term that can only be 0 or 1, else None"""
    if isinstance(v, int):
        return bool(v) if v in (0, 1) else None
    if not isinstance(v, T) or v.sort != 'I':
        return None
    a = as_atom(v)
    if a is None:
        if v.op == 'poly' and len(v.args) == 2 and dict(v.args).get(()) == 1:
            m = isub(1, v)
            a = as_atom(m)
            if a is not None:
                x = b01(m)
                return None if x is None else bnot(x)
        return None
    if a.op != 'ite':
        return None
    x, y = b01(a.args[1]), b01(a.args[2])
    if x is None or y is None:
        return None
    return bite(a.args[0], x, y)


# ---------------------------------------------------------------- booleans
def bnot(a):
    if isinstance(a, bool):
        return not a
    if a.op == 'not':
        return a.args[0]
    return mk('B', 'not', a)


def band(*xs):
    out = []
    for x in xs:
        if x is False:
            return False
        if x is True:
            continue
        if isinstance(x, T) and x.op == 'and':
            out.extend(x.args)
        else:
            out.append(x)
    if not out:
        return True
    if len(out) == 1:
        return out[0]
    return mk('B', 'and', *out)


def bor(*xs):
    return bnot(band(*[bnot(x) for x in xs]))


def bite(c, a, b):
    if c is True:
        return a
    if c is False:
        return b
    if a is b:
        return a
    if a is True and b is False:
        return c
    if a is False and b is True:
        return bnot(c)
    if a is True:
        return bor(c, b)
    if a is False:
        return band(bnot(c), b)
    if b is True:
        return bor(bnot(c), a)
    if b is False:
        return band(c, a)
    return mk('B', 'ite', c, a, b)


def blt(a, b):
    """a < b over reals"""
    if isc(a) and isc(b):
        return a.args[0] < b.args[0]
    if a is b:
        return False
    return mk('B', 'lt', a, b)


def ble(a, b):
    return bnot(blt(b, a))


def beq(a, b):
    if a is b:
        return True
    if isc(a) and isc(b):
        return a.args[0] == b.args[0]
    if a.id > b.id:
        a, b = b, a
    return mk('B', 'eq', a, b)


def ilt(a, b):
    """a < b over ints: canonical  0 < b - a"""
    d = isub(b, a)
    if isinstance(d, int):
        return d > 0
    return mk('B', 'ipos', d)  # d > 0, i.e. d >= 1


def ile(a, b):
    return bnot(ilt(b, a))


def ieq(a, b):
    d = isub(a, b)
    if isinstance(d, int):
        return d == 0
    # canonical sign
    if d.args[0][1] < 0:
        d = ineg(d)
    from math import gcd
    g = 0
    c0 = 0
    for m, c in d.args:
        if m == ():
            c0 = c
        else:
            g = gcd(g, c)
    if g > 1:
        if c0 % g:
            return False
        d = idivexact(d, g)
    return mk('B', 'izero', d)


def bvar(name):
    return mk('B', 'var', name)


# ---------------------------------------------------------------- utilities
def pp(t, depth=6):
    if not isinstance(t, T):
        return repr(t)
    if t.op == 'const':
        return str(t.args[0])
    if t.op == 'var':
        return str(t.args[0])
    if depth == 0:
        return '..'
    if t.op == 'poly':
        return '(' + ' + '.join(('%d' % c) + ''.join('*' + pp(a, depth - 1) for a in m) for m, c in t.args) + ')'
    return '%s(%s)' % (t.op, ', '.join(pp(a, depth - 1) if isinstance(a, T) else str(a) for a in t.args))


def children(t):
    if t.op == 'poly':
        for m, c in t.args:
            for a in m:
                yield a
    else:
        for a in t.args:
            if isinstance(a, T):
                yield a


def postorder(roots):
    seen = set()
    out = []
    stack = [(r, False) for r in roots if isinstance(r, T)]
    while stack:
        t, done = stack.pop()
        if done:
            out.append(t)
            continue
        if t.id in seen:
            continue
        seen.add(t.id)
        stack.append((t, True))
        for c in children(t):
            if c.id not in seen:
                stack.append((c, False))
    return out


def rebuild(t, args):
    """rebuild a term from new children (list in children() order)"""
    op = t.op
    it = iter(args)
    if op == 'poly':
        r = 0
        for m, c in t.args:
            mono = c
            for a in m:
                mono = imul(mono, next(it))
            r = iadd(r, mono)
        return r
    na = [next(it) if isinstance(a, T) else a for a in t.args]
    return REB[(t.sort, op)](*na) if (t.sort, op) in REB else (
        iatom(mk('I', op, *na)) if t.sort == 'I' else mk(t.sort, op, *na))


REB = {
    ('R', 'add'): radd, ('R', 'mul'): rmul, ('R', 'div'): rdiv, ('R', 'neg'): rneg, ('R', 'sqrt'): rsqrt,
    ('R', 'fabs'): rabs, ('R', 'max'): rmax, ('R', 'pow'): rpow, ('R', 'ite'): rite, ('R', 'i2r'): i2r,
    ('R', 'fn'): rfn,
    ('I', 'ite'): iite,
    ('B', 'not'): bnot, ('B', 'and'): band, ('B', 'ite'): bite, ('B', 'lt'): blt, ('B', 'eq'): beq,
    ('B', 'ipos'): lambda d: ilt(0, d), ('B', 'izero'): lambda d: ieq(d, 0),
}


def substitute(roots, mapping):
    """mapping: {term id: replacement}; integer atoms map to integer polys"""
    memo = dict(mapping)
    for t in postorder(roots):
        if t.id in memo:
            continue
        ch = [memo.get(c.id, c if c.op == 'poly' or c.sort != 'I' else iatom(c)) for c in children(t)]
        old = list(children(t))
        if all((n is o) or (o.sort == 'I' and o.op != 'poly' and n is iatom(o)) for n, o in zip(ch, old)):
            memo[t.id] = t if (t.sort != 'I' or t.op == 'poly') else iatom(t)
        else:
            memo[t.id] = rebuild(t, ch)
    return [memo.get(r.id, r) if isinstance(r, T) else r for r in roots]
