"""Exact symbolic differentiation of real terms (path conditions hold in an open neighbourhood)."""
from .terms import *

_memo = {}


def diff(t, v):
    for s in postorder([t]):
        if s.sort != 'R':
            continue
        key = (s.id, v.id)
        if key not in _memo:
            _memo[key] = _d(s, v)
    return _memo[(t.id, v.id)]


def _d(t, v):
    op, a = t.op, t.args

    def d(x):
        return _memo[(x.id, v.id)]
    if t is v:
        return R1
    if op in ('const', 'var', 'sel', 'i2r', 'special'):
        return R0
    if op == 'add':
        return radd(d(a[0]), d(a[1]))
    if op == 'neg':
        return rneg(d(a[0]))
    if op == 'mul':
        return radd(rmul(d(a[0]), a[1]), rmul(a[0], d(a[1])))
    if op == 'div':
        n = d(a[0])
        m = d(a[1])
        if m is R0:
            return rdiv(n, a[1])
        return rdiv(rsub(n, rmul(t, m)), a[1])
    if op == 'sqrt':
        m = d(a[0])
        if m is R0:
            return R0
        return rdiv(m, rmul(rconst(2), t))
    if op == 'fabs':
        m = d(a[0])
        if m is R0:
            return R0
        return rmul(rdiv(t, a[0]), m)
    if op == 'max':
        x, y = d(a[0]), d(a[1])
        return x if x is y else rite(blt(a[0], a[1]), y, x)
    if op == 'ite':
        return rite(a[0], d(a[1]), d(a[2]))
    if op == 'pow':
        if d(a[1]) is R0:
            m = d(a[0])
            if m is R0:
                return R0
            return rdiv(rmul(rmul(a[1], t), m), a[0])
        return radd(rmul(t, rmul(d(a[1]), rfn('log', a[0]))), rdiv(rmul(rmul(a[1], t), d(a[0])), a[0]))
    if op == 'fn':
        if all(d(x) is R0 for x in a[1:]):
            return R0
        f, x = a[0], a[1]
        if f == 'exp':
            return rmul(t, d(x))
        if f == 'log':
            return rdiv(d(x), x)
        if f == 'sin':
            return rmul(rfn('cos', x), d(x))
        if f == 'cos':
            return rneg(rmul(rfn('sin', x), d(x)))
        if f == 'tanh':
            return rmul(rsub(R1, rmul(t, t)), d(x))
    raise NotImplementedError('diff ' + op)
