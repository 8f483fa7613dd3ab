"""Translation of terms to z3 and solver queries."""
import z3
from .terms import T, postorder, children
from fractions import Fraction

_ufs = {}


def uf(name, *sorts):
    k = (name,) + tuple(str(s) for s in sorts)
    f = _ufs.get(k)
    if f is None:
        f = z3.Function(name, *sorts)
        _ufs[k] = f
    return f


class Tr:
    """translator with side constraints for sqrt / fabs / div"""

    def __init__(self, abstract_div=False):
        self.memo = {}
        self.side = []
        self.n = 0

    def __call__(self, t):
        if isinstance(t, bool):
            return z3.BoolVal(t)
        if isinstance(t, int):
            return z3.IntVal(t)
        if t.id in self.memo:
            return self.memo[t.id]
        for s in postorder([t]):
            if s.id not in self.memo:
                self.memo[s.id] = self.one(s)
        return self.memo[t.id]

    def g(self, a):
        if isinstance(a, bool):
            return z3.BoolVal(a)
        if isinstance(a, int):
            return z3.IntVal(a)
        return self.memo[a.id]

    def one(self, t):
        op, a, g = t.op, t.args, self.g
        if t.sort == 'R':
            if op == 'const':
                return z3.RealVal(a[0])
            if op == 'var':
                return z3.Real(a[0])
            if op == 'add':
                return g(a[0]) + g(a[1])
            if op == 'mul':
                return g(a[0]) * g(a[1])
            if op == 'neg':
                return -g(a[0])
            if op == 'div':
                return g(a[0]) / g(a[1])
            if op == 'sqrt':
                self.n += 1
                s = z3.Real('sqrt!%d' % t.id)
                self.side += [s >= 0, z3.Implies(g(a[0]) >= 0, s * s == g(a[0]))]
                return s
            if op == 'fabs':
                x = g(a[0])
                return z3.If(x >= 0, x, -x)
            if op == 'ite':
                return z3.If(g(a[0]), g(a[1]), g(a[2]))
            if op == 'max':
                return z3.If(g(a[0]) >= g(a[1]), g(a[0]), g(a[1]))
            if op == 'sel':
                return uf(a[0], z3.IntSort(), z3.RealSort())(g(a[1]))
            if op == 'i2r':
                return z3.ToReal(g(a[0]))
            if op in ('pow', 'fn', 'special'):
                nm = 'pow' if op == 'pow' else (str(a[0]))
                ar = [g(x) for x in a if isinstance(x, T)]
                if not ar:
                    return z3.Real('special!' + nm)
                return uf('f!' + nm, *([z3.RealSort()] * (len(ar) + 1)))(*ar)
        elif t.sort == 'I':
            if op == 'poly':
                s = []
                for m, c in a:
                    e = z3.IntVal(c)
                    for x in m:
                        e = e * g(x)
                    s.append(e)
                return z3.Sum(s) if len(s) > 1 else s[0]
            if op == 'var':
                return z3.Int(a[0])
            if op == 'sel':
                return uf(a[0], z3.IntSort(), z3.IntSort())(g(a[1]))
            if op == 'idiv':
                return g(a[0]) / g(a[1])
            if op == 'irem':
                return g(a[0]) % g(a[1])
            if op == 'ite':
                return z3.If(g(a[0]), g(a[1]), g(a[2]))
            nm = 'i!' + op + ''.join('_' + str(x) for x in a if not isinstance(x, (T, int)))
            ar = [g(x) for x in a if isinstance(x, (T, int))]
            sorts = [x.sort() for x in ar]
            return uf(nm, *(sorts + [z3.IntSort()]))(*ar)
        else:
            if op == 'var':
                return z3.Bool(a[0])
            if op == 'lt':
                return g(a[0]) < g(a[1])
            if op == 'eq':
                return g(a[0]) == g(a[1])
            if op == 'ipos':
                return g(a[0]) > 0
            if op == 'izero':
                return g(a[0]) == 0
            if op == 'not':
                return z3.Not(g(a[0]))
            if op == 'and':
                return z3.And(*[g(x) for x in a])
            if op == 'ite':
                return z3.If(g(a[0]), g(a[1]), g(a[2]))
        raise NotImplementedError(t.sort + ':' + op)


_isint = {}


def is_int_only(t):
    """boolean term whose leaves are integer comparisons / boolean vars only"""
    if isinstance(t, bool):
        return True
    r = _isint.get(t.id)
    if r is None:
        r = all(s.sort != 'R' for s in postorder([t]))
        _isint[t.id] = r
    return r


class IntSolver:
    """Satisfiability of integer path conditions, with a cache."""

    def __init__(self):
        self.tr = Tr()
        self.cache = {}
        self.slv = z3.Solver()
        self.slv.set('timeout', 2000)
        self.stack = []
        self.calls = 0
        self.time = 0.0

    def sat(self, conds):
        """conds: iterable of integer-only B terms. Returns True (sat or unknown) / False (unsat)"""
        key = frozenset(c.id for c in conds if isinstance(c, T))
        for c in conds:
            if c is False:
                return False
        r = self.cache.get(key)
        if r is not None:
            return r
        import time
        t0 = time.time()
        cs = [c for c in conds if isinstance(c, T)]
        # incremental: keep the common prefix of the assertions of the previous query
        k = 0
        while k < len(self.stack) and k < len(cs) and self.stack[k] == cs[k].id:
            k += 1
        if k < len(self.stack):
            self.slv.pop(len(self.stack) - k)
            del self.stack[k:]
        for c in cs[k:]:
            self.slv.push()
            self.slv.add(self.tr(c))
            self.stack.append(c.id)
        res = self.slv.check()
        if res == z3.unknown:
            s = z3.Solver()
            s.set('timeout', 5000)
            s.add(*[self.tr(c) for c in cs])
            res = s.check()
        self.calls += 1
        self.time += time.time() - t0
        r = res != z3.unsat
        self.cache[key] = r
        return r


def z3_prove(hyps, goal, timeout_ms=10000, want_model=False):
    """hyps |- goal over reals/ints: 'proved' | 'refuted' | 'unknown' (+model)"""
    tr = Tr()
    s = z3.Solver()
    s.set('timeout', timeout_ms)
    hz = [tr(h) for h in hyps]
    gz = tr(goal)
    for h in hz:
        s.add(h)
    s.add(z3.Not(gz))
    for c in tr.side:
        s.add(c)
    r = s.check()
    if r == z3.unsat:
        return ('proved', None)
    if r == z3.sat:
        return ('refuted', s.model() if want_model else None)
    return ('unknown', None)


def smt2(hyps, goal):
    tr = Tr()
    s = z3.Solver()
    for h in hyps:
        s.add(tr(h))
    s.add(z3.Not(tr(goal)))
    for c in tr.side:
        s.add(c)
    return s.to_smt2()
