"""Canonical form of square roots: the argument is factored into irreducible polynomials (exact, sympy); square
factors and factors known to be positive are taken out, so equal roots written differently become equal terms."""
from fractions import Fraction
from .terms import *

_fac = {}


def to_poly(t, syms, budget):
    """(numerator, denominator) as sympy expressions over atoms"""
    import sympy
    memo = {}
    for s in postorder([t]):
        op, a = s.op, s.args
        if s.sort != 'R':
            continue
        if op == 'const':
            e = sympy.Rational(a[0].numerator, a[0].denominator)
        elif op == 'add':
            e = memo[a[0].id] + memo[a[1].id]
        elif op == 'mul':
            e = memo[a[0].id] * memo[a[1].id]
        elif op == 'neg':
            e = -memo[a[0].id]
        elif op == 'div':
            e = memo[a[0].id] / memo[a[1].id]
        else:
            k = 'x%d' % s.id
            syms[k] = s
            e = sympy.Symbol(k)
        memo[s.id] = e
    return memo[t.id]


def from_expr(e, syms):
    import sympy
    p = sympy.Poly(e)
    gens = [syms[str(g)] for g in p.gens]
    r = R0
    for mon, c in sorted(p.terms()):
        q = sympy.Rational(c)
        m = rconst(Fraction(int(q.p), int(q.q)))
        for g, k in zip(gens, mon):
            for _ in range(k):
                m = rmul(m, g)
        r = radd(r, m)
    return r


def reduce(e, syms, params):
    """modulo x^2 + y^2 = 1 for the unit vectors among the atoms"""
    import sympy
    by = {}
    for k, s in syms.items():
        if s.op == 'var' and s.args[0] in params:
            kind, tt = params[s.args[0]]
            by.setdefault(tt, {})[kind] = sympy.Symbol(k)
    for d in by.values():
        if 'cos' in d and 'sin' in d and not e.is_number:
            p = sympy.Poly(e, d['sin'])
            if p.degree() >= 2:
                r = 0
                for (k,), c in p.terms():
                    r += c * (1 - d['cos'] ** 2) ** (k // 2) * d['sin'] ** (k % 2)
                e = sympy.expand(r)
    return e


def unroot(e, syms):
    """modulo s^2 = x for the atoms s = sqrt(x); a rational expression"""
    import sympy
    num, den = sympy.fraction(sympy.together(e))
    for _ in range(8):
        rt = sorted((k for k, s in syms.items() if s.op == 'sqrt'), key=lambda k: -syms[k].id)
        done = True
        for k in rt:
            x = sympy.Symbol(k)
            ch = False
            parts = []
            for p in (num, den):
                p = sympy.expand(p)
                if p.has(x):
                    q = sympy.Poly(p, x)
                    if q.degree() >= 2:
                        arg = to_poly(syms[k].args[0], syms, 0)
                        p = sum(c * arg ** (n // 2) * x ** (n % 2) for (n,), c in q.terms())
                        ch = True
                parts.append(p)
            if ch:
                num, den = sympy.fraction(sympy.cancel(sympy.together(parts[0] / parts[1])))
                done = False
        if done:
            break
    return num, den


def factors(t, params=None):
    """(constant, [(factor term, exponent)]) or None when too large"""
    if t.id in _fac:
        return _fac[t.id]
    r = None
    nodes = [s for s in postorder([t]) if s.sort == 'R']
    if len(nodes) <= 120:
        import sympy
        syms = {}
        try:
            e = to_poly(t, syms, 0)
            if len(syms) <= 12:
                num, den = unroot(e, syms)
                if params:
                    num, den = reduce(num, syms, params), reduce(den, syms, params)
                    num, den = sympy.fraction(sympy.cancel(num / den))
                out = []
                const = Fraction(1)
                for ex, sg in ((num, 1), (den, -1)):
                    if ex.is_number:
                        q = sympy.Rational(ex)
                        const *= Fraction(int(q.p), int(q.q)) ** sg
                        continue
                    c, fs = sympy.factor_list(ex)
                    q = sympy.Rational(c)
                    const *= Fraction(int(q.p), int(q.q)) ** sg
                    for f, k in fs:
                        out.append((from_expr(f, syms), k * sg))
                r = (const, out)
        except Exception:
            r = None
    _fac[t.id] = r
    return r


def simplify_sqrt(eng, st, x):
    if x.op == 'const':
        return rsqrt(x)
    key = x.id
    f = factors(x, eng.params)
    if f is None:
        return rsqrt(x)
    sc = eng.signs(st)
    const, fs = f
    out = R1
    rest = R1
    sign = 1 if const > 0 else -1
    const = abs(const)
    for t, k in fs:
        s = sc.signset(t)
        if s == {-1}:
            t = rneg(t)
            if k % 2:
                sign = -sign
            s = {1}
        h = abs(k) // 2
        if h:
            a = t if s == {1} else eng.fabs(st, t)
            for _ in range(h):
                out = rmul(out, a) if k > 0 else rdiv(out, a)
        if k % 2:
            if s == {1}:
                q = rsqrt(t)
                out = rmul(out, q) if k > 0 else rdiv(out, q)
            else:
                rest = rmul(rest, t)     # odd power of a factor of unknown sign; 1/f and f have the same root up to |f|
                if k < 0:
                    out = rdiv(out, eng.fabs(st, t))
    rest = rmul(rconst(sign * const), rest)
    return rmul(out, rsqrt(rest))
