"""Algebraic back end: decides  hyps |- a = b  for terms built from field operations, square roots, |.| and
uninterpreted functions, by exact evaluation in large prime fields at random points (Schwartz-Zippel).

Both sides are rational functions over Q (extended by square roots s with s^2 = arg).  If a - b is not identically
zero, its numerator (its norm, where square roots occur) is a nonzero polynomial whose degree is bounded by the
number computed here from the term DAG; a random point of F_p is then a root with probability <= degree/p.  The
bound for the accepted obligations is reported (it is below 2^-300).  A disagreement at any point refutes the
identity outright.
"""
import hashlib
from .terms import children

P521 = 2**521 - 1
P607 = 2**607 - 1
P2203 = 2**2203 - 1


class Undef(Exception):
    pass


class Point:
    """one random point: memoised values of terms"""

    def __init__(self, seed, p, params, forced=None, gensqrt=False):
        self.seed = seed
        self.p = p
        self.memo = {}
        self.params = params          # var name -> ('cos'|'sin', t)
        self.forced = forced or {}    # condition class / fabs class -> bool / sign
        self.gensqrt = gensqrt
        self.hc = {}

    def h(self, *key):
        k = repr(key)
        v = self.hc.get(k)
        if v is None:
            s = ('%s|%s' % (self.seed, k)).encode()
            n = self.p.bit_length() // 8 + 16
            v = int.from_bytes(hashlib.shake_256(s).digest(n), 'big') % self.p
            self.hc[k] = v
        return v

    def canon(self, v):
        """(representative, sign) of the class {v, -v}"""
        m = self.p - v if v else 0
        return (v, 1) if v <= m or v == 0 else (m, -1)

    def ev(self, t):
        if isinstance(t, bool):
            return 1 if t else 0
        if isinstance(t, int):
            return t % self.p
        m = self.memo
        if t.id in m:
            return m[t.id]
        stack = [t]
        from .terms import children
        while stack:
            x = stack[-1]
            if x.id in m:
                stack.pop()
                continue
            todo = [c for c in children(x) if c.id not in m]
            if todo:
                stack.extend(todo)
                continue
            m[x.id] = self.one(x)
            stack.pop()
        return m[t.id]

    def g(self, x):
        if isinstance(x, bool):
            return 1 if x else 0
        if isinstance(x, int):
            return x % self.p
        return self.memo[x.id]

    def inv(self, v):
        if v == 0:
            raise Undef('division by zero')
        return pow(v, -1, self.p)

    def one(self, t):
        op, a, g, p = t.op, t.args, self.g, self.p
        if t.sort == 'R':
            if op == 'const':
                f = a[0]
                return f.numerator * pow(f.denominator, -1, p) % p
            if op == 'add':
                return (g(a[0]) + g(a[1])) % p
            if op == 'mul':
                return g(a[0]) * g(a[1]) % p
            if op == 'neg':
                return -g(a[0]) % p
            if op == 'div':
                return g(a[0]) * self.inv(g(a[1])) % p
            if op == 'var':
                q = self.params.get(a[0])
                if q:
                    tt = self.h('param', q[1])
                    d = self.inv((1 + tt * tt) % p)
                    return (1 - tt * tt) * d % p if q[0] == 'cos' else 2 * tt * d % p
                return self.h('v', a[0])
            if op == 'sqrt':
                v = g(a[0])
                if self.gensqrt:
                    return self.h('sqrt', v)
                if v == 0:
                    return 0
                s = pow(v, (p + 1) // 4, p)
                if s * s % p != v:
                    raise Undef('nonresidue')
                return min(s, p - s)
            if op == 'fabs':
                v = g(a[0])
                c, s = self.canon(v)
                if c == 0:
                    return 0
                f = self.forced.get(('sgn', t.id))
                if f is not None:
                    return v * f % p
                return self.h('fabs', c)
            if op == 'max':
                A, B = g(a[0]), g(a[1])
                c = self.canon((A - B) % p)[0]
                f = self.h('fabs', c) if c else 0
                return (A + B + f) * ((p + 1) // 2) % p
            if op == 'ite':
                x = self.cond(a[0])
                A, B = g(a[1]), g(a[2])
                return (B + x * (A - B)) % p
            if op == 'sel':
                return self.h('sel', a[0], g(a[1]))
            if op == 'i2r':
                return g(a[0])
            if op == 'special':
                return self.h('special', a[0])
            if op in ('pow', 'fn'):
                return self.h(op, *[g(x) if not isinstance(x, str) else x for x in a])
        elif t.sort == 'I':
            if op == 'poly':
                r = 0
                for m, c in a:
                    e = c
                    for x in m:
                        e = e * g(x) % p
                    r += e
                return r % p
            if op == 'var':
                return self.h('iv', a[0])
            if op == 'sel':
                return self.h('isel', a[0], g(a[1]))
            if op == 'ite':
                x = self.cond(a[0])
                A, B = g(a[1]), g(a[2])
                return (B + x * (A - B)) % p
            return self.h('iop', op, *[g(x) if not isinstance(x, str) else x for x in a])
        else:
            return 0    # boolean nodes are evaluated by cond()
        raise Undef('term ' + op)

    def cond(self, c):
        """generic value of the characteristic function of a condition"""
        if isinstance(c, bool):
            return 1 if c else 0
        f = self.forced.get(('c', c.id))
        if f is not None:
            return 1 if f else 0
        op, a = c.op, c.args
        p = self.p
        if op == 'not':
            return (1 - self.cond(a[0])) % p
        if op == 'and':
            r = 1
            for v in sorted({self.cond(x) for x in a}):
                r = r * v % p
            return r
        if op == 'lt':
            d = (self.ev(a[1]) - self.ev(a[0])) % p
            if d == 0:
                return 0
            return self.h('lt', d)
        if op == 'eq':
            d = (self.ev(a[1]) - self.ev(a[0])) % p
            if d == 0:
                return 1
            return self.h('eq', self.canon(d)[0])
        if op == 'ipos':
            return self.h('ipos', self.ev(a[0]))
        if op == 'izero':
            return self.h('izero', self.canon(self.ev(a[0]))[0])
        if op == 'var':
            return self.h('b', a[0])
        if op == 'ite':
            x = self.cond(a[0])
            A, B = self.cond(a[1]), self.cond(a[2])
            return (B + x * (A - B)) % p
        raise Undef('cond ' + op)


def degree(roots, params):
    """(numerator degree, denominator degree, number of square roots) bounds"""
    from .terms import postorder, T
    D = {}
    nsq = 0

    def g(x):
        return D[x.id] if isinstance(x, T) else (0, 0)
    for t in postorder(roots):
        op, a = t.op, t.args
        if t.sort == 'B':
            D[t.id] = (1, 0)
            continue
        if op == 'const':
            d = (0, 0)
        elif op == 'var':
            d = (2, 2) if t.sort == 'R' and a[0] in params else (1, 0)
        elif op == 'add':
            x, y = g(a[0]), g(a[1])
            if x[1] == 0 or y[1] == 0:
                d = (max(x[0] + y[1], y[0] + x[1]), x[1] + y[1])
            else:
                d = (max(x[0] + y[1], y[0] + x[1]), x[1] + y[1])
        elif op == 'mul':
            x, y = g(a[0]), g(a[1])
            d = (x[0] + y[0], x[1] + y[1])
        elif op == 'div':
            x, y = g(a[0]), g(a[1])
            d = (x[0] + y[1], x[1] + y[0])
        elif op == 'neg' or op == 'i2r':
            d = g(a[0])
        elif op in ('sqrt', 'fabs'):
            d = g(a[0])
            nsq += 1
        elif op == 'max':
            x, y = g(a[0]), g(a[1])
            d = (max(x[0] + y[1], y[0] + x[1]) + 1, x[1] + y[1])
        elif op == 'ite':
            x, y = g(a[1]), g(a[2])
            d = (max(x[0] + y[1], y[0] + x[1]) + 1, x[1] + y[1])
        elif op == 'poly':
            n = 0
            for m, c in a:
                n = max(n, sum(g(x)[0] for x in m))
            d = (n, 0)
        else:
            d = (1, 0)
        D[t.id] = d
    return max([g(r)[0] + g(r)[1] for r in roots if isinstance(r, T)] + [1]), nsq


class Pit:
    def __init__(self, params=None, seed='fv'):
        self.params = params if params is not None else {}
        self.seed = seed
        self.points = {}
        self.nchecks = 0
        self.indep = {}
        self.varcls = {}
        self.sumreg = {}
        self.varseen = set()
        self.minbits = None

    def point(self, i, p, gen=False):
        k = (i, p, gen)
        if k not in self.points:
            self.points[k] = Point('%s/%d' % (self.seed, i), p, self.params, gensqrt=gen)
        return self.points[k]

    def prune_cache(self):
        if len(self.points) > 400:
            self.points = {}

    def diffs(self, a, b, forced=None, k=3, tries=600):
        """True: a = b identically; False: differs; None: undefined.  Also counts points"""
        self.nchecks += 1
        got = 0
        undef = 0
        # generic square roots first (cheap)
        if forced is None:
            pt = self.point(0, P521, True)
            try:
                if pt.ev(a) == pt.ev(b):
                    ok = True
                    for i in range(1, k):
                        q = self.point(i, P521, True)
                        if q.ev(a) != q.ev(b):
                            ok = False
                    q = self.point(0, P607, True)
                    if ok and q.ev(a) == q.ev(b):
                        return True
            except Undef:
                pass
        if not self.independent([x for x in (a, b)]):
            return None
        for i in range(tries):
            pr = P521 if got != 1 else P607
            if forced:
                pt = Point('%s/%d' % (self.seed, i), pr, self.params, forced=forced)
            else:
                pt = self.point(i, pr)
            try:
                if pt.ev(a) != pt.ev(b):
                    return False
                got += 1
                if got >= k:
                    return True
            except Undef:
                undef += 1
                continue
        return None if got == 0 else True

    def independent(self, roots):
        """the square roots occurring in the terms are independent (no product of a subset of their arguments is a
        square), certified by quadratic characters at sample points; then agreement for one choice of roots implies
        agreement for all"""
        from .terms import postorder
        args = {}
        level = {}
        for t in postorder(roots):
            lv = 0
            for c in children(t):
                lv = max(lv, level.get(c.id, 0))
            if t.op == 'sqrt':
                args.setdefault(t.args[0].id, (t.args[0], lv))
                lv += 1
            level[t.id] = lv
        # one extension of the tower per nesting level; merge arguments with equal values
        stages = {}
        try:
            for a, lv in args.values():
                stages.setdefault(lv, {}).setdefault(self.point(0, P521, True).ev(a), a)
        except Undef:
            return False
        return all(self.indep_stage(list(st.values())) for st in stages.values())

    def indep_stage(self, args):
        """no product of a nonempty subset of args is a square in the field they live in"""
        key = tuple(sorted(a.id for a in args))
        if key in self.indep:
            return self.indep[key]
        p = P521
        basis = {}
        for i in range(200 * len(args) + 200):
            vec = 0
            try:
                pt = self.point(i, p)
                for j, a in enumerate(args):
                    v = pt.ev(a)
                    if v == 0:
                        raise Undef('')
                    if pow(v, (p - 1) // 2, p) != 1:
                        vec |= 1 << j
            except Undef:
                continue
            while vec:
                b = vec.bit_length()
                if b not in basis:
                    basis[b] = vec
                    break
                vec ^= basis[b]
            if len(basis) == len(args):
                break
        r = len(basis) == len(args)
        self.indep[key] = r
        return r

    def error_bits(self, a, b, k=3):
        d, ns = degree([a, b], self.params)
        bits = k * (521 - (d.bit_length() + 1 + ns))
        self.minbits = bits if self.minbits is None else min(self.minbits, bits)
        return bits

    # value classes, for sign reasoning
    def cls(self, t):
        """hashable class of a term up to sign: (class, sign); None when undefined"""
        pt = self.point(0, P521, True)
        try:
            v = pt.ev(t)
        except Undef:
            return None
        return pt.canon(v)
