"""Discharging verification conditions.

Order for equalities: syntactic, algebraic back end (pit.py), case split over the conditions inside the terms with
infeasible cases removed by the class rules or z3, finally z3/cvc5.   Inequalities: sign calculus, z3, cvc5.
"""
import os
import subprocess
import tempfile
import time
import itertools
import z3
from .terms import *
from .pit import Pit, Undef
from .smt import Tr, is_int_only, z3_prove, smt2


DEBUG = bool(os.environ.get('FVDBG'))


def normal(ts, m):
    for _ in range(6):
        n = substitute(ts, m)
        if all(x is y for x, y in zip(n, ts)):
            break
        ts = n
    return ts


class Prover:
    def __init__(self, params, tier='quick', seed='1'):
        self.params = params
        self.pit = Pit(params, 'fv' + seed)
        self.tier = tier
        self.by = {}
        self.time = {}
        self.zt = 8000 if tier == 'quick' else 60000
        self.maxdeg = 0
        self.minbits = None

    def count(self, who, dt):
        self.by[who] = self.by.get(who, 0) + 1
        self.time[who] = self.time.get(who, 0.0) + dt

    def prove(self, ob):
        """returns (status, how): status in proved | refuted | undecided"""
        t0 = time.time()
        st, how = self._prove(ob)
        self.count(how, time.time() - t0)
        return st, how

    def _prove(self, ob):
        if ob.kind == 'reach':
            return 'reach', 'reach'
        if ob.pre:
            return 'proved', ob.pre
        if ob.kind == 'eq':
            a, b = ob.goal
            return self.eq(list(ob.pc), a, b)
        return self.boolean(list(ob.pc), ob.goal)

    # ------------------------------------------------------------------ booleans
    def boolean(self, pc, g, depth=0):
        if g is True:
            return 'proved', 'syntactic'
        ids = {c.id for c in pc}
        if isinstance(g, T) and g.id in ids:
            return 'proved', 'syntactic'
        if isinstance(g, T) and g.op == 'and':
            how = 'syntactic'
            for x in g.args:
                st, h = self.boolean(pc, x, depth)
                if st != 'proved':
                    return st, h
                if h != 'syntactic':
                    how = h
            return 'proved', how
        if isinstance(g, T) and g.op == 'not' and g.args[0].op == 'and' and depth < 4:
            # disjunction: assume the negation of all but the last
            xs = list(g.args[0].args)
            hyp = pc + xs[:-1]
            st, h = self.boolean(hyp, bnot(xs[-1]), depth + 1)
            if st == 'proved':
                return st, h
        if isinstance(g, T) and g.op == 'eq':
            st, h = self.eq(pc, g.args[0], g.args[1])
            return st, h
        if isinstance(g, T) and is_int_only(g):
            ic = [c for c in pc if is_int_only(c)]
            r, m = z3_prove(ic, g, self.zt)
            if r == 'proved':
                return 'proved', 'z3-int'
            if r == 'refuted' and len(ic) == len(pc):
                return 'refuted', 'z3-int'
        if isinstance(g, T) and g.op in ('lt', 'not'):
            sc = SignCalc(self.pit, pc)
            if sc.holds(g):
                return 'proved', 'sign-calculus'
        if g is False or isinstance(g, T):
            r = self.smt(pc, g)
            if r == 'proved':
                return 'proved', 'z3'
            if r == 'cvc5':
                return 'proved', 'cvc5'
            if r == 'refuted':
                return 'refuted', 'z3'
        return 'undecided', 'none'

    def smt(self, pc, g, timeout=None):
        pc = self.relevant(pc, g)
        try:
            r, m = z3_prove(pc, g, timeout or self.zt)
        except (NotImplementedError, z3.Z3Exception):
            return 'unknown'
        if r != 'unknown':
            return r
        if timeout is None and self.cvc5(pc, g):
            return 'cvc5'
        return 'unknown'

    def relevant(self, pc, g):
        if g is False:
            return pc
        return pc

    def cvc5(self, pc, g):
        try:
            txt = smt2(pc, g)
        except Exception:
            return False
        if len(txt) > 2000000:
            return False
        logic = '(set-logic ALL)\n'
        with tempfile.NamedTemporaryFile('w', suffix='.smt2', delete=False) as f:
            f.write(logic + txt)
        try:
            o = subprocess.run(['cvc5', '--tlimit=%d' % self.zt, f.name], capture_output=True, text=True,
                               timeout=self.zt / 1000 + 10)
            return o.stdout.strip().startswith('unsat')
        except Exception:
            return False
        finally:
            os.unlink(f.name)

    # ------------------------------------------------------------------ equalities
    def eq(self, pc, a, b):
        if a is b:
            return 'proved', 'syntactic'
        if a.op == 'const' and b.op == 'const':
            if a.args[0] == b.args[0]:
                return 'proved', 'syntactic'
        a0, b0 = a, b
        m = self.equalities(pc + self.units(pc))
        if m:
            a, b = normal([a, b], m)
            if a is b:
                return 'proved', 'syntactic'
        a, b = self.decide_int(pc, a, b)
        if a is b:
            return 'proved', 'z3-int'
        r = self.pit.diffs(a, b)
        if r is True:
            bits = self.pit.error_bits(a, b)
            self.minbits = bits if self.minbits is None else min(self.minbits, bits)
            if bits > 80:
                return 'proved', 'algebraic'
        if any(is_int_only(c) is False for c in pc):
            if self.infeasible(pc):
                return 'proved', 'z3-infeasible'
        # case split over the conditions / absolute values in the difference
        cs = self.cases(pc, a, b)
        if cs is True:
            return 'proved', 'algebraic-cases'
        size = len(postorder([a, b]))
        if size < 400:
            rr = self.smt(pc, beq(a0, b0), 3000 if self.tier == 'quick' else 30000)
            if rr in ('proved', 'refuted'):
                return rr, 'z3'
        if r is False and cs is False:
            return 'refuted', 'algebraic'
        return 'undecided', 'none'

    def int_truth(self, pc):
        """query: does the integer part of the hypotheses decide a condition"""
        key = frozenset(c.id for c in pc)
        if not hasattr(self, '_ints') or self._ints[0] != key:
            tr = Tr()
            s = z3.Solver()
            s.set('timeout', 2000)
            for c in pc:
                if is_int_only(c):
                    s.add(tr(c))
            memo = {}

            def truth(c):
                if c.id not in memo:
                    z = tr(c)
                    memo[c.id] = True if s.check(z3.Not(z)) == z3.unsat else False if s.check(z) == z3.unsat else None
                return memo[c.id]
            self._ints = (key, truth, {})
        return self._ints[1]

    def units(self, pc):
        """equalities that conditional hypotheses give under the other hypotheses"""
        truth = self.int_truth(pc)
        memo = self._ints[2]
        if 'units' not in memo:
            out = []
            for c in pc:
                if c.op in ('not', 'ite') and c.args[0].op in ('and', 'ite', 'izero', 'ipos', 'not') and is_int_only(c):
                    for x in postorder([c]):
                        if x.op == 'izero' and (c.op == 'ite' or x is not c.args[0]) and x not in out and truth(x) is True:
                            out.append(x)
            memo['units'] = out
        return memo['units']

    def decide_int(self, pc, a, b):
        """replace the integer conditions inside the terms that the hypotheses decide"""
        cs = []
        for t in postorder([a, b]):
            if t.op == 'ite':
                stack = [t.args[0]]
                while stack:
                    c = stack.pop()
                    if isinstance(c, bool):
                        continue
                    if c.op in ('not', 'and'):
                        stack += c.args
                    elif c.op in ('ipos', 'izero') and c not in cs:
                        cs.append(c)
        if not cs:
            return a, b
        truth = self.int_truth(pc)
        m = {}
        for c in cs:
            v = truth(c)
            if v is not None:
                m[c.id] = v
        if m:
            a, b = substitute([a, b], m)
        # a condition directly below another one
        m = {}
        n = 0
        for t in postorder([a, b]):
            if t.op != 'ite' or not is_int_only(t.args[0]) or n > 200:
                continue
            x, y = t.args[1], t.args[2]
            for i, h in ((1, t.args[0]), (2, bnot(t.args[0]))):
                u = t.args[i]
                if isinstance(u, T) and u.op == 'ite' and isinstance(u.args[0], T) and is_int_only(u.args[0]):
                    n += 1
                    v = truth(bor(bnot(h), u.args[0])), truth(bor(bnot(h), bnot(u.args[0])))
                    if v[0] is True or v[1] is True:
                        w = u.args[1] if v[0] is True else u.args[2]
                        if i == 1:
                            x = w
                        else:
                            y = w
            if x is not t.args[1] or y is not t.args[2]:
                m[t.id] = rite(t.args[0], x, y) if t.sort == 'R' else None
                if m[t.id] is None:
                    del m[t.id]
        if m:
            a, b = substitute([a, b], m)
        return a, b

    def equalities(self, pc):
        """substitution from equalities  var = term  among the hypotheses"""
        out = {}
        neg = {}
        for c in pc:  # p <= 0 and -p <= 0
            if c.op == 'not' and c.args[0].op == 'ipos':
                neg[c.args[0].id] = c.args[0].args[0]
        zero = []
        for i, q in neg.items():
            g = ilt(0, ineg(q))
            if g is not None and isinstance(g, T) and g.id in neg and i < g.id:
                zero.append(ieq(q, 0))
        todo = list(pc) + zero
        for rnd in range(3):
            new = []
            for c in todo:
                if c.op not in ('eq', 'izero'):
                    continue
                d = normal([c], out)[0] if out else c
                if isinstance(d, bool) or rnd and d is c or d.op not in ('eq', 'izero'):
                    continue
                self.orient(d, out)
                new.append(c)
            todo = new
        return out

    def orient(self, c, out):
        if c.op == 'eq':
            for x, y in ((c.args[0], c.args[1]), (c.args[1], c.args[0])):
                if x.op in ('var', 'sel') and x.id not in out and x not in postorder([y]):
                    out[x.id] = y
                    return
        elif c.op == 'izero':
            d = dict(c.args[0].args)
            for mm, cc in sorted(d.items(), key=lambda x: -max([len(postorder([t])) for t in x[0]] + [0])):
                if len(mm) == 1 and abs(cc) == 1 and mm[0].op in ('var', 'sel', 'idiv', 'irem'):
                    at = mm[0]
                    rest = isub(iatom(at), c.args[0] if cc == 1 else ineg(c.args[0]))
                    if at.id not in out and (isinstance(rest, int) or at not in postorder([rest])):
                        out[at.id] = rest
                        return

    def infeasible(self, pc):
        key = frozenset(c.id for c in pc)
        if not hasattr(self, '_inf'):
            self._inf = {}
        if key not in self._inf:
            sc = SignCalc(self.pit, pc)
            r = sc.contradictory()
            if not r:
                try:
                    r = z3_prove(pc, False, 2000)[0] == 'proved'
                except (NotImplementedError, z3.Z3Exception):
                    r = False
            self._inf[key] = r
        return self._inf[key]

    def cases(self, pc, a, b):
        """True proved / False refuted algebraically in a feasible-looking case / None"""
        sc = SignCalc(self.pit, pc)
        todo = [(a, b, [], [])]
        n = 0
        worst = True
        while todo:
            a, b, hy, ren = todo.pop()
            if a is b:
                continue
            n += 1
            if n > (300 if self.tier == 'quick' else 3000):
                return None
            c = self.pick(a, b)
            if c is None:
                r = self.pit.diffs(a, b)
                if r is True and self.pit.error_bits(a, b) > 80:
                    continue
                if self.infeasible(pc + hy) or self.deep_infeasible(pc, hy, ren):
                    continue
                if self.tie(sc.with_(hy), a, b):
                    continue
                worst = False if r is False else (None if worst is True else worst)
                if DEBUG:
                    print('  LEAF', r, 'depth', len(hy))
                    for h in hy:
                        print('     case', pp(h, 6)[:300])
                    for s in postorder([a, b]):
                        if s.op in ('sqrt', 'max', 'fabs'):
                            print('     atom', pp(s, 9)[:400])
                return worst
            if n > 1:
                r = self.pit.diffs(a, b)
                if r is True and self.pit.error_bits(a, b) > 80:
                    continue
            if c.op == 'max':
                x, y = c.args
                s = sc.with_(hy).signset(rsub(x, y))
                if 1 in s or -1 not in s:
                    aa, bb = substitute([a, b], {c.id: x}); rr = ren + [{c.id: x}]
                    todo.append((aa, bb, hy + [h for h in [ble(y, x)] if isinstance(h, T)], rr))
                if s & {-1}:
                    aa, bb = substitute([a, b], {c.id: y}); rr = ren + [{c.id: y}]
                    todo.append((aa, bb, hy + [h for h in [blt(x, y)] if isinstance(h, T)], rr))
            elif c.op == 'fabs':
                x = c.args[0]
                s = sc.with_(hy).sign(x)
                opts = []
                if s in ('+', '0+', None):
                    opts.append((x, ble(R0, x)))
                if s in ('-', '0-', None):
                    opts.append((rneg(x), ble(x, R0)))
                for v, h in opts:
                    aa, bb = substitute([a, b], {c.id: v}); rr = ren + [{c.id: v}]
                    todo.append((aa, bb, hy + ([h] if isinstance(h, T) else []), rr))
            else:
                t = sc.with_(hy).truth(c)
                for val in (True, False):
                    if t is not None and t != val:
                        continue
                    h = c if val else bnot(c)
                    h2 = hy + [h]
                    if sc.with_(h2).contradictory():
                        continue
                    aa, bb = substitute([a, b], {c.id: val}); rr = ren
                    todo.append((aa, bb, h2, rr))
        return True

    # ------------------------------------------------ equality hypotheses between expressions
    def opaque(self, roots, sc):
        """one representative per value class, roots and |.| as opaque reals (a generalisation)"""
        memo = {}
        reps = {}
        order = postorder([x for d, _ in sc.lin for x in (d,)] + roots)
        for t in order:
            if t.sort == 'R' and t.op == 'var':
                k = self.pit.cls(t)
                if k and k[0]:
                    reps[k[0]] = t if k[1] > 0 else rneg(t)
        for t in order:
            if t.sort != 'R':
                memo[t.id] = t
                continue
            k = self.pit.cls(t)
            if t.op not in ('const', 'var') and k is not None and k[0] in reps:
                memo[t.id] = reps[k[0]] if k[1] > 0 else rneg(reps[k[0]])
                continue
            if t.op in ('const', 'var'):
                r = t
            elif t.op in ('sqrt', 'fabs', 'max', 'ite', 'pow', 'fn', 'sel', 'i2r'):
                r = rvar('opaque%d' % t.id)
            else:
                r = rebuild(t, [memo[c.id] for c in children(t)])
            memo[t.id] = r
            if k is not None and k[0] and t.op != 'const':
                reps.setdefault(k[0], r if k[1] > 0 else rneg(r))
        return [memo[r.id] for r in roots]

    def tie(self, sc, a, b):
        """a = b on the variety E = 0 for an equality E among the hypotheses: every irreducible factor F of E that may
        vanish divides the numerator of a - b (checked by evaluation at random zeros of F)"""
        from . import roots
        seen = set()
        for d, al in sc.lin:
            k = self.pit.cls(d)
            if k is None or k[0] == 0 or k[0] in seen:
                continue
            if sc.signset(d) != {0}:
                continue
            seen.add(k[0])
            if len(seen) > 6:
                break
            E, A, B = self.opaque([d, a, b], sc)
            n, _ = numden(E)
            f = roots.factors(n)
            if f is None:
                continue
            ok = True
            for t, e in f[1]:
                if e < 0:
                    continue
                if 0 not in sc.signset(t):
                    continue
                if any(x.op == 'var' and x.args[0] in self.pit.params for x in postorder([t])):
                    ok = False
                    break
                if not self.on_variety(t, A, B):
                    ok = False
                    break
            if ok:
                return True
        return False

    def on_variety(self, F, a, b):
        from .pit import Point, P521, P607, Undef
        vs = [t for t in postorder([F]) if t.op == 'var']
        for v in vs:
            name = v.args[0]
            got = 0
            for i in range(60):
                p = P607 if got == 1 else P521

                def at(x, t):
                    q = Point('tie/%d' % i, p, self.pit.params)
                    q.hc[repr(('v', name))] = x % p
                    return [q.ev(u) for u in t]
                try:
                    y = [at(x, [F])[0] for x in range(4)]
                    c0 = y[0]
                    c2 = (y[2] - 2 * y[1] + y[0]) * pow(2, -1, p) % p
                    c1 = (y[1] - y[0] - c2) % p
                    if (c0 + 3 * c1 + 9 * c2 - y[3]) % p:
                        break            # degree > 2 in this variable
                    if c2 == 0:
                        if c1 == 0:
                            break
                        x = -c0 * pow(c1, -1, p) % p
                    else:
                        dd = (c1 * c1 - 4 * c2 * c0) % p
                        r = pow(dd, (p + 1) // 4, p)
                        if r * r % p != dd:
                            continue
                        x = (r - c1) * pow(2 * c2, -1, p) % p
                    if at(x, [F])[0] != 0:
                        break
                    u, w = at(x, [a, b])
                except Undef:
                    continue
                if u != w:
                    return False
                got += 1
                if got >= 3:
                    return True
        return False

    def deep_infeasible(self, pc, hy, ren):
        """after replacing |.| and max by the chosen branch in the hypotheses as well"""
        cur = list(pc) + list(hy)
        for m in ren:
            cur = substitute(cur, m)
        cur = [c for c in cur if c is not True]
        if any(c is False for c in cur):
            return True
        sc = SignCalc(self.pit, list(pc) + list(hy) + cur)
        if sc.contradictory():
            return True
        return sc.factor_contradiction()

    def pick(self, a, b):
        for t in postorder([a, b]):
            if t.op == 'ite':
                c = t.args[0]
                while isinstance(c, T) and c.op in ('not', 'and'):
                    c = c.args[0]
                if isinstance(c, T):
                    return c
            if t.op in ('fabs', 'max'):
                return t
        return None



_nd = {}


def numden(t):
    """t = N / D with the divisions of the +,-,*,/ skeleton cleared"""
    for s in postorder([t]):
        if s.sort != 'R' or s.id in _nd:
            continue
        op, a = s.op, s.args
        if op == 'add':
            (n1, d1), (n2, d2) = _nd[a[0].id], _nd[a[1].id]
            if d1 is d2:
                r = (radd(n1, n2), d1)
            else:
                r = (radd(rmul(n1, d2), rmul(n2, d1)), rmul(d1, d2))
        elif op == 'mul':
            (n1, d1), (n2, d2) = _nd[a[0].id], _nd[a[1].id]
            r = (rmul(n1, n2), rmul(d1, d2))
        elif op == 'div':
            (n1, d1), (n2, d2) = _nd[a[0].id], _nd[a[1].id]
            r = (rmul(n1, d2), rmul(d1, n2))
        elif op == 'neg':
            n, d = _nd[a[0].id]
            r = (rneg(n), d)
        else:
            r = (s, R1)
        _nd[s.id] = r
    return _nd[t.id]


ALL = frozenset((-1, 0, 1))


class SignCalc:
    """Sign inference from hypotheses: facts are kept per algebraic value class (so a hypothesis about x-y decides
    any expression equal to x-y or y-x); products, sums, roots, |.|, max; and linear arithmetic over the classes."""

    def __init__(self, pit, pc, base=None):
        self.pit = pit
        self.pc = list(base.pc) if base else []
        self.facts = dict(base.facts) if base else {}
        self.lin = list(base.lin) if base else []
        self.atoms = dict(base.atoms) if base else {}
        self.memo = {}
        self.lmemo = {}
        self.bad = base.bad if base else False
        self._solver = None
        for c in pc:
            self.pc.append(c)
            self.add(c)

    def with_(self, hy):
        if not hy:
            return self
        return SignCalc(self.pit, hy, self)

    def extend(self, cs):
        return self.with_(list(cs))

    def note(self, d, allow):
        k = self.pit.cls(d)
        if k is None:
            return
        if k[1] < 0:
            allow = {-x for x in allow}
        if k[0] == 0:
            if 0 not in allow:
                self.bad = True
            return
        new = self.facts.get(k[0], ALL) & frozenset(allow)
        self.facts[k[0]] = new
        if not new:
            self.bad = True

    def scan(self, c):
        vc = self.pit.varcls
        for t in postorder([c]):
            if t.op == 'var' and t.sort == 'R' and t.id not in self.pit.varseen:
                self.pit.varseen.add(t.id)
                k = self.pit.cls(t)
                if k is not None and k[0] not in vc:
                    vc[k[0]] = t
                    self.lmemo = {}
                    self.pit.sumreg = {}

    def add(self, c):
        neg = False
        if isinstance(c, bool):
            if not c:
                self.bad = True
            return
        if c.op == 'and':
            for x in c.args:
                self.add(x)
            return
        self.scan(c)
        if c.op == 'not':
            neg = True
            c = c.args[0]
        if c.op in ('lt', 'eq'):
            d = rsub(c.args[1], c.args[0])
            if c.op == 'lt':
                allow = {1} if not neg else {0, -1}
            else:
                allow = {0} if not neg else {1, -1}
            self.memo = {}
            self.note(d, allow)
            self.lin.append((d, frozenset(allow)))
            self._solver = None
            n, dd = numden(d)
            if dd is not R1:
                s = self.signset(dd)
                if s == {1} or s == {-1}:
                    al = allow if s == {1} else {-x for x in allow}
                    self.note(n, al)
                    self.lin.append((n, frozenset(al)))
        elif c.op in ('var', 'ipos', 'izero'):
            k = ('b', c.id)
            v = not neg
            if self.facts.get(k, v) != v:
                self.bad = True
            self.facts[k] = v

    # ------------------------------------------------ linear arithmetic over value classes
    def linform(self, t):
        """({class: coef}, const)"""
        for s in postorder([t]):
            if s.sort != 'R' or s.id in self.lmemo:
                continue
            op, a = s.op, s.args
            r = None
            if op == 'const':
                r = ({}, a[0])
            elif op == 'add':
                (p, c), (q, d) = self.lmemo[a[0].id], self.lmemo[a[1].id]
                k0 = k = self.pit.cls(s)
                if k is not None and (k[0] in self.pit.varcls or k[0] == 0):
                    r = ({k[0]: k[1]} if k[0] else {}, 0)
                    if k[0]:
                        self.atoms.setdefault(k[0], s if k[1] > 0 else rneg(s))
                elif len(p) + len(q) <= 60:
                    e = dict(p)
                    for k, v in q.items():
                        e[k] = e.get(k, 0) + v
                    r = ({k: v for k, v in e.items() if v}, c + d)
                    if k0 is not None:
                        reg = self.pit.sumreg
                        if k0[0] in reg:
                            f, cc, at = reg[k0[0]]
                            r = ({k: v * k0[1] for k, v in f.items()}, cc * k0[1])
                            for k, v in at.items():
                                self.atoms.setdefault(k, v)
                        else:
                            reg[k0[0]] = ({k: v * k0[1] for k, v in r[0].items()}, r[1] * k0[1],
                                          {k: self.atoms[k] for k in r[0] if k in self.atoms})
            elif op == 'neg':
                p, c = self.lmemo[a[0].id]
                r = ({k: -v for k, v in p.items()}, -c)
            elif op == 'mul' and (a[0].op == 'const' or a[1].op == 'const'):
                x, y = (a[0], a[1]) if a[0].op == 'const' else (a[1], a[0])
                p, c = self.lmemo[y.id]
                f = x.args[0]
                r = ({k: v * f for k, v in p.items()}, c * f)
            if r is None:
                k = self.pit.cls(s)
                if k is None:
                    r = ({('t', s.id): 1}, 0)
                    self.atoms.setdefault(('t', s.id), s)
                elif k[0] == 0:
                    r = ({}, 0)
                else:
                    self.atoms.setdefault(k[0], s if k[1] > 0 else rneg(s))
                    r = ({k[0]: k[1]}, 0)
            self.lmemo[s.id] = r
        return self.lmemo[t.id]

    def zlin(self, f, zv):
        from fractions import Fraction
        p, c = f
        e = z3.RealVal(Fraction(c)) if c else z3.RealVal(0)
        for k, v in p.items():
            if k not in zv:
                zv[k] = z3.Real('k%d' % len(zv))
            e = e + z3.RealVal(Fraction(v)) * zv[k]
        return e

    def zcon(self, e, allow):
        a = frozenset(allow)
        if a == {1}:
            return e > 0
        if a == {0, 1}:
            return e >= 0
        if a == {-1}:
            return e < 0
        if a == {0, -1}:
            return e <= 0
        if a == {0}:
            return e == 0
        if a == {1, -1}:
            return e != 0
        return z3.BoolVal(bool(a))

    def lra(self, extra):
        """False when hypotheses + extra [(term, allowed signs)] are inconsistent in linear arithmetic over classes"""
        zv = {}
        s = z3.Solver()
        s.set('timeout', 1500)
        done = set()
        cons = self.lin + list(extra)
        if len(cons) > 400:
            return True
        for d, al in cons:
            s.add(self.zcon(self.zlin(self.linform(d), zv), al))
        # facts about the atoms in use
        rounds = 0
        while rounds < 3:
            new = [k for k in list(zv) if k not in done]
            if not new:
                break
            rounds += 1
            for k in new:
                done.add(k)
                t = self.atoms.get(k)
                if t is None:
                    continue
                sgn = 1
                u = t
                if u.op == 'neg':
                    u, sgn = u.args[0], -1
                v = zv[k] if sgn > 0 else -zv[k]
                if u.op == 'fabs':
                    e = self.zlin(self.linform(u.args[0]), zv)
                    s.add(z3.Or(v == e, v == -e), v >= 0)
                elif u.op == 'max':
                    e1 = self.zlin(self.linform(u.args[0]), zv)
                    e2 = self.zlin(self.linform(u.args[1]), zv)
                    s.add(z3.Or(v == e1, v == e2), v >= e1, v >= e2)
                sg = self.signset(u)
                if sg != ALL:
                    s.add(self.zcon(v, sg))
                f = self.facts.get(k)
                if f is not None:
                    s.add(self.zcon(zv[k], f))
        return s.check() != z3.unsat

    def contradictory(self, deep=True):
        if self.bad:
            return True
        if deep and not self.lra([]):
            self.bad = True
        return self.bad

    def factor_contradiction(self):
        """a hypothesis about a polynomial contradicts the signs of its irreducible factors"""
        from . import roots
        for d, al in list(self.lin):
            if len(self.signset(d)) == 1:
                continue
            f = roots.factors(d, self.pit.params)
            if f is None or len(f[1]) < 2:
                continue
            r = frozenset([1 if f[0] > 0 else -1])
            for t, k in f[1]:
                x = self.signset(t)
                if k % 2 == 0:
                    x = frozenset(y * y for y in x)
                r = frozenset(p * q for p in r for q in x)
            if not (r & al):
                return True
        return False

    # ------------------------------------------------ queries
    def truth(self, c, deep=True):
        if isinstance(c, bool):
            return c
        if c.op == 'not':
            r = self.truth(c.args[0], deep)
            return None if r is None else not r
        if c.op == 'and':
            rs = [self.truth(x, deep) for x in c.args]
            if all(r is True for r in rs):
                return True
            if any(r is False for r in rs):
                return False
            return None
        if c.op in ('lt', 'eq'):
            d = rsub(c.args[1], c.args[0])
            s = self.signset(d)
            want = {1} if c.op == 'lt' else {0}
            if s <= want:
                return True
            if not (s & want):
                return False
            if deep:
                if not self.lra([(d, frozenset(ALL - want))]):
                    return True
                if not self.lra([(d, frozenset(want))]):
                    return False
            return None
        return self.facts.get(('b', c.id))

    def holds(self, g):
        return self.truth(g) is True

    def sign(self, t):
        s = self.signset(t)
        if s == {1}:
            return '+'
        if s == {-1}:
            return '-'
        if s <= {0, 1}:
            return '0+'
        if s <= {0, -1}:
            return '0-'
        return None

    def signset(self, t):
        """possible signs"""
        r = self.ss(t, 0)
        if len(r) > 1:
            n, d = numden(t)
            if d is not R1:
                a, b = self.ss(n, 0), self.ss(d, 0)
                if 0 not in b:
                    r = r & frozenset(p * q for p in a for q in b)
        return r

    def ss(self, t, depth):
        if t.id in self.memo:
            return self.memo[t.id]
        if depth > 60:
            return ALL
        op, a = t.op, t.args
        r = ALL
        if op == 'const':
            v = a[0]
            r = frozenset([1 if v > 0 else (-1 if v < 0 else 0)])
            self.memo[t.id] = r
            return r
        k = self.pit.cls(t)
        f = None
        if k is not None:
            if k[0] == 0:
                self.memo[t.id] = frozenset([0])
                return self.memo[t.id]
            f = self.facts.get(k[0])
            if f is not None:
                f = f if k[1] > 0 else frozenset(-x for x in f)
                if len(f) == 1:
                    self.memo[t.id] = f
                    return f
        D = depth + 1
        if op == 'neg':
            r = frozenset(-x for x in self.ss(a[0], D))
        elif op in ('mul', 'div'):
            if op == 'mul' and a[0] is a[1]:
                x = self.ss(a[0], D)
                r = frozenset({1} if 0 not in x else {0, 1})
            else:
                x, y = self.ss(a[0], D), self.ss(a[1], D)
                r = frozenset(p * q for p in x for q in y)
        elif op == 'add':
            terms = []
            stack = [t]
            while stack:
                z = stack.pop()
                if z.op == 'add':
                    stack += list(z.args)
                else:
                    terms.append(z)
            r = {0}
            for z in terms:
                y = self.ss(z, D)
                nr = set()
                for p in r:
                    for q in y:
                        if p == 0:
                            nr.add(q)
                        elif q == 0 or p == q:
                            nr.add(p)
                        else:
                            nr |= ALL
                r = nr
                if len(r) == 3:
                    break
            r = frozenset(r)
            if len(r) > 1:
                # constants and single facts: x > c  |-  x + d > 0 is left to linear arithmetic
                rr = self.lsign(t)
                if rr is not None:
                    r = r & rr
        elif op == 'var':
            rr = self.lsign(t)
            if rr is not None:
                r = rr
        elif op == 'sqrt':
            x = self.ss(a[0], D)
            r = frozenset({1} if x == {1} else {0, 1})
        elif op == 'fabs':
            x = self.ss(a[0], D)
            r = frozenset({1} if 0 not in x else {0, 1})
        elif op == 'max':
            x, y = self.ss(a[0], D), self.ss(a[1], D)
            r = frozenset(max(p, q) for p in x for q in y)
        elif op == 'ite':
            tr = self.truth(a[0], False)
            r = set()
            if tr is not False:
                r |= self.ss(a[1], D)
            if tr is not True:
                r |= self.ss(a[2], D)
            r = frozenset(r)
        elif op == 'fn' and a[0] == 'exp':
            r = frozenset({1})
        elif op == 'pow':
            x = self.ss(a[0], D)
            if x == {1}:
                r = frozenset({1})
        if f is not None:
            r = r & f
        self.memo[t.id] = r
        return r

    def lsign(self, t):
        """sign from single-variable bounds among the hypotheses (x > 1 |- x > 0 etc.)"""
        p, c = self.linform(t)
        if len(p) != 1:
            return None
        (k, v), = p.items()
        lo, los, hi, his = None, False, None, False
        for d, al in self.lin:
            q, e = self.linform(d)
            if len(q) != 1 or k not in q:
                continue
            w = q[k]
            # w*x + e in al
            b = -e / w
            lower = (al <= {0, 1} and w > 0) or (al <= {0, -1} and w < 0)
            upper = (al <= {0, -1} and w > 0) or (al <= {0, 1} and w < 0)
            strict = 0 not in al
            if lower and (lo is None or b > lo or (b == lo and strict)):
                lo, los = b, strict
            if upper and (hi is None or b < hi or (b == hi and strict)):
                hi, his = b, strict
        r = set(ALL)
        # v*x + c
        if v < 0:
            lo, los, hi, his = hi, his, lo, los
        if lo is not None:
            m = v * lo + c
            if m > 0 or (m == 0 and los):
                r &= {1}
            elif m == 0:
                r &= {0, 1}
        if hi is not None:
            m = v * hi + c
            if m < 0 or (m == 0 and his):
                r &= {-1}
            elif m == 0:
                r &= {0, -1}
        return frozenset(r)
