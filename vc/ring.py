"""Deciding equalities by normal forms: polynomials with rational coefficients over atoms (uninterpreted applications, conditionals,
sums). Sum(\\j. body, n) is split over the monomials of its body and factors that do not mention j are moved out. Quotients are
inverses of the normal form of the divisor; they are cancelled only when the caller shows the divisor to be different from zero."""
from fractions import Fraction
import z3
from values import *

SUMN = {'Sum': 'Sum', 'SumI': 'Sum'}


class Big(Exception): pass


class Ring:
    def __init__(self, limit=4000):
        self.memo = {}; self.limit = limit; self.inv = {}; self.keep = []; self.depth = 0

    # polynomials: dict monomial -> coefficient; monomial: tuple of (atom, exponent), sorted
    def const(self, c): return {(): Fraction(c)} if c else {}

    def add(self, p, q, s=1):
        r = dict(p)
        for m, c in q.items():
            v = r.get(m, 0) + s * c
            if v: r[m] = v
            else: r.pop(m, None)
        return r

    def mulm(self, m, n):
        d = dict(m)
        for a, e in n: d[a] = d.get(a, 0) + e
        return tuple(sorted((a, e) for a, e in d.items() if e))

    def mul(self, p, q):
        if len(p) * len(q) > self.limit * 4: raise Big()
        r = {}
        for m, c in p.items():
            for n, k in q.items():
                mm = self.mulm(m, n); v = r.get(mm, 0) + c * k
                if v: r[mm] = v
                else: r.pop(mm, None)
        if len(r) > self.limit: raise Big()
        return r

    def power(self, p, e):
        r = self.const(1)
        for _ in range(e): r = self.mul(r, p)
        return r

    def atom(self, key): return {((key, 1),): Fraction(1)}

    def key(self, p): return tuple(sorted((m, c) for m, c in p.items()))

    def inverse(self, p):
        if len(p) == 0: return self.atom(('inv', ()))
        if len(p) == 1 and () in p: return self.const(1 / p[()])
        # scale to leading coefficient one
        k = self.key(p); c = k[-1][1]
        q = {m: v / c for m, v in p.items()}
        a = ('inv', self.key(q)); self.inv[a] = q
        r = self.atom(a)
        return {m: v / c for m, v in r.items()}

    def norm(self, t, env=()):
        mk = (t.get_id(), env)
        if mk in self.memo: return self.memo[mk]
        r = self.norm1(t, env)
        self.memo[mk] = r; self.keep.append(t)
        return r

    def norm1(self, t, env):
        if z3.is_var(t):
            i = z3.get_var_index(t)
            return self.atom(('b', env[-1 - i]))
        if z3.is_int_value(t) or z3.is_rational_value(t):
            v = t.as_fraction() if z3.is_rational_value(t) else t.as_long()
            return self.const(Fraction(v))
        k = t.decl().kind(); ch = t.children()
        if k == z3.Z3_OP_ADD:
            r = {}
            for c in ch: r = self.add(r, self.norm(c, env))
            return r
        if k == z3.Z3_OP_SUB:
            r = self.norm(ch[0], env)
            for c in ch[1:]: r = self.add(r, self.norm(c, env), -1)
            return r
        if k == z3.Z3_OP_UMINUS: return self.add({}, self.norm(ch[0], env), -1)
        if k == z3.Z3_OP_MUL:
            r = self.const(1)
            for c in ch: r = self.mul(r, self.norm(c, env))
            return r
        if k == z3.Z3_OP_DIV: return self.mul(self.norm(ch[0], env), self.inverse(self.norm(ch[1], env)))
        if k in (z3.Z3_OP_IDIV, z3.Z3_OP_MOD) and z3.is_int_value(ch[1]) and ch[1].as_long() > 0:
            m = ch[1].as_long(); p = self.norm(ch[0], env)
            if all(c.denominator == 1 and (c.numerator % m == 0 or mm == ()) for mm, c in p.items()):
                c0 = p.get((), Fraction(0)).numerator
                if k == z3.Z3_OP_MOD: return self.const(c0 % m)
                q = {mm: c / m for mm, c in p.items() if mm != ()}
                return self.add(q, self.const(c0 // m))
        if k == z3.Z3_OP_TO_REAL: return self.norm(ch[0], env)
        if k == z3.Z3_OP_POWER and z3.is_int_value(ch[1]) and 0 <= ch[1].as_long() < 12: return self.power(self.norm(ch[0], env), ch[1].as_long())
        if k == z3.Z3_OP_ITE:
            c, x, y = self.bkey(ch[0], env), self.norm(ch[1], env), self.norm(ch[2], env)
            if c == ('true',): return x
            if c == ('false',): return y
            if x == y: return x
            return self.atom(('ite', c, self.key(x), self.key(y)))
        nm = t.decl().name()
        if nm in SUMN and z3.is_quantifier(ch[0]):
            f, n = ch
            self.depth += 1; v = f'#t{self.depth}'
            body = self.norm(f.body(), env + (v,)); nk = self.norm(n, env)
            if nk == {}: return {}
            if len(nk) == 1 and () in nk and nk[()] < 0: return {}
            r = {}
            for m, c in body.items():
                out = tuple((a, e) for a, e in m if not self.has(a, v)); inn = tuple((a, e) for a, e in m if self.has(a, v))
                if inn: inn = self.rename(inn, ('b', v), ('b', '#%d' % (self.height(inn) + 1))); inn = tuple(sorted(inn))
                s = self.atom(('Sum', inn, self.key(nk))) if inn else nk
                r = self.add(r, self.mul({out: c}, s))
            return r
        if z3.is_quantifier(t): raise Big()
        return self.atom(('f', nm) + tuple(self.anykey(c, env) for c in ch))

    def height(self, a):
        if isinstance(a, tuple):
            h = max((self.height(x) for x in a), default=0)
            return h + 1 if a and a[0] == 'Sum' else h
        return 0

    def rename(self, a, x, y):
        if a == x: return y
        if not isinstance(a, tuple): return a
        if a and a[0] == 'inv' and self.has(a, x[1]):
            b = tuple(self.rename(z, x, y) for z in a)
            if a in self.inv: self.inv[b] = {tuple(sorted(self.rename(m, x, y))): c for m, c in self.inv[a].items()}
            return b
        return tuple(self.rename(z, x, y) for z in a)

    def has(self, a, v):
        if a == ('b', v): return True
        if isinstance(a, tuple): return any(self.has(x, v) for x in a)
        return False

    def anykey(self, c, env):
        if z3.is_quantifier(c): return ('lam', self.anykey(c.body(), env + (f'#{len(env)}',)))
        if z3.is_arith(c): return self.key(self.norm(c, env))
        if z3.is_bool(c): return self.bkey(c, env)
        if c.num_args() == 0: return ('c', c.decl().name())
        return ('f', c.decl().name()) + tuple(self.anykey(x, env) for x in c.children())

    def bkey(self, t, env):
        if z3.is_true(t): return ('true',)
        if z3.is_false(t): return ('false',)
        if z3.is_quantifier(t): return ('q', t.is_forall(), self.bkey(t.body(), env + tuple(f'#{len(env) + i}' for i in range(t.num_vars()))))
        k = t.decl().kind(); ch = t.children()
        cmpk = {z3.Z3_OP_LE: 'le', z3.Z3_OP_GE: 'ge', z3.Z3_OP_LT: 'lt', z3.Z3_OP_GT: 'gt'}
        if k in cmpk and z3.is_arith(ch[0]):
            d = self.add(self.norm(ch[0], env), self.norm(ch[1], env), -1); op = cmpk[k]
            neg = False
            if op == 'ge': d = self.add({}, d, -1); op = 'le'
            elif op == 'gt': op = 'le'; neg = True
            elif op == 'lt': d = self.add({}, d, -1); op = 'le'; neg = True
            # d <= 0, possibly negated
            if not d or (len(d) == 1 and () in d): return ('true',) if (d.get((), 0) <= 0) != neg else ('false',)
            s = abs(self.key(d)[-1][1]); d = {m: c / s for m, c in d.items()}
            r = ('le', self.key(d))
            return ('not', r) if neg else r
        if k == z3.Z3_OP_EQ and z3.is_arith(ch[0]):
            d = self.add(self.norm(ch[0], env), self.norm(ch[1], env), -1)
            if not d: return ('true',)
            if len(d) == 1 and () in d: return ('false',)
            s = self.key(d)[-1][1]
            return ('eq', self.key({m: c / s for m, c in d.items()}))
        if k == z3.Z3_OP_NOT:
            x = self.bkey(ch[0], env)
            return x[1] if x[0] == 'not' else ('false',) if x == ('true',) else ('true',) if x == ('false',) else ('not', x)
        if k in (z3.Z3_OP_AND, z3.Z3_OP_OR):
            xs = sorted({self.bkey(c, env) for c in ch}, key=repr); n, z = (('true',), ('false',)) if k == z3.Z3_OP_AND else (('false',), ('true',))
            if z in xs: return z
            xs = [x for x in xs if x != n]
            return n if not xs else xs[0] if len(xs) == 1 else ('and' if k == z3.Z3_OP_AND else 'or',) + tuple(xs)
        if k == z3.Z3_OP_UNINTERPRETED: return ('f', t.decl().name()) + tuple(self.anykey(c, env) for c in ch)
        return ('k', k) + tuple(self.anykey(c, env) for c in ch)

    def clear(self, p, nonzero):
        """multiply by divisors shown to be non-zero until no inverse is left at top level"""
        for _ in range(60):
            invs = {}
            for m in p:
                for a, e in m:
                    if a[0] == 'inv' and a in self.inv: invs[a] = max(invs.get(a, 0), e)
            invs = {a: e for a, e in invs.items() if nonzero(a)}
            if not invs: return p
            # innermost last: take one that no other inverse mentions
            a = sorted(invs, key=lambda x: len(repr(x)), reverse=True)[0]; e = invs[a]; q = self.inv[a]; r = {}
            for m, c in p.items():
                k = dict(m).get(a, 0); rest = tuple((x, y) for x, y in m if x != a)
                r = self.add(r, self.mul({rest: c}, self.power(q, e - k)))
            p = r
            if not p: return p
        return p


def equal(s, t, nonzero=None, limit=4000):
    """True when both sides have the same normal form"""
    R = Ring(limit)
    try:
        p = R.add(R.norm(s), R.norm(t), -1)
        if not p: return True
        if nonzero is not None:
            p = R.clear(p, nonzero)
            return not p
    except (Big, RecursionError, TypeError): return False
    return False
