"""Vocabulary of the B-spline basis over one symbolic knot vector: the spec functions N (Cox-de Boor) and DN (derivative
recursion), their defining equations, and the contract of baf::BasisFunctionFactory::CreateDynamic."""
import z3
from values import *
from common import *

FACTORY = 'baf::BasisFunctionFactory::CreateDynamic'
I, R = z3.IntSort(), z3.RealSort()


class Basis:
    """spec functions over knots K (class Knots)"""

    def __init__(self, K, tag=''):
        self.K = K; self.tag = tag
        self.N = z3.Function('N' + tag, I, I, R, R)            # N(i, p, u)
        self.DN = z3.Function('DN' + tag, I, I, I, R, R)       # DN(i, p, k, u)
        self.free = z3.Function('free' + tag, I, I, I, R, R)   # value of a function with empty support (never relied upon)

    def nonempty(self, i, p): return self.K.U(i) < self.K.U(i + p + 1)

    def in_support(self, i, p, u):
        U = self.K.U
        return z3.Or(z3.And(U(i) <= u, u < U(i + p + 1)), z3.And(u == U(i + p + 1), U(i + p + 1) == self.K.hi, U(i) < self.K.hi))

    def N0(self, i, u):
        U = self.K.U
        return z3.If(z3.Or(z3.And(U(i) <= u, u < U(i + 1)), z3.And(u == self.K.hi, U(i) < u, U(i + 1) == u)), z3.RealVal(1), z3.RealVal(0))

    def cox(self, i, p, u):
        """right-hand side of the Cox-de Boor recursion at degree p >= 1; a quotient with zero denominator counts as zero"""
        U = self.K.U; l, r = U(i + p) - U(i), U(i + p + 1) - U(i + 1)
        return (u - U(i)) * z3.If(l == 0, 0, 1 / l) * self.N(i, p - 1, u) + (U(i + p + 1) - u) * z3.If(r == 0, 0, 1 / r) * self.N(i + 1, p - 1, u)

    def dcox(self, i, p, k, u):
        U = self.K.U; l, r = U(i + p) - U(i), U(i + p + 1) - U(i + 1)
        return z3.ToReal(p) * (z3.If(l == 0, 0, 1 / l) * self.DN(i, p - 1, k - 1, u) - z3.If(r == 0, 0, 1 / r) * self.DN(i + 1, p - 1, k - 1, u))

    def separated(self, a):
        """precondition: different knots are at least the library's epsilon apart (the code takes closer ones for equal)"""
        i, j = z3.Ints('pi pj'); U = self.K.U
        if z3.is_int_value(self.K.n):
            for q in range(self.K.n.as_long() - 1): a.assume(z3.Or(U(q) == U(q + 1), U(q + 1) - U(q) >= to_real(KEPS)))
        else: a.assume(z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i < j, j < self.K.n), z3.Or(U(i) == U(j), U(j) - U(i) >= to_real(KEPS))), patterns=[z3.MultiPattern(U(i), U(j))]))

    # ---- contract of the object made for (i, q), 0 <= q, i + q + 1 < n
    def value(self, i, q, u): return z3.If(self.nonempty(i, q), self.N(i, q, u), self.free(i, q, 0, u))

    def dvalue(self, i, q, k, u): return z3.If(self.nonempty(i, q), self.DN(i, q, k, u), self.free(i, q, k, u))

    def ghosts(self):
        def ev(ex, g, args):
            i, q = g.args; u = to_real(getv_ex(ex, args[0]))
            ex.assume(z3.Implies(z3.Not(self.in_support(i, q, u)), self.N(i, q, u) == 0))
            return self.value(i, q, u)

        def evd(ex, g, args):
            i, q = g.args; u = to_real(getv_ex(ex, args[0])); k = to_int(getv_ex(ex, args[1]))
            ex.oblige('derivative order is not negative', k >= 0)
            ex.assume(z3.Implies(z3.Not(self.in_support(i, q, u)), z3.And(self.N(i, q, u) == 0, self.DN(i, q, k, u) == 0)))
            ex.assume(self.DN(i, q, 0, u) == self.N(i, q, u))
            return self.dvalue(i, q, k, u)
        return {('BF' + self.tag, 'Evaluate'): ev, ('BF' + self.tag, 'EvaluateDerivative'): evd}


def getv_ex(ex, r):
    o = ex.load(r) if isinstance(r, Ref) else r
    return o.f[ex.prog.recs[o.cls]['fields'][0]['n']]


class CreateContract:
    """CreateDynamic(kv, i, q): requires 0 <= q, 0 <= i, i + q + 1 < number of knots; returns the basis function (i, q) of kv.
    `below`: the call is inside the verification of degree `below` itself, so q has to be smaller (well-founded recursion)."""

    def __init__(self, B, below=None): self.B, self.below = B, below; self.name = 'BasisFunctionFactory::CreateDynamic'

    def applies(self, ex, this, args):
        q = getv_ex(ex, args[2])
        return self.below is None or not (to_int(q).eq(to_int(self.below)))

    def apply(self, ex, this, args, f):
        kv = ex.load(args[0]); i, q = to_int(getv_ex(ex, args[1])), to_int(getv_ex(ex, args[2]))
        n = self.B.K.n
        ex.oblige('basis function indices in range', z3.And(q >= 0, i >= 0, i + q + 1 < n))
        if self.below is not None: ex.oblige('recursion descends', q < to_int(self.below))
        # the knots handed over are those of the spec functions
        vec = [x for x in kv.f.values() if isinstance(x, Vec)]
        if len(vec) != 1: raise Unsupported('knot vector representation')
        j = fresh('cj')
        g = vec[0].get(j)
        ex.oblige('the knot vector handed over is the one of the basis', z3.And(to_int(vec[0].n) == n, z3.Implies(z3.And(j >= 0, j < n), to_real(getv_ex(ex, g)) == self.B.K.U(j))))
        return GPtr(Ghost('BF' + self.B.tag, 'baf::BasisFunction', [i, q]))
