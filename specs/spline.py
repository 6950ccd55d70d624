"""Splines over symbolic parameter spaces and control nets of arbitrary size."""
import z3
from values import *
from common import *
from pspace import *
from net import *
from loops import Sum
I, R = z3.IntSort(), z3.RealSort()
from mih import Handler, digits


def BS(D): return f'spl::BSpline<{D}>'


def NU(D): return f'spl::NURBS<{D}>'


def ctor_types(D, weighted):
    t = [f'std::array<std::shared_ptr<baf::KnotVector>, {D}>', f'std::array<{DEG}, {D}>', 'std::vector<baf::ControlPoint>']
    return t + (['std::vector<double>'] if weighted else [])


class SpanContract:
    """KnotVector::GetKnotSpan (verified in C02): requires a parameter of the closed range that is not within rounding distance of the
    last knot unless equal to it; returns the span that contains it, a function of the knots and the parameter"""
    name = 'KnotVector::GetKnotSpan'

    def __init__(self, reg, K): self.reg, self.K = reg, K; reg.ex.contracts[(KV + '::GetKnotSpan', 1)] = self

    def applies(self, ex, this, args): return self.reg.tag(knots_vec(ex, this)) in self.K

    def apply(self, ex, this, args, f):
        j = self.reg.tag(knots_vec(ex, this)); K = self.K[j]; u = to_real(getv_ex(ex, args[0]))
        ex.oblige('parameter inside the knot range', z3.And(u >= K.lo, u <= K.hi, z3.Or(u == K.hi, K.hi - u >= to_real(KEPS))))
        k = z3.Function(f'SPAN{j}', z3.RealSort(), z3.IntSort())(u)
        ex.assume(K.is_span(k, u))
        return Obj(KS, {ex.prog.recs[KS]['fields'][0]['n']: k})


class FnContract:
    """contract given as a function (executor, arguments) -> result, for one object"""

    def __init__(self, ex, q, n, root, fn): self.name = q; self.root, self.fn = root, fn; ex.contracts[(q, n)] = self

    def applies(self, ex, this, args):
        r = this
        return r is not None and r.root == self.root

    def apply(self, ex, this, args, f): return self.fn(ex, [ex.load(x) if isinstance(x, Ref) else x for x in args])


class MultContract:
    """KnotVector::GetMultiplicity (verified in C02: the number of knots equal to the value, which is the length of the block of equal knots that ends at its span)"""
    name = 'KnotVector::GetMultiplicity'

    def __init__(self, reg, K): self.reg, self.K = reg, K; reg.ex.contracts[(KV + '::GetMultiplicity', 1)] = self

    def applies(self, ex, this, args): return self.reg.tag(knots_vec(ex, this)) in self.K

    def apply(self, ex, this, args, f):
        j = self.reg.tag(knots_vec(ex, this)); K = self.K[j]; u = to_real(getv_ex(ex, args[0]))
        s = z3.Function(f'MULT{j}', R, I)(u); k = z3.Function(f'SPAN{j}', R, I)(u); t = z3.Int('mj')
        ex.oblige('protocol: multiplicity asked for a parameter inside the range', z3.And(u >= K.lo, u < K.hi))
        ex.assume(z3.And(s >= 0, s <= k + 1)); ex.assume(K.is_span(k, u))
        ex.assume(z3.ForAll([t], z3.Implies(z3.And(t >= 0, t < to_int(K.n)), (K.U(t) == u) == z3.And(k - s < t, t <= k)), patterns=[K.U(t)]))
        return s


class Log:
    """contract that records the calls of a function: obliges check(executor, number of the call, arguments) and counts"""

    def __init__(self, a, q, n, check):
        self.name = q; self.check = check; self.cell = Ref(a.ex.alloc(0)); a.ex.contracts[(q, n)] = self; self.ex = a.ex

    def applies(self, ex, this, args): return True

    def apply(self, ex, this, args, f):
        c = ex.load(self.cell)
        self.check(ex, c, [ex.load(x) if isinstance(x, Ref) else x for x in args])
        ex.store(self.cell, ex.int_op('+', c, 1) if True else None)
        return None

    def count(self): return self.ex.load(self.cell)


class Spl:
    """a B-spline (weighted=False) or NURBS over arbitrary clamped knot vectors, degrees, control points and positive weights"""

    def __init__(self, a, D, dim, weighted, handler=True, tag='', share=None):
        self.a, self.D, self.dim, self.weighted = a, D, dim, weighted
        if handler: self.H = Handler(a, D)
        self.L = [z3.Int(f'L{tag}{d}') for d in range(D)]
        self.S = Space(a, D, obj=False, tag=tag, lens=self.L, reg=share.R if share else True); self.R = self.S.R; self.K = self.S.K; self.p = [to_int(x) for x in self.S.p]
        km = {self.R.tag(knots_vec(a.ex, v)): k for k, v in zip(self.K, self.S.kv)}
        if share: km.update(share.km)
        self.km = km; SpanContract(self.R, km); MultContract(self.R, km)
        self.net = Net(a, D, dim, tag=tag, L=self.L); self.P, self.W = self.net.P, self.net.W
        args = [self.S.kvs(), self.S.degs(), self.net.points] + ([self.net.weights] if weighted else [])
        self.obj = a.new_with((NU if weighted else BS)(D), ctor_types(D, weighted), *args)
        self.tags = [self.R.tag(knots_vec(a.ex, Ref(a.call(self.obj, 'GetKnotVector', d).root))) for d in range(D)]

    def first(self, u, us):
        """the span of each parameter, as characterised in C02/C04"""
        r = self.a.call(self.S_obj(), 'GetArrayOfFirstNonZeroBasisFunctions', us)
        return [to_int(x) for x in r.items]

    def S_obj(self):
        o = self.a.load(self.obj)
        return Ref([v for v in o.f.values() if isinstance(v, Ptr)][0].root)

    def positive_weights(self):
        l = z3.Int('wl')
        self.a.assume(z3.ForAll([l], self.W(l) > 0, patterns=[self.W(l)]))

    def basis(self, x, u):
        r = z3.RealVal(1)
        for d in range(self.D): r = r * self.R.V(self.tags[d])(x[d], self.p[d], u[d])
        return r

    def dbasis(self, x, k, u):
        r = z3.RealVal(1)
        for d in range(self.D): r = r * self.R.DV(self.tags[d])(x[d], self.p[d], to_int(k[d]), u[d])
        return r

    def count(self):
        t = z3.IntVal(1)
        for p in self.p: t = t * (p + 1)
        return t

    def term(self, first, i):
        """index tuple and linear index of the i-th function of the span"""
        e = self.raw_digits([p + 1 for p in self.p], i)
        x = [f + d for f, d in zip(first, e)]
        return x, rank(self.L, x)

    def raw_digits(self, M, i):
        if self.D == 1: return [to_int(i)]
        return [z3.Function(f'DIG{self.D}_{j}', *([z3.IntSort()] * (self.D + 2)))(*[to_int(m) for m in M], to_int(i)) for j in range(self.D)]

    # ---- contracts of the functions below Evaluate (those of the parameter space are verified in C04, those of the weights in C06 and C07)
    def space_contracts(self):
        a = self.a; ps = PS(self.D); root = self.S_obj().root; rd = lambda ex, v: [to_real(getv_ex(ex, x)) for x in v.items]

        def inside(ex, u):
            for k, x in zip(self.K, u): ex.oblige('parameter inside the knot range', z3.And(x >= k.lo, x <= k.hi, z3.Or(x == k.hi, k.hi - x >= to_real(KEPS))))

        def first(ex, args):
            u = rd(ex, args[0]); inside(ex, u); out = []
            for d, (k, x) in enumerate(zip(self.K, u)):
                j = z3.Function(f'SPAN{self.tags[d]}', z3.RealSort(), z3.IntSort())(x); ex.assume(z3.And(k.is_span(j, x), j >= self.p[d], j < self.L[d])); out.append(j - self.p[d])
            return Arr(out)

        def rng(ex, i):
            for d, x in enumerate(i): ex.oblige('basis function exists', z3.And(x >= 0, x < self.L[d]))

        def val(ex, args):
            i = [to_int(x) for x in args[0].items]; rng(ex, i); return self.basis(i, rd(ex, args[1]))

        def der(ex, args):
            i = [to_int(x) for x in args[0].items]; rng(ex, i); k = args[2].items
            for x in k: ex.oblige('order is not negative', ex.cmp('>=', x, 0))
            return self.dbasis(i, k, rd(ex, args[1]))
        FnContract(a.ex, ps + '::GetArrayOfFirstNonZeroBasisFunctions', 1, root, first)
        FnContract(a.ex, ps + '::GetBasisFunctions', 2, root, val); FnContract(a.ex, ps + '::GetBasisFunctionDerivatives', 3, root, der)
        return self

    def weight_contracts(self):
        a = self.a; root = self.obj.root; rd = lambda ex, v: [to_real(getv_ex(ex, x)) for x in v.items]; q = NU(self.D)
        FnContract(a.ex, q + '::GetEvaluatedWeightSum', 1, root, lambda ex, args: self.wsum(rd(ex, args[0])))
        FnContract(a.ex, q + '::GetEvaluatedDerivativeWeightSum', 2, root, lambda ex, args: self.dwsum(rd(ex, args[0]), args[1].items))
        return self

    def spans(self, u): return [z3.Function(f'SPAN{self.tags[d]}', z3.RealSort(), z3.IntSort())(u[d]) - self.p[d] for d in range(self.D)]

    def wsum(self, u): f = self.spans(u); return Sum(lambda i: (lambda t: self.basis(t[0], u) * self.W(t[1]))(self.term(f, i)), self.count(), 'R')

    def dwsum(self, u, k): f = self.spans(u); return Sum(lambda i: (lambda t: self.dbasis(t[0], k, u) * self.W(t[1]))(self.term(f, i)), self.count(), 'R')
