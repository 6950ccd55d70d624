"""Parameter spaces over symbolic knot vectors. Basis functions are known through the contract of CreateDynamic (verified in C03):
the object made from knot sequence s for (i, q) has value V_s(i, q, u) and derivatives DV_s(i, q, k, u)."""
import z3
from values import *
from common import *
from basis import getv_ex, FACTORY
I, R = z3.IntSort(), z3.RealSort()
DER = 'util::NamedType<int, DerivativeParameter>'


def PS(D): return f'spl::ParameterSpace<{D}>'


def knots_vec(ex, kv):
    v = ex.load(kv) if isinstance(kv, Ref) else kv
    vs = [x for x in v.f.values() if isinstance(x, Vec)]
    if len(vs) != 1: raise Unsupported('knot vector representation')
    return vs[0]


class Registry:
    """contract of CreateDynamic with one spec function per knot sequence"""
    name = 'BasisFunctionFactory::CreateDynamic'

    def __init__(self, a):
        self.seqs = []; self.ex = a.ex
        a.ex.contracts[(FACTORY, 3)] = self
        self.methods = a.ex.ghost_methods

    def tag(self, vec):
        for j, v in enumerate(self.seqs):
            if v is vec or (v.items is not None and vec.items is not None and len(v.items) == len(vec.items) and all(val_same(x, y) for x, y in zip(v.items, vec.items))): return j
        self.seqs.append(vec); j = len(self.seqs) - 1
        self.methods[(f'BF{j}', 'Evaluate')] = lambda ex, g, args: self.V(j)(to_int(g.args[0]), to_int(g.args[1]), to_real(getv_ex(ex, args[0])))
        self.methods[(f'BF{j}', 'EvaluateDerivative')] = lambda ex, g, args: self.DV(j)(to_int(g.args[0]), to_int(g.args[1]), to_int(getv_ex(ex, args[1])), to_real(getv_ex(ex, args[0])))
        return j

    def V(self, j): return z3.Function(f'V{j}', I, I, R, R)

    def DV(self, j): return z3.Function(f'DV{j}', I, I, I, R, R)

    def applies(self, ex, this, args): return True

    def apply(self, ex, this, args, f):
        vec = knots_vec(ex, args[0]); i, q = to_int(getv_ex(ex, args[1])), to_int(getv_ex(ex, args[2]))
        ex.oblige('basis function indices in range', z3.And(q >= 0, i >= 0, i + q + 1 < to_int(vec.n)))
        return GPtr(Ghost(f'BF{self.tag(vec)}', 'baf::BasisFunction', [i, q]))


def val_same(x, y):
    if isinstance(x, Obj): return x.cls == y.cls and all(val_same(x.f[k], y.f[k]) for k in x.f)
    if is_z3(x) and is_z3(y): return x.eq(y)
    return type(x) == type(y) and x == y


def clamped(K, p):
    j = z3.Int('cl')
    if z3.is_int_value(K.n) and isinstance(p, int):
        n = K.n.as_long()
        return z3.And(z3.BoolVal(n >= 2 * p + 2), *[K.U(j) == K.lo for j in range(p + 1) if j < n], *[K.U(n - 1 - j) == K.hi for j in range(p + 1) if j < n])
    p = to_int(p)
    return z3.And(K.n >= 2 * p + 2, z3.ForAll([j], z3.Implies(z3.And(0 <= j, j <= p), K.U(j) == K.U(0)), patterns=[K.U(j)]),
                  z3.ForAll([j], z3.Implies(z3.And(K.n - 1 - p <= j, j <= K.n - 1), K.U(j) == K.hi), patterns=[K.U(j)]))


class Space:
    def __init__(self, a, D, valid=True, reg=True, tag='', obj=True, kcls=Knots, lens=None):
        self.a, self.D = a, D
        self.R = Registry(a) if reg is True else reg
        if lens is None: self.K = [kcls(a, f'{tag}{d}') for d in range(D)]
        else:
            # the numbers of basis functions are the unknowns: n = L + p + 1
            self.K = []
            for d in range(D):
                p = z3.Int(f'p{tag}{d}'); a.assume(z3.And(p >= 0, lens[d] >= p + 1, lens[d] + p + 1 <= 2 ** 30)); self.K.append(kcls(a, f'{tag}{d}', n=lens[d] + p + 1))
        self.p = [z3.Int(f'p{tag}{d}') if not a.small else (a.small // 2 - 1 if d == 0 else 0) for d in range(D)]
        for d in range(D): a.assume(to_int(self.p[d]) >= 0)
        if valid:
            for d in range(D): a.assume(clamped(self.K[d], self.p[d]))
        self.kv = [k.object(a) for k in self.K]
        if obj: self.obj = a.new(PS(D), self.kvs(), self.degs())

    def kvs(self): return Arr([Ptr(r.root) for r in self.kv])

    def degs(self): return Arr([deg(self.a, x) for x in self.p])

    def params(self, inside=True, name='u'):
        u = [k.inside(self.a, f'{name}{d}') for d, k in enumerate(self.K)] if inside else [z3.Real(f'{name}{d}') for d in range(self.D)]
        return u, Arr([pc(self.a, x) for x in u])


def check_basis(a, sp, R, what, n, p):
    """the space's tensor-product values and derivatives are those of its current knot vectors (n[d] knots) and degrees p[d]"""
    D = len(n)
    idx = [z3.Int(f'x{d}') for d in range(D)]; k = [z3.Int(f'der{d}') for d in range(D)]; u = [z3.Real(f'u{d}') for d in range(D)]
    for d in range(D): a.assume(z3.And(idx[d] >= 0, idx[d] < to_int(n[d]) - to_int(p[d]) - 1, k[d] >= 0))
    tags = [R.tag(knots_vec(a.ex, Ref(a.call(sp, 'GetKnotVector', d).root))) for d in range(D)]
    us = Arr([pc(a, x) for x in u])
    want = z3.RealVal(1); dwant = z3.RealVal(1)
    for d in range(D):
        want = want * R.V(tags[d])(idx[d], to_int(p[d]), u[d]); dwant = dwant * R.DV(tags[d])(idx[d], to_int(p[d]), k[d], u[d])
    a.ensure(what + ': basis value is the product of the univariate values for the current knots and degrees', eq(a.call(sp, 'GetBasisFunctions', Arr(idx), us), want))
    a.ensure(what + ': basis derivative is the product of the univariate derivatives', eq(a.call(sp, 'GetBasisFunctionDerivatives', Arr(idx), us, Arr(k)), dwant))


def check_reports(a, sp, what, n, U, p):
    """degrees and knots are reported as n[d] knots U[d](i) and degree p[d]"""
    for d in range(len(n)):
        a.ensure(f'{what}: degree of direction {d}', eq(getv(a, a.call(sp, 'GetDegree', d)), p[d]))
        kv = a.call(sp, 'GetKnotVector', d)
        a.ensure(f'{what}: knots of direction {d}', elems_equal(a, Ref(kv.root), n[d], U[d]))
