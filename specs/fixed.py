"""Splines of a given shape (degrees and knots are numbers) with arbitrary control points; weights are given positive numbers."""
import z3
from fractions import Fraction
from values import *
from common import *
from spline import ctor_types, BS, NU
from net import point
from C01 import rank, total
F = Fraction


def lin(x):
    """canonical form of a term that is linear in the control points"""
    if not is_z3(x): return x
    return simp(z3.simplify(to_real(x), som=True))


class Fixed:
    def __init__(self, a, U, p, dim=1, weights=None, tag='P', free=True):
        self.a, self.U, self.p, self.D, self.dim = a, [[x if is_z3(x) else F(x) for x in u] for u in U], list(p), len(p), dim
        self.L = [len(u) - q - 1 for u, q in zip(U, p)]; self.T = total(self.L); self.weighted = weights is not None
        self.P = [[z3.Real(f'{tag}{l}_{c}') for c in range(dim)] for l in range(self.T)]
        self.W = [w if is_z3(w) else F(w) for w in map(weights, range(self.T))] if weights else None
        self.obj = self.make(self.P, self.W)

    def kvs(self):
        a = self.a
        return Arr([Ptr(a.new_with(KV, ['std::vector<' + PC + '>'], Vec(items=[pc(a, x) for x in u])).root) for u in self.U])

    def make(self, P, W):
        a = self.a
        args = [self.kvs(), Arr([deg(a, q) for q in self.p]), Vec(items=[point(a, lambda c, r=r: r[c], self.dim) for r in P])] + ([Vec(items=list(W))] if W else [])
        return a.new_with((NU if W else BS)(self.D), ctor_types(self.D, bool(W)), *args)


def knots_of_spline(a, o, d):
    kv = Ref(a.call(o, 'GetKnotVector', d).root); n = conc_int(a.call(kv, 'GetNumberOfKnots'))
    return [getv(a, a.call(kv, 'GetKnot', i)) for i in range(n)]


def degree_of(a, o, d): return conc_int(getv(a, a.call(o, 'GetDegree', d)))


def net_of(a, o, D, weighted, dim):
    """[(coordinates, weight)] in linear order"""
    L = [conc_int(x) for x in a.call(o, 'GetPointsPerDirection').items]; out = []
    for l in range(total(L)):
        idx = []; r = l
        for n in L: idx.append(r % n); r //= n
        out.append(([a.call(o, 'GetControlPoint', Arr(idx), c) for c in range(dim)], a.call(o, 'GetWeight', Arr(idx)) if weighted else None))
    return L, out


def evaluate(a, o, u, dim): return [lin(x) for x in a.call(o, 'Evaluate', Arr([pc(a, F(x)) for x in u]), Vec(items=list(range(dim)))).items]


def samples(U, deg):
    """deg + 1 parameters in every span, ends included: they determine a piecewise polynomial of that degree"""
    d = sorted(set(U)); out = []
    for x, y in zip(d, d[1:]):
        m = max(deg, 1)
        for i in range(m + 1):
            t = x + (y - x) * F(i, m)
            if t not in out: out.append(t)
    return out


def grid(a, s, deg=None, reduce=None):
    import itertools
    return list(itertools.product(*[samples(u, (deg or s.p)[d]) for d, u in enumerate(s.U)]))


def same_lin(xs, ys): return land(*[eq(lin(x), lin(y)) for x, y in zip(xs, ys)])
