"""Control nets of arbitrary size: points P(l, c), l the linear index with the first direction fastest, and weights W(l)."""
import z3
from values import *
from common import *
from C01 import rank, total
CP = 'baf::ControlPoint'


def PHS(D): return f'spl::PhysicalSpace<{D}>'


def WPS(D): return f'spl::WeightedPhysicalSpace<{D}>'


def point(a, f, dim):
    """a ControlPoint with coordinates f(0..dim-1)"""
    return a.load(a.new_with(CP, ['std::vector<double>'], Vec(items=[f(c) for c in range(dim)])))


def coords(a, p):
    o = a.load(p) if isinstance(p, Ref) else p
    r = p if isinstance(p, Ref) else Ref(a.ex.alloc(o))
    n = a.call(r, 'GetDimension')
    return n, (lambda c: a.call(r, 'GetValue', c))


class Net:
    def __init__(self, a, D, dim, tag='', L=None, weighted=True):
        self.a, self.D, self.dim = a, D, dim
        self.L = L or [z3.Int(f'L{tag}{j}') for j in range(D)]
        for l in self.L: a.assume(to_int(l) >= 1)
        self.P = z3.Function('P' + tag, z3.IntSort(), z3.IntSort(), z3.RealSort()); self.W = z3.Function('W' + tag, z3.IntSort(), z3.RealSort())
        self.T = total([to_int(l) for l in self.L])
        a.assume(self.T * dim <= 2 ** 30)
        c = conc_int(simp(self.T))
        if c is not None: self.points = Vec(items=[point(a, lambda c, l=l: self.P(l, c), dim) for l in range(c)]); self.weights = Vec(items=[self.W(l) for l in range(c)])
        else:
            tmpl = point(a, lambda c: self.P(z3.Int('tl'), c), dim)
            import loops
            self.points = Vec(n=self.T, get=lambda i: loops.sub(tmpl, [(z3.Int('tl'), to_int(i))])); self.weights = Vec(n=self.T, get=lambda i: self.W(to_int(i)))

    def plain(self): return self.a.new_with(PHS(self.D), ['std::vector<baf::ControlPoint>', f'std::array<int, {self.D}>'], self.points, Arr(self.L))

    def weighted(self): return self.a.new_with(WPS(self.D), ['std::vector<baf::ControlPoint>', 'std::vector<double>', f'std::array<int, {self.D}>'], self.points, self.weights, Arr(self.L))

    def index(self, name='x'):
        d = [z3.Int(f'{name}{j}') for j in range(self.D)]
        for l, x in zip(self.L, d): self.a.assume(z3.And(x >= 0, x < to_int(l)))
        # ground lemma of C01: the linear index of a tuple lies in [0, total)
        r = rank([to_int(l) for l in self.L], d)
        self.a.assume(z3.And(r >= 0, r < self.T))
        return d, r


def read_point(a, sp, d, what, dim, want, extra=''):
    n, f = coords(a, a.call(sp, 'GetControlPoint', Arr(d)))
    a.ensure(what + ': dimension of the point', eq(n, dim))
    for c in range(dim): a.ensure(f'{what}: coordinate {c}{extra}', eq(f(c), want(c)))
