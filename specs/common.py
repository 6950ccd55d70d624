"""Shared pieces of the specifications: symbolic knot vectors and the abstract vocabulary of the contracts."""
from fractions import Fraction
import z3
from values import *

PC = 'util::NamedType<double, ParamCoordParameter>'
KS = 'util::NamedType<int, KnotSpanParameter>'
DEG = 'util::NamedType<int, DegreeParameter>'
KV = 'baf::KnotVector'
KEPS = Fraction(10, 2 ** 52)      # util::NumericSettings<double>::kEpsilon()


def pc(a, v): return a.nt(PC, v)


def deg(a, v): return a.nt(DEG, v)


def getv(a, r):
    """the number inside a NamedType (value or Ref)"""
    o = a.load(r) if isinstance(r, Ref) else r
    return o.f[a.ntfield(o.cls)]


class Knots:
    """an arbitrary non-decreasing knot sequence U(0) <= ... <= U(n-1), n >= 2, U(0) < U(n-1)"""

    def __init__(self, a, tag='', n=None, minlen=2):
        if n is None and a.small: n = max(a.small, minlen)
        self.n = z3.Int('n' + tag) if n is None else n
        self.U = z3.Function('U' + tag, z3.IntSort(), z3.RealSort())
        i, j = z3.Ints('si sj')
        if n is None: a.assume(z3.And(to_int(self.n) >= minlen, to_int(self.n) <= 2 ** 30))      # knots are counted with int
        if isinstance(self.n, int):
            for q in range(self.n - 1): a.assume(self.U(q) <= self.U(q + 1))
            self.n = z3.IntVal(self.n)
        else: a.assume(z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i <= j, j < self.n), self.U(i) <= self.U(j)), patterns=[z3.MultiPattern(self.U(i), self.U(j))]))
        self.lo, self.hi = self.U(0), self.U(to_int(self.n) - 1)
        a.assume(self.lo < self.hi)

    def vec(self, a):
        if z3.is_int_value(self.n): return Vec(items=[pc(a, self.U(i)) for i in range(self.n.as_long())])
        return Vec(n=self.n, get=lambda i: pc(a, self.U(to_int(i))))

    def object(self, a): return a.new_with(KV, ['std::vector<' + PC + '>'], self.vec(a))

    def inside(self, a, name='u'):
        """an arbitrary parameter of the closed range that is not within rounding distance of the last knot unless equal"""
        u = z3.Real(name)
        a.assume(z3.And(u >= self.lo, u <= self.hi))
        a.assume(z3.Or(u == self.hi, self.hi - u >= to_real(KEPS)))
        return u

    def is_span(self, k, u):
        k = to_int(k)
        return z3.And(k >= 0, k <= to_int(self.n) - 2, self.U(k) <= u, z3.Or(u < self.U(k + 1), z3.And(u == self.hi, self.U(k) < self.hi, self.U(k + 1) == self.hi)))


def knots_of(a, kv):
    """(number, getter) of a knot vector as seen through its interface"""
    n = a.call(kv, 'GetNumberOfKnots')
    return n, (lambda i: getv(a, a.call(kv, 'GetKnot', i)))


def elems_equal(a, kv, n, f):
    """formula: kv has n knots and knot i is f(i)"""
    m = a.call(kv, 'GetNumberOfKnots'); i = fresh('ki')
    got = a.ex.merge_eval(lambda: getv(a, a.call(kv, 'GetKnot', i)), z3.And(i >= 0, i < to_int(n)))
    return land(eq(m, n), z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < to_int(n)), to_real(got) == to_real(f(i)))))
