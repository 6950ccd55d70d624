"""C18: random generators only produce valid splines within the requested bounds, whatever numbers are drawn."""
import z3
from values import *
from spec import Task
from common import *
from spline import BS, NU, DEG
from C01 import rank, total
from mih import Handler
from spline import *
from fixed import knots_of_spline, degree_of

TU = 'gen'
LINK = ('src/baf',)
ASSUME = ('random distributions of the standard library draw numbers of their support',)


class Draws:
    """contract of GetBinomialRandom (verified below): min + k * distance for some k = 0 .. floor((max - min) / distance), cut to the type asked for"""
    name = 'util::Random::GetBinomialRandom'

    def __init__(self, a): self.n = Ref(a.ex.alloc(0)); a.ex.contracts[(self.name, 3)] = self
    def applies(self, ex, this, args): return True
    def apply(self, ex, this, args, f):
        lo, hi, d = [to_real(ex.load(x) if isinstance(x, Ref) else x) for x in args]
        ex.oblige('bounds of the draw', z3.And(lo <= hi, d > 0))
        m = conc_int(simp(z3.ToInt((hi - lo) / d)))
        if m is not None:        # the draw with number i is given by an arbitrary function of i, cut to the range
            i = ex.load(self.n); ex.store(self.n, ex.int_op('+', i, 1)); k = z3.Function('DRAW', I, I)(to_int(i)) % (m + 1)
        else: k = fresh('k'); ex.assume(z3.And(k >= 0, to_real(k) * d <= hi - lo))
        r = lo + to_real(k) * d
        return r if self.real(f) else z3.If(r >= 0, z3.ToInt(r), -z3.ToInt(-r))
    def real(self, f): return f['rt'].startswith('double')


class Of:
    """contract that returns what a part of the generator was shown to return"""
    def __init__(self, a, q, n, fn): self.name, self.fn = q, fn; a.ex.contracts[(q, n)] = self
    def applies(self, ex, this, args): return True
    def apply(self, ex, this, args, f): return self.fn(ex, [ex.load(x) if isinstance(x, Ref) else x for x in args])


def tasks():
    T = []
    for t in ('int', 'double'):
        def draw(a, t=t):
            c = [f for f in a.prog.by_q['util::Random::GetBinomialRandom'] if f['rt'].startswith(t)][0]
            lo, hi, d = z3.Reals('lo hi d'); k = z3.Int('k'); a.assume(z3.And(lo <= hi, d > 0, hi - lo < 2 ** 20, (hi - lo) / d < 2 ** 30, lo > -2 ** 20, hi < 2 ** 20))
            if t == 'int': i, j = z3.Ints('i j'); a.assume(z3.And(lo == z3.ToReal(i), hi == z3.ToReal(j), d == 1))
            r = a.ex.call_fn(c, None, a.ex.match_args(c, [lo, hi, d])); r = to_real(a.load(r) if isinstance(r, Ref) else r)
            a.ensure('the draw lies between the bounds', z3.And(r >= lo, r <= hi))
            if t == 'int': a.ensure('the draw lies on the grid', r == z3.ToReal(z3.ToInt(r)))
        T.append(Task(f'GetBinomialRandom<{t}>', draw))
    def uni(a):
        lo, hi = z3.Reals('lo hi'); a.assume(lo <= hi); r = a.static('util::Random::GetUniformRandom', lo, hi); a.ensure('the draw lies between the bounds', z3.And(r >= lo, r <= hi))
    T.append(Task('GetUniformRandom', uni))

    RU = lambda D: f'spl::RandomSplineUtils<{D}>'
    lim = lambda a: (z3.Real('lo'), z3.Real('hi'))
    for D in (1, 2, 3, 4):
        def degs(a, D=D):
            Draws(a); m = z3.Int('max_degree'); a.assume(z3.And(m >= 1, m < 2 ** 20)); r = a.static(RU(D) + '::GetRandomDegrees', m)
            for x in r.items: q = to_int(getv(a, x)); a.ensure('degree within the bound', z3.And(q >= 1, q <= m))
        T.append(Task(f'GetRandomDegrees<{D}>', degs))

        def kvs(a, D=D):
            Draws(a); lo, hi = lim(a); a.assume(lo < hi); p = [z3.Int(f'p{d}') for d in range(D)]
            for x in p: a.assume(z3.And(x >= 1, x < 2 ** 20))
            r = a.static(RU(D) + '::GetRandomKnotVectors', Arr([pc(a, lo), pc(a, hi)]), Arr([deg(a, x) for x in p]))
            for d, v in enumerate(r.items):
                kv = Ref(v.root, v.path); n = to_int(a.call(kv, 'GetNumberOfKnots')); i = z3.Int(f'i{d}'); K = lambda i: to_real(getv(a, a.call(kv, 'GetKnot', i)))
                a.ensure('enough knots', n >= 2 * p[d] + 2)
                a.assume(z3.And(i >= 0, i < n)); x = K(i)
                a.ensure('starts with degree + 1 equal knots', z3.Implies(i <= p[d], x == lo)); a.ensure('ends with degree + 1 equal knots', z3.Implies(i >= n - 1 - p[d], x == hi))
                a.ensure('inner knots lie inside', z3.Implies(z3.And(i > p[d], i < n - 1 - p[d]), z3.And(x > lo, x < hi)))
                j = z3.Int(f'j{d}'); a.assume(z3.And(j >= 0, j + 1 < n)); a.ensure('knots do not decrease', K(j) <= K(j + 1))
        T.append(Task(f'GetRandomKnotVectors<{D}>', kvs))

        for dim in (1, 2, 3):
            def points(a, D=D, dim=dim):
                Draws(a); Handler(a, D); L = [z3.Int(f'L{d}') for d in range(D)]
                for l in L: a.assume(l >= 1)
                t = total(L); a.assume(t * dim <= 2 ** 30); r = a.static(RU(D) + '::GetRandomControlPoints', dim, Arr(L))
                a.ensure('one control point per index', eq(r.n, t)); i = z3.Int('i'); a.assume(z3.And(i >= 0, i < t)); c = Ref(a.ex.alloc(r.get(i)))
                a.ensure('dimension of the point', eq(a.call(c, 'GetDimension'), dim))
                for j in range(dim): x = to_real(a.call(c, 'GetValue', j)); a.ensure('coordinates lie in the box of the draws', z3.And(x >= -5, x <= 5))
            T.append(Task(f'GetRandomControlPoints<{D}> in dimension {dim}', points))

        def weights(a, D=D):
            Draws(a); Handler(a, D); L = [z3.Int(f'L{d}') for d in range(D)]
            for l in L: a.assume(l >= 1)
            t = total(L); a.assume(t <= 2 ** 30); r = a.static(RU(D) + '::GetRandomWeights', Arr(L))
            a.ensure('one weight per index', eq(r.n, t)); i = z3.Int('i'); a.assume(z3.And(i >= 0, i < t)); a.ensure('weights are positive', to_real(r.get(i)) > 0)
        T.append(Task(f'GetRandomWeights<{D}>', weights))
        for w in (False, True):
            def gen(a, D=D, w=w):
                dim = 2; lo, hi = z3.Reals('lo hi'); md = z3.Int('max_degree'); a.assume(z3.And(lo < hi, md >= 1))
                L = [z3.Int(f'L{d}') for d in range(D)]; Handler(a, D); S = Space(a, D, obj=False, lens=L); net = Net(a, D, dim, L=L)
                for k in S.K: a.assume(z3.And(k.lo == lo, k.hi == hi))
                Of(a, RU(D) + '::GetRandomDegrees', 1, lambda ex, x: S.degs()); Of(a, RU(D) + '::GetRandomKnotVectors', 2, lambda ex, x: S.kvs())

                def cps(ex, x):
                    ex.oblige('control points of the dimension asked for', eq(x[0], dim)); lens(ex, x[1]); return net.points
                def lens(ex, v):
                    for u, l in zip(v.items, L): ex.oblige('one control point per basis function', eq(u, l))
                def wts(ex, x): lens(ex, x[0]); return net.weights
                Of(a, RU(D) + '::GetRandomControlPoints', 2, cps); Of(a, RU(D) + '::GetRandomWeights', 1, wts)
                g = a.new_with(f'spl::Random{"NURBS" if w else "BSpline"}Generator<{D}>', [f'std::array<{PC}, 2>', 'int', 'int'], Arr([pc(a, lo), pc(a, hi)]), md, dim)
                o = a.new_with((NU if w else BS)(D), [f'{"spl::NURBS" if w else "spl::BSpline"}Generator<{D}>'], g)
                for d in range(D):
                    a.ensure('degree drawn', eq(getv(a, a.call(o, 'GetDegree', d)), S.p[d])); kv = Ref(a.call(o, 'GetKnotVector', d).root)
                    a.ensure('knots drawn', elems_equal(a, kv, S.K[d].n, S.K[d].U))
                for x, l in zip(a.call(o, 'GetPointsPerDirection').items, L): a.ensure('numbers of points', eq(x, l))
                x, r = net.index()
                for c in range(dim): a.ensure('control point drawn', eq(a.call(o, 'GetControlPoint', Arr(x), c), net.P(r, c)))
                if w: a.ensure('weight drawn', eq(a.call(o, 'GetWeight', Arr(x)), net.W(r)))
            T.append(Task(f'Random{"NURBS" if w else "BSpline"}Generator<{D}>', gen))
    return T
