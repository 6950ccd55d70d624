"""C06: evaluation of B-splines and NURBS, D = 1..4, all knot vectors, degrees, control points and weights."""
import z3
from values import *
from spec import Task
from spline import *
from basis import Basis
import loops

TU = 'core'
LINK = ('src/baf',)
ASSUME = ('the number of coordinates per point is 2 (one proof); the number of points, the degrees and the knots are arbitrary', 'weights are positive')


def tasks():
    T = []
    for D in (1, 2, 3, 4):
        for w in (False, True):
            tag = f'{"NURBS" if w else "BSpline"}<{D}>'

            def ev(a, D=D, w=w):
                dim = 2
                s = Spl(a, D, dim, w)
                if w: s.positive_weights()
                u, us = s.S.params()
                c = [1, 0]
                f = s.first(u, us); n = s.count()
                if w: a.assume(Sum(lambda i: (lambda t: s.basis(t[0], u) * s.W(t[1]))(s.term(f, i)), n, 'R') > 0)      # lemma: weight sum
                r = a.call(s.obj, 'Evaluate', us, Vec(items=c))
                a.ensure('one value per requested coordinate', eq(r.n, 2))
                coord = lambda l, cc: s.P(l, cc)
                for j, cc in enumerate(c):
                    if not w: want = Sum(lambda i: (lambda t: s.basis(t[0], u) * coord(t[1], cc))(s.term(f, i)), n, 'R')
                    else:
                        ws = Sum(lambda i: (lambda t: s.basis(t[0], u) * s.W(t[1]))(s.term(f, i)), n, 'R')
                        want = Sum(lambda i: (lambda t: s.basis(t[0], u) * (coord(t[1], cc) * s.W(t[1])) / ws)(s.term(f, i)), n, 'R')
                    a.ensure('value is the weighted sum of the control points over the functions of the span', eq(r.get(j), want))
            T.append(Task(f'{tag}::Evaluate', ev))

            def outside(a, D=D, w=w):
                s = Spl(a, D, 1, w); u, us = s.S.params(inside=False)
                a.assume(z3.Or(*[z3.Or(x < k.lo, x > k.hi) for k, x in zip(s.K, u)]))
                e = a.throws(lambda: a.call(s.obj, 'Evaluate', us, Vec(items=[0])))
                a.ensure('evaluating outside the parameter range throws range_error', e == 'std::range_error')
            T.append(Task(f'{tag}::Evaluate outside the range', outside))

    # ---- lemmas over the contracts
    def lem(name, f, **kw):
        def run(a):
            K = Knots(a, minlen=2); B = Basis(K); f(a, K, B, z3.Int('i'), z3.Int('p'), z3.Real('u'))
        T.append(Task('lemma: ' + name, run, **kw))

    def wsum(a, K, B, i, p, u):
        """partial sums A of the values and S of the weighted values: S >= 0 and S > 0 as soon as A > 0 (A is 1 in the end, C03)"""
        A, S, v, w = z3.Reals('A S v w'); inv = lambda A, S: z3.And(A >= 0, S >= 0, z3.Implies(A > 0, S > 0))
        a.ensure('empty sums', inv(z3.RealVal(0), z3.RealVal(0)))
        a.assume(z3.And(inv(A, S), v >= 0, w > 0)); a.assume(v * w >= 0); a.assume(z3.Implies(v > 0, v * w > 0))
        a.ensure('the weight sum is positive', inv(A + v, S + v * w))
    lem('positive weights give a positive weight sum', wsum)

    def box(a, K, B, i, p, u):
        """weighted sums stay between lo and hi times the weight sum; with unit weights the plain sum"""
        S, Q, b, x, lo, hi = z3.Reals('S Q b x lo hi')      # S: sum of b, Q: sum of b * x
        inv = lambda S, Q: z3.And(lo * S <= Q, Q <= hi * S)
        a.ensure('empty sums', inv(z3.RealVal(0), z3.RealVal(0)))
        a.assume(z3.And(inv(S, Q), b >= 0, lo <= x, x <= hi)); a.assume(z3.And(b * (x - lo) >= 0, b * (hi - x) >= 0))
        a.ensure('partial sums inside the box', inv(S + b, Q + b * x))
        a.assume(S > 0); a.ensure('the point lies in the bounding box', z3.And(lo <= Q / S, Q / S <= hi))
    lem('bounding box', box)

    def glob(a, K, B, i, p, u):
        """the sum over all control points is the sum over the p+1 functions of the span: partial sums G(t) over i < t"""
        k, t = z3.Ints('k t'); a.assume(z3.And(p >= 0, k - p >= 0, k + p + 1 < K.n, K.is_span(k, u), K.U(k) < K.U(k + 1)))
        P = z3.Function('P', I, R); LOC = z3.Function('LOC', I, R)      # LOC(m): sum over the first m functions of the span
        m = z3.Int('m'); step = lambda m: LOC(m + 1) == LOC(m) + B.N(k - p + m, p, u) * P(k - p + m)
        part = lambda t: z3.If(t <= k - p, z3.RealVal(0), z3.If(t <= k + 1, LOC(t - (k - p)), LOC(p + 1)))
        a.assume(LOC(0) == 0); a.assume(z3.And(t >= 0, t < K.n - p - 1)); a.assume(z3.Implies(z3.And(t >= k - p, t <= k), step(t - (k - p))))
        a.assume(z3.Implies(z3.Not(B.in_support(t, p, u)), B.N(t, p, u) == 0))      # C03: local support
        a.ensure('empty sum', part(z3.IntVal(0)) == 0)
        a.ensure('functions outside the span add nothing', part(t + 1) == part(t) + B.N(t, p, u) * P(t))
    lem('the sum over all control points is the sum over the span', glob)

    def ends(a, K, B, i, p, u):
        """clamped ends: N(p-q, q, first knot) = 1 and all others vanish, by induction over q; mirrored at the last knot"""
        q = z3.Int('q'); a.assume(z3.And(p >= 0, q >= 0, q <= p)); a.assume(clamped(K, p))
        one = lambda c: z3.If(c, z3.RealVal(1), z3.RealVal(0))
        a.assume(z3.And(i >= 0, i + q + 1 < K.n)); n = to_int(K.n)
        for nm, uu, at in (('first', K.lo, lambda q: p - q), ('last', K.hi, lambda q: n - p - 2)):
            # the span at this end is not empty: knot p is the last copy of the first knot (K.U(p + 1) > lo), mirrored at the other end
            a.assume(K.U(p + 1) > K.lo if nm == 'first' else K.U(n - p - 2) < K.hi)
            a.ensure(f'{nm} knot, degree 0', z3.Implies(q == 0, B.N0(i, uu) == one(i == (p if nm == 'first' else n - p - 2))))
            for j in (i, i + 1): a.assume(z3.Implies(q >= 1, B.N(j, q - 1, uu) == one(j == at(q - 1))))
            a.ensure(f'{nm} knot, degree q', z3.Implies(q >= 1, B.cox(i, q, uu) == one(i == at(q))))
    lem('the basis interpolates at clamped ends', ends, timeout=20)
    return T
