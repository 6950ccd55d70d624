"""C05: PhysicalSpace<D> and WeightedPhysicalSpace<D>, D = 1..4, for all point counts; coordinate dimension 1..3."""
import z3
from fractions import Fraction
from values import *
from spec import Task
from common import *
from net import *
from mih import Handler, digits

TU = 'core'
LINK = ('src/baf',)
ASSUME = ('the number of coordinates per point is one of 1, 2, 3 (one proof each); the number of points is arbitrary', 'points and total counts fit into int')


def tasks():
    T = []
    for D in (1, 2, 3, 4):
        for dim in (1, 2, 3):
            if D == 4 and dim != 3: continue
            tag = f'<{D}> with {dim} coordinates'

            def read(a, D=D, dim=dim):
                N = Net(a, D, dim)
                for what, sp in (('plain net', N.plain()), ('weighted net', N.weighted())):
                    d, r = N.index()
                    read_point(a, sp, d, what, dim, lambda c: N.P(r, c))
                    a.ensure(what + ': number of points', eq(a.call(sp, 'GetNumberOfControlPoints'), N.T))
                    a.ensure(what + ': counts', land(*[eq(x, y) for x, y in zip(a.call(sp, 'GetPointsPerDirection').items, N.L)]))
                    a.ensure(what + ': largest indices', land(*[eq(x, y - 1) for x, y in zip(a.call(sp, 'GetMaximumPointIndexInEachDirection').items, N.L)]))
                    a.ensure(what + ': coordinate dimension', eq(a.call(sp, 'GetDimension'), dim))
                    a.ensure(what + ': weight', eq(a.call(sp, 'GetWeight', Arr(d)), Fraction(1) if what[0] == 'p' else N.W(r)))
                n, f = coords(a, a.call(sp, 'GetHomogenousControlPoint', Arr(d)))
                a.ensure('homogeneous point has one more coordinate', eq(n, dim + 1))
                for c in range(dim): a.ensure('homogeneous coordinate is coordinate times weight', eq(f(c), N.P(r, c) * N.W(r)))
                a.ensure('last homogeneous coordinate is the weight', eq(f(dim), N.W(r)))
                ws = a.call(sp, 'GetWeights'); i = fresh('wi')
                a.ensure('list of weights', land(eq(ws.n, N.T), z3.Implies(z3.And(i >= 0, i < N.T), to_real(ws.get(i)) == N.W(i))))

            def write(a, D=D, dim=dim):
                N = Net(a, D, dim); q = [z3.Real(f'q{c}') for c in range(dim)]; w = z3.Real('nw')
                d, r = N.index(); e, s = N.index('y')
                # equal linear indices mean equal tuples (C01)
                a.assume(z3.Implies(r == s, z3.And(*[x == y for x, y in zip(d, e)])))
                new = point(a, lambda c: q[c], dim)
                for what, sp, st in (('SetControlPoint', N.plain(), 0), ('SetControlPoint (weighted)', N.weighted(), 0), ('SetWeightedControlPoint', N.weighted(), 1), ('SetWeight', N.weighted(), 2)):
                    if st == 0: a.call(sp, 'SetControlPoint', Arr(d), new, 0, NULL)
                    elif st == 1: a.call(sp, 'SetWeightedControlPoint', Arr(d), new, w)
                    else: a.call(sp, 'SetWeight', Arr(d), w, 0, NULL)
                    same = z3.And(*[x == y for x, y in zip(d, e)])
                    read_point(a, sp, e, what, dim, lambda c: z3.If(same, q[c], N.P(s, c)) if st != 2 else N.P(s, c), ' changes at that index only')
                    if what != 'SetControlPoint': a.ensure(what + ': weight', eq(a.call(sp, 'GetWeight', Arr(e)), z3.If(same, w, N.W(s)) if st else N.W(s)))
                    a.ensure(what + ': counts stay', land(*[eq(x, y) for x, y in zip(a.call(sp, 'GetPointsPerDirection').items, N.L)]))

            def grow(a, D=D, dim=dim):
                N = Net(a, D, dim); m = z3.Int('m'); a.assume(z3.And(m >= 0, m <= 2 ** 29))
                for what, sp in (('plain net', N.plain()), ('weighted net', N.weighted())):
                    d, r = N.index()
                    a.call(sp, 'AddControlPoints', m)
                    a.ensure(what + ': number of points after adding', eq(a.call(sp, 'GetNumberOfControlPoints'), N.T + m))
                    read_point(a, sp, d, what + ' after adding', dim, lambda c: N.P(r, c))
                    if what[0] == 'w':
                        a.ensure(what + ': weight after adding', eq(a.call(sp, 'GetWeight', Arr(d)), N.W(r)))
                        a.ensure(what + ': one weight per point after adding', eq(a.call(sp, 'GetWeights').n, N.T + m))
                    a.call(sp, 'RemoveControlPoints', m)
                    a.ensure(what + ': number of points after removing', eq(a.call(sp, 'GetNumberOfControlPoints'), N.T))
                    read_point(a, sp, d, what + ' after removing', dim, lambda c: N.P(r, c))
                    if what[0] == 'w':
                        a.ensure(what + ': weight after removing', eq(a.call(sp, 'GetWeight', Arr(d)), N.W(r)))
                        a.ensure(what + ': one weight per point after removing', eq(a.call(sp, 'GetWeights').n, N.T))
                    for j in range(D):
                        a.call(sp, 'IncrementNumberOfPoints', j)
                        a.ensure(f'{what}: count of direction {j} grows', land(*[eq(x, y + (1 if i == j else 0)) for i, (x, y) in enumerate(zip(a.call(sp, 'GetPointsPerDirection').items, N.L))]))
                        a.call(sp, 'DecrementNumberOfPoints', j)
                        a.ensure(f'{what}: count of direction {j} shrinks', land(*[eq(x, y) for x, y in zip(a.call(sp, 'GetPointsPerDirection').items, N.L)]))
                        v = z3.Int('v'); a.call(sp, 'SetNumberOfPoints', j, v)
                        a.ensure(f'{what}: count of direction {j} set', land(*[eq(x, v if i == j else y) for i, (x, y) in enumerate(zip(a.call(sp, 'GetPointsPerDirection').items, N.L))]))
                        a.call(sp, 'SetNumberOfPoints', j, N.L[j])

            def slab(a, D=D, dim=dim):
                Handler(a, D)
                N = Net(a, D, dim); sp = N.weighted()
                for q in range(D):
                    f, m = z3.Ints(f'first{q} len{q}'); a.assume(z3.And(f >= 0, m >= 1, f + m <= to_int(N.L[q])))
                    M = list(N.L); M[q] = m; t = total(M)
                    ps = a.call(sp, 'GetDividedControlPoints', f, m, q); ws = a.call(sp, 'GetDividedWeights', f, m, q)
                    a.ensure(f'slab of direction {q}: size', land(eq(ps.n, t), eq(ws.n, t)))
                    l = z3.Int('sl'); a.assume(z3.And(l >= 0, l < to_int(t)))
                    e = digits(a.ex, M, l); g = list(e); g[q] = g[q] + f; r = rank(N.L, g)
                    n, fc = coords(a, ps.get(l))
                    a.ensure(f'slab of direction {q}: point dimension', eq(n, dim))
                    for c in range(dim): a.ensure(f'slab of direction {q}: points', eq(fc(c), N.P(r, c)))
                    a.ensure(f'slab of direction {q}: weights', eq(ws.get(l), N.W(r)))

            def reject(a, D=D, dim=dim):
                N = Net(a, D, dim); k = z3.Int('k'); a.assume(k >= 1)
                pts = Vec(n=k, get=lambda i: N.points.get(i))
                e = a.throws(lambda: a.new_with(PHS(D), ['std::vector<baf::ControlPoint>', f'std::array<int, {D}>'], pts, Arr(N.L)))
                a.ensure('a wrong number of points is rejected with runtime_error, the right one accepted', land(to_bool(e is None) == (k == N.T), e in (None, 'std::runtime_error')))
                kw = z3.Int('kw'); a.assume(kw >= 0)
                ws = Vec(n=kw, get=lambda i: N.weights.get(i))
                e = a.throws(lambda: a.new_with(WPS(D), ['std::vector<baf::ControlPoint>', 'std::vector<double>', f'std::array<int, {D}>'], N.points, ws, Arr(N.L)))
                a.ensure('a wrong number of weights is rejected with runtime_error, the right one accepted', land(to_bool(e is None) == (kw == N.T), e in (None, 'std::runtime_error')))

            def extent(a, D=D, dim=dim):
                N = Net(a, D, dim); sp = N.weighted(); l = z3.Int('l'); a.assume(z3.And(l >= 0, l < N.T))
                import loops
                mw = to_real(a.call(sp, 'GetMinimumWeight')); a.extremum_at(l, l - 1); F, G, w, le, v0, n = loops.EXT_USES[-1]; loops.EXT_USES.clear()
                a.ensure('the minimum weight is below every weight', mw <= N.W(l))
                a.ensure('the minimum weight is one of the weights', z3.Or(mw == N.W(0), z3.And(w(n) >= 0, w(n) < N.T, mw == N.W(w(n))), z3.And(w(n) + 1 >= 0, w(n) + 1 < N.T, mw == N.W(w(n) + 1))))
                x = to_real(a.call(sp, 'GetExpansion')); a.extremum_at(*[l * dim + c for c in range(dim)]); F, G, w, le, v0, n = loops.EXT_USES[-1]; loops.EXT_USES.clear()
                for c in range(dim): a.ensure('the expansion is above every coordinate', x >= N.P(l, c))
                q = w(n) / dim
                a.ensure('the expansion is one of the coordinates or zero', z3.Or(x == 0, z3.And(q >= 0, q < N.T, z3.Or(*[x == N.P(q, c) for c in range(dim)]))))
                m = to_real(a.call(sp, 'GetMaximumDistanceFromOrigin')); n2 = lambda q: sum(N.P(q, c) * N.P(q, c) for c in range(dim))
                a.extremum_at(l); F, G, w, le, v0, n = loops.EXT_USES[-1]; loops.EXT_USES.clear()
                g = G(l); a.assume(z3.Implies(z3.And(m >= g, g >= 0), m * m >= g * g)); a.ensure('the maximum distance is not below the computed distance of any point', m >= g)
                a.assume(m >= g)
                a.ensure('the maximum distance is not below the distance of any point', z3.And(m >= 0, m * m >= n2(l)))
                a.ensure('the maximum distance is the distance of a point', z3.Or(m == 0, z3.And(w(n) >= 0, w(n) < N.T, m * m == n2(w(n)))))
            T += [Task(f'control nets {tag}: reading', read), Task(f'control nets {tag}: writing', write), Task(f'control nets {tag}: growing and shrinking', grow),
                  Task(f'control nets {tag}: slabs', slab), Task(f'control nets {tag}: rejection', reject), Task(f'control nets {tag}: extent', extent)]

    return T
