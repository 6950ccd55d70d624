"""C09: knot removal."""
import z3
from values import *
from spec import Task
from spline import *
from fixed import *

TU = 'core'
LINK = ('src/baf',)
ASSUME = ('shape-bounded proofs: degrees, knots and weights are the listed numbers, control points are arbitrary',)
SHAPES = [  # (name, U, p, direction, knot, copies to insert and remove)
    ('p1', [[0, 0, 1, 2, 2]], [1], 0, F(1, 2), 1),
    ('p2', [[0, 0, 0, 1, 3, 3, 3]], [2], 0, F(2), 1),
    ('p2 twice', [[0, 0, 0, 1, 3, 3, 3]], [2], 0, F(2), 2),
    ('p2 existing knot', [[0, 0, 0, 1, 3, 3, 3]], [2], 0, F(1), 1),
    ('p3', [[0, 0, 0, 0, 1, 2, 2, 2, 2]], [3], 0, F(1, 2), 1),
    ('p3 three times', [[0, 0, 0, 0, 2, 2, 2, 2]], [3], 0, F(1, 2), 3),
    ('2 directions, first', [[0, 0, 0, 1, 1, 1], [0, 0, 1, 2, 2]], [2, 1], 0, F(1, 2), 1),
    ('2 directions, second', [[0, 0, 1, 1], [0, 0, 0, 1, 1, 1]], [1, 2], 1, F(1, 4), 1),
    ('3 directions', [[0, 0, 1, 1], [0, 0, 0, 1, 1, 1], [0, 0, 1, 1]], [1, 2, 1], 1, F(1, 2), 1),
]
GENERIC = [
    ('p1', [[0, 0, 1, 2, 2]], [1], 0, F(1)),
    ('p2', [[0, 0, 0, 1, 3, 4, 4, 4]], [2], 0, F(1)),
    ('p2 double', [[0, 0, 0, 1, 1, 3, 3, 3]], [2], 0, F(1)),
    ('p3', [[0, 0, 0, 0, 1, 2, 3, 3, 3, 3]], [3], 0, F(2)),
    ('2 directions, first', [[0, 0, 1, 2, 2], [0, 0, 1, 1]], [1, 1], 0, F(1)),
    ('2 directions, second', [[0, 0, 1, 1], [0, 0, 0, 1, 2, 2, 2]], [1, 2], 1, F(1)),
]
WT = [None, lambda l: F(1 + (l * 7) % 5, 2)]




class Some:
    """contract of a function whose value does not matter here: any value for which `post` holds"""
    def __init__(self, ex, q, n, post): self.name, self.post = q, post; ex.contracts[(q, n)] = self
    def applies(self, ex, this, args): return True
    def apply(self, ex, this, args, f): x = fresh('some_' + self.name.split(':')[-1], 'Real'); ex.assume(self.post(x)); return x


def far(a, D): Some(a.ex, f'spl::PhysicalSpace<{D}>::GetMaximumDistanceFromOrigin', 0, lambda x: x >= 0)     # verified in C05


def same(a, s, U, L, P, W):
    """the spline has these knots, numbers of points, control points and weights"""
    for d in range(s.D):
        k = knots_of_spline(a, s.obj, d); a.ensure('knots', land(len(k) == len(U[d]), *[eq(x, y) for x, y in zip(k, U[d])]))
        a.ensure('degrees', eq(degree_of(a, s.obj, d), s.p[d]))
    M, net = net_of(a, s.obj, s.D, s.weighted, s.dim); a.ensure('numbers of points', M == L)
    if M == L:
        for l, (x, w) in enumerate(net):
            a.ensure('control points', same_lin(x, P[l]))
            if s.weighted: a.ensure('weights', eq(w, W[l]))


def tasks():
    T = []; BND = 'given degrees, knots and weights; arbitrary control points'
    for name, U, p, q, u, m in SHAPES:
        for wt in WT:
            for k in sorted({1, m}):
                def undo(a, U=U, p=p, q=q, u=u, m=m, wt=wt, k=k):
                    s = Fixed(a, U, p, 1, wt); D = s.D
                    if wt: far(a, D)
                    if m > k: a.call(s.obj, 'InsertKnot', pc(a, u), q, m - k); L, net = net_of(a, s.obj, D, s.weighted, 1); V = [knots_of_spline(a, s.obj, d) for d in range(D)]; P = [[lin(y) for y in x] for x, w in net]; W = [w for x, w in net]
                    else: L, P, W, V = s.L, s.P, s.W, s.U
                    a.call(s.obj, 'InsertKnot', pc(a, u), q, k)
                    n = a.call(s.obj, 'RemoveKnot', pc(a, u), q, F(1, 10 ** 6), k)
                    a.ensure('removing the inserted knots succeeds', eq(n, k)); same(a, s, V, L, P, W)
                T.append(Task(f'{"NURBS" if wt else "BSpline"} {name}: {k} removals undo insertions', undo, bounded=BND))
    for name, U, p, q, u in GENERIC:
        for wt in WT:
            def refuse(a, U=U, p=p, q=q, u=u, wt=wt):
                s = Fixed(a, U, p, 1, wt)
                if wt: far(a, s.D)
                tol = z3.Real('tol'); a.assume(tol > 0)
                n = a.call(s.obj, 'RemoveKnot', pc(a, u), q, tol, 1); n = conc_int(n)
                if n == 0: same(a, s, s.U, s.L, s.P, s.W)
                else:
                    a.ensure('at most one removal', n == 1); V = [list(x) for x in s.U]; V[q].remove(u); L = list(s.L); L[q] -= 1
                    for d in range(s.D):
                        kk = knots_of_spline(a, s.obj, d); a.ensure('one knot fewer', land(len(kk) == len(V[d]), *[eq(x, y) for x, y in zip(kk, V[d])]))
                    a.ensure('one row of points fewer', [conc_int(x) for x in a.call(s.obj, 'GetPointsPerDirection').items] == L)
                    if not wt:
                        old = Fixed(a, U, p, 1, wt)
                        for x in grid(a, old):
                            d = evaluate(a, s.obj, x, 1)[0] - evaluate(a, old.obj, x, 1)[0]; d = z3.simplify(to_real(d), som=True)
                            a.ensure('geometry moved by at most the tolerance', z3.And(d <= tol, -d <= tol))
            T.append(Task(f'{"NURBS" if wt else "BSpline"} {name}: removal within the tolerance or refused without effect', refuse, bounded=BND, timeout=20))

    for D in (1, 2, 3, 4):
        for q in range(D):
            for w in (False, True):
                def protocol(a, D=D, w=w, q=q):
                    s = Spl(a, D, 1, w); K, p, L = s.K[q], s.p[q], s.L[q]; U = K.U; u = K.inside(a, 'knot'); a.assume(z3.And(u > K.lo, u < K.hi))
                    k = z3.Function(f'SPAN{s.tags[q]}', R, I)(u); sm = z3.Function(f'MULT{s.tags[q]}', R, I)(u); tol = z3.Real('tol')
                    a.call(Ref(a.call(s.obj, 'GetKnotVector', q).root), 'GetMultiplicity', pc(a, u)); a.assume(z3.And(sm >= 1, sm <= p)); yes = z3.Bool('removable')

                    class Try(Log):
                        def apply(self, ex, this, args, f): Log.apply(self, ex, this, args, f); return yes

                    def attempt(ex, c, args):
                        al, f, l, d, t = args
                        ex.oblige('protocol: direction, rows and tolerance', land(eq(d, q), eq(f, k - p), eq(l, k - sm), eq(t, tol)))
                        ex.oblige('protocol: one factor per row', eq(al.n, to_int(l) - to_int(f) + 1))
                        j = fresh('fj'); ex.assume(z3.And(j >= to_int(f), j <= to_int(l)))
                        ex.oblige('protocol: factors', to_real(al.get(j - to_int(f))) == (u - U(j)) / (U(j + p + 1) - U(j)))
                    t = Try(a, (NU if w else BS)(D) + '::RemoveControlPoints', 5, attempt)
                    kn = Log(a, PS(D) + '::RemoveKnot', 2, lambda ex, c, args: (ex.oblige('protocol: the knot itself is removed in the direction', land(eq(getv_ex(ex, args[0]), u), eq(args[1], q))), ex.oblige('protocol: only after its rows were removed', z3.And(yes, eq(t.count(), 1)))))
                    n = a.call(s.obj, 'RemoveKnot', pc(a, u), q, tol, 1)
                    a.ensure('protocol: one attempt', eq(t.count(), 1)); a.ensure('protocol: knot removed exactly when its rows were', eq(kn.count(), z3.If(yes, 1, 0)))
                    a.ensure('count', eq(n, z3.If(yes, z3.IntVal(1), z3.IntVal(0))))
                T.append(Task(f'{"NURBS" if w else "BSpline"}<{D}>::RemoveKnot in direction {q}, one copy', protocol))
    return T
