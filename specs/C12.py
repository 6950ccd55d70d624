"""C12: copies and equality."""
import z3, math
from values import *
from spec import Task
from spline import *
from fixed import *
from C09 import far, WT

TU = 'core'
LINK = ('src/baf',)
ASSUME = ('shape-bounded proofs: degrees, knots and weights are the listed numbers, control points are arbitrary',)
SHAPES = [([[0, 0, 0, 1, 3, 3, 3]], [2]), ([[1, 1, 2, 4, 4]], [1]), ([[0, 0, 1, 1], [0, 0, 0, 1, 1, 1]], [1, 2])]
OPS = {'insert': lambda a, o, q, s: a.call(o, 'InsertKnot', pc(a, F(1, 2) + s.U[q][0]), q, 1),
       'elevate': lambda a, o, q, s: a.call(o, 'ElevateDegreeForDimension', q),
       'insert and remove': lambda a, o, q, s: (a.call(o, 'InsertKnot', pc(a, F(1, 2) + s.U[q][0]), q, 1), a.call(o, 'RemoveKnot', pc(a, F(1, 2) + s.U[q][0]), q, F(1, 100), 1)),
       'write a knot': lambda a, o, q, s: a.ex.store(a.ex.call_fn(a.method(KV, 'operator[]', 1), Ref(a.call(o, 'GetKnotVector', q).root), [0]), pc(a, s.U[q][0] - 1)),
       'adjust': lambda a, o, q, s: a.call(o, 'AdjustControlPoints', Vec(items=[F(1, 2)]), 1, 1, q)}


def unchanged(a, o, s):
    for d in range(s.D):
        k = knots_of_spline(a, o, d); a.ensure('knots', land(len(k) == len(s.U[d]), *[eq(x, y) for x, y in zip(k, s.U[d])])); a.ensure('degrees', eq(degree_of(a, o, d), s.p[d]))
    L, net = net_of(a, o, s.D, s.weighted, s.dim); a.ensure('numbers of points', L == s.L)
    if L == s.L:
        for l, (x, w) in enumerate(net):
            a.ensure('control points', same_lin(x, s.P[l]))
            if s.weighted: a.ensure('weights', eq(w, s.W[l]))


def spec_equal(s, t, tol):
    """degrees, lengths and numbers of points agree, all knots, coordinates and weights differ by less than the tolerance"""
    near = lambda x, y: z3.And(x - y < tol, y - x < tol); i = fresh('ei'); c = []
    for d in range(s.D):
        c += [s.p[d] == t.p[d], s.K[d].n == t.K[d].n, s.L[d] == t.L[d], z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < s.K[d].n), near(s.K[d].U(i), t.K[d].U(i))))]
    m = s.dim; c.append(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < s.net.T * m), near(s.P(i / m if m > 1 else i, i % m if m > 1 else 0), t.P(i / m if m > 1 else i, i % m if m > 1 else 0)))))
    if s.weighted: c.append(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < s.net.T), near(s.W(i), t.W(i)))))
    return z3.And(*c)


def tasks():
    T = []; BND = 'given degrees, knots and weights; arbitrary control points'
    for n, (U, p) in enumerate(SHAPES):
        for wt in WT:
            for op in OPS:
                for which in (0, 1):
                    def indep(a, U=U, p=p, wt=wt, op=op, which=which):
                        s = Fixed(a, U, p, 1, wt)
                        if wt: far(a, s.D)
                        c = a.new((NU if wt else BS)(s.D), s.obj); unchanged(a, c, s)
                        for q in range(s.D):
                            if op == 'adjust' and s.L[q] < 2: continue
                            OPS[op](a, (s.obj, c)[which], q, s); unchanged(a, (c, s.obj)[which], s)
                        u = [v[0] + F(1, 4) for v in s.U]; f = Fixed(a, U, p, 1, wt)
                        a.ensure('evaluation', same_lin(evaluate(a, (c, s.obj)[which], u, 1), evaluate(a, f.obj, u, 1)))
                    T.append(Task(f'{"NURBS" if wt else "BSpline"} shape {n}: {op} on the {("original", "copy")[which]}', indep, bounded=BND))
            def fresh_points(a, U=U, p=p, wt=wt):
                s = Fixed(a, U, p, 1, wt); pts = [[z3.Real(f'Q{l}')] for l in range(s.T)]
                c = a.new_with(NU(s.D), [NU(s.D) + ' &', 'std::vector<baf::ControlPoint>'], s.obj, Vec(items=[point(a, lambda k, r=r: r[k], 1) for r in pts]))
                t = Fixed(a, U, p, 1, wt); t.P = pts; unchanged(a, c, t); far(a, s.D)
                for q in range(s.D): OPS['insert'](a, c, q, s); OPS['write a knot'](a, c, q, s)
                unchanged(a, s.obj, s)
            if wt: T.append(Task(f'NURBS shape {n}: with new control points', fresh_points, bounded=BND))
            def owned(a, U=U, p=p, wt=wt):
                """the spline does not share the knot vectors it is built from"""
                s = Fixed(a, U, p, 1, wt); kv = s.kvs(); args = [kv, Arr([deg(a, q) for q in p]), Vec(items=[point(a, lambda c, r=r: r[c], 1) for r in s.P])] + ([Vec(items=list(s.W))] if wt else [])
                o = a.new_with((NU if wt else BS)(s.D), ctor_types(s.D, bool(wt)), *args)
                for q in range(s.D): a.ex.store(a.ex.call_fn(a.method(KV, 'operator[]', 1), Ref(kv.items[q].root), [0]), pc(a, s.U[q][0] - 1))
                unchanged(a, o, s)
            T.append(Task(f'{"NURBS" if wt else "BSpline"} shape {n}: built from knot vectors that change later', owned, bounded=BND))
    for D in (1, 2, 3):
        for w in (False, True):
            for dim in ((1, 2) if D == 1 else (1,)):
                def equality(a, D=D, w=w, dim=dim):
                    s = Spl(a, D, dim, w, handler=False); t = Spl(a, D, dim, w, handler=False, tag='b', share=s); tol = z3.Real('tol'); a.assume(tol > 0)
                    a.ensure('equal exactly when everything agrees within the tolerance', to_bool(a.call(s.obj, 'AreEqual', t.obj, tol)) == spec_equal(s, t, tol))
                T.append(Task(f'{"NURBS" if w else "BSpline"}<{D}>::AreEqual, points of dimension {dim}', equality, timeout=20, limit=120))
            def copy(a, D=D, w=w):
                s = Spl(a, D, 1, w); c = a.new((NU if w else BS)(D), s.obj); tol = z3.Real('tol'); a.assume(tol > 0)
                n = a.call(c, 'GetPointsPerDirection'); a.ensure('numbers of points', land(*[eq(x, y) for x, y in zip(n.items, s.L)]))
                for d in range(D):
                    a.ensure('degrees', eq(getv(a, a.call(c, 'GetDegree', d)), s.p[d])); kv = Ref(a.call(c, 'GetKnotVector', d).root); i = z3.Int(f'ki{d}'); a.assume(z3.And(i >= 0, i < s.K[d].n))
                    a.ensure('knots', land(eq(a.call(kv, 'GetNumberOfKnots'), s.K[d].n), eq(getv(a, a.call(kv, 'GetKnot', i)), s.K[d].U(i))))
                pos = z3.Int('pos'); a.assume(z3.And(pos >= 0, pos < s.net.T)); x = digits(a.ex, s.L, pos); r = rank(s.L, x)
                a.ensure('control points', eq(a.call(c, 'GetControlPoint', Arr(x), 0), s.P(r, 0)))
                if w: a.ensure('weights', eq(a.call(c, 'GetWeight', Arr(x)), s.W(r)))
                a.ensure('the copy equals the original', to_bool(a.call(c, 'AreEqual', s.obj, tol))); a.ensure('the original equals the copy', to_bool(a.call(s.obj, 'AreEqual', c, tol)))
            T.append(Task(f'{"NURBS" if w else "BSpline"}<{D}> copy', copy, limit=120))
    for D in (1, 2, 3):
        for w in (False, True):
            def geom(a, D=D, w=w):
                s = Spl(a, D, 1, w); t = Spl(a, D, 1, w, handler=False, tag='b', share=s); tol = z3.Real('tol'); a.assume(tol > 0); N = math.ceil(100 ** (1 / D))
                for x, y in zip(s.K, t.K): a.assume(z3.And(x.lo == y.lo, x.hi == y.hi))
                E = [z3.Function(f'E{h}', *[R] * (D + 1)) for h in (0, 1)]

                class Ev:
                    name = 'Spline::Evaluate'
                    def applies(self, ex, this, args): return True
                    def apply(self, ex, this, args, f):
                        u = [to_real(getv_ex(ex, x)) for x in ex.load(args[0]).items] if isinstance(args[0], Ref) else [to_real(getv_ex(ex, x)) for x in args[0].items]; h = 0 if this.root == s.obj.root else 1
                        for d in range(D): ex.oblige('sampled inside the parameter range', z3.And(u[d] >= s.K[d].lo, u[d] <= s.K[d].hi))
                        return Vec(items=[E[h](*u)])
                a.ex.contracts[(f'spl::Spline<{D}>::Evaluate', 2)] = Ev()
                r = to_bool(a.call(s.obj, 'AreGeometricallyEqual', t.obj, tol)); M = [N + 1] * D; pos = z3.Int('pos'); a.assume(z3.And(pos >= 0, pos < (N + 1) ** D)); i = [to_int(x) for x in digits(a.ex, M, pos)]
                u = [s.K[d].lo + (s.K[d].hi - s.K[d].lo) / N * z3.ToReal(i[d]) for d in range(D)]
                x = E[0](*u) - E[1](*u); a.instantiate(pos)
                a.ensure('equality means the samples agree within the tolerance', z3.Implies(r, z3.And(x <= tol, -x <= tol)))
            T.append(Task(f'{"NURBS" if w else "BSpline"}<{D}>::AreGeometricallyEqual', geom, timeout=20, limit=120))
    return T
