"""C11: subdivision."""
import z3
from values import *
from spec import Task
from spline import *
from fixed import *
from C09 import WT
from C08 import ctrl

TU = 'core'
LINK = ('src/baf',)
ASSUME = ('shape-bounded proofs: degrees, knots and weights are the listed numbers, control points are arbitrary',
          'SudivideSpline is verified against the contract of InsertKnot (verified in C08): afterwards the cut has multiplicity p+1')
SHAPES = [  # (name, U, p, direction, cut)
    ('p1', [[0, 0, 1, 2, 2]], [1], 0, F(1, 2)),
    ('p1 at a knot', [[0, 0, 1, 2, 2]], [1], 0, F(1)),
    ('p2', [[0, 0, 0, 1, 3, 3, 3]], [2], 0, F(2)),
    ('p2 at a knot', [[0, 0, 0, 1, 3, 3, 3]], [2], 0, F(1)),
    ('p2 at a double knot', [[0, 0, 0, 1, 1, 3, 3, 3]], [2], 0, F(1)),
    ('p3', [[-1, -1, -1, -1, 0, 1, 1, 1, 1]], [3], 0, F(1, 2)),
    ('p3 one span', [[0, 0, 0, 0, 2, 2, 2, 2]], [3], 0, F(1, 2)),
    ('2 directions, first', [[0, 0, 0, 1, 1, 1], [0, 0, 1, 2, 2]], [2, 1], 0, F(1, 2)),
    ('2 directions, second', [[0, 0, 1, 1], [0, 0, 0, 1, 2, 2, 2]], [1, 2], 1, F(1, 4)),
    ('3 directions', [[0, 0, 1, 1], [0, 0, 1, 1], [0, 0, 0, 1, 1, 1]], [1, 1, 2], 2, F(1, 2)),
]


def tasks():
    T = []; BND = 'given degrees, knots and weights; arbitrary control points'
    for name, U, p, q, u in SHAPES:
        for wt in WT:
            def cut(a, U=U, p=p, q=q, u=u, wt=wt):
                s = Fixed(a, U, p, 1, wt); old = Fixed(a, U, p, 1, wt)
                parts = a.call(s.obj, 'SudivideSpline', pc(a, u), q)
                for k, ptr in enumerate(parts.items):
                    o = Ref(ptr.root)
                    for d in range(s.D):
                        a.ensure('degrees', degree_of(a, o, d) == p[d]); want = list(s.U[d])
                        if d == q: want = [x for x in want if x < u] + [u] * (p[d] + 1) if k == 0 else [u] * (p[d] + 1) + [x for x in want if x > u]
                        kn = knots_of_spline(a, o, d); a.ensure('knots of the part', land(len(kn) == len(want), *[eq(x, y) for x, y in zip(kn, want)]))
                    sub = [[x for x in v if d != q or (x <= u if k == 0 else x >= u)] + ([u] if d == q else []) for d, v in enumerate(s.U)]
                    import itertools
                    for x in itertools.product(*[samples(sorted(v), p[d]) for d, v in enumerate(sub)]):
                        a.ensure('the part traces the original', same_lin(evaluate(a, o, x, 1), evaluate(a, old.obj, x, 1)))
            T.append(Task(f'{"NURBS" if wt else "BSpline"} {name}: parts trace the original', cut, bounded=BND))
    for D in (1, 2, 3):
        for q in range(D):
            for w in (False, True):
                def whole(a, D=D, q=q, w=w):
                    s = Spl(a, D, 1, w); K, p, L = s.K[q], s.p[q], s.L[q]; u = K.inside(a, 'cut'); a.assume(z3.And(u > K.lo, u < K.hi))
                    sm = z3.Function(f'MULT{s.tags[q]}', R, I)(u)
                    a.call(Ref(a.call(s.obj, 'GetKnotVector', q).root), 'GetMultiplicity', pc(a, u)); a.assume(sm <= p)
                    t = Spl(a, D, 1, w, handler=False, tag='n', share=s); N = t.K[q]; k = z3.Function(f'SPAN{t.tags[q]}', R, I)(u); cell = Ref(a.ex.alloc(0)); seen = []
                    for d in range(D): a.assume(t.p[d] == s.p[d]); a.assume(t.L[d] == s.L[d] + (p + 1 - sm if d == q else 0))
                    j = z3.Int('nj'); a.assume(z3.And(N.lo == K.lo, N.hi == K.hi, N.is_span(k, u), N.hi - u >= to_real(KEPS)))
                    a.assume(z3.And(k - p >= 1, z3.ForAll([j], z3.Implies(z3.And(j >= k - p, j <= k), N.U(j) == u), patterns=[N.U(j)]), z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < k - p), N.U(j) < u), patterns=[N.U(j)])))

                    class Insert:
                        name = 'Spline::InsertKnot'
                        def applies(self, ex, this, args): return True
                        def apply(self, ex, this, args, f):
                            args = [ex.load(x) if isinstance(x, Ref) else x for x in args]; seen.append(1)
                            ex.oblige('protocol: the cut is made a knot of multiplicity degree + 1', land(eq(getv_ex(ex, args[0]), u), eq(args[1], q), eq(args[2], p + 1 - sm)))
                            o, n = ex.load(s.obj), ex.load(t.obj)
                            for fld, v in n.f.items():
                                if isinstance(v, Ptr): ex.store(Ref(s.obj.root, s.obj.path + (fld,)), v)
                    pr, hr = [v.root for v in a.load(t.obj).f.values() if isinstance(v, Ptr)]

                    def kvs(ex, args):
                        ex.oblige('protocol: knots divided at the cut', land(eq(getv_ex(ex, args[0]), u), eq(args[1], q))); out = []
                        for lo, n in ((0, k + 1), (k - p, N.n - k + p)):
                            new = a.new_with(KV, ['std::vector<' + PC + '>'], Vec(n=n, get=lambda i, lo=lo: pc(a, N.U(to_int(i) + lo))))
                            out.append(Arr([Ptr(new.root) if d == q else a.load(Ref(pr)) and a.call(t.obj, 'GetKnotVector', d) for d in range(D)]))
                        return Arr(out)

                    def slab(ex, args, get):
                        f, n, d = [to_int(x) if not isinstance(x, int) else x for x in args]
                        ex.oblige('protocol: slab of the net', land(eq(d, q), to_int(f) >= 0, to_int(n) >= 1, to_int(f) + to_int(n) <= t.L[q])); M = list(t.L); M[q] = n
                        def at(i):
                            x = digits(ex, M, to_int(i)); x = list(x); x[q] = x[q] + f; return get(rank(t.L, x))
                        return Vec(n=total(M), get=at)
                    FnContract(a.ex, PS(D) + '::GetDividedKnotVectors', 2, pr, kvs)
                    FnContract(a.ex, PHS(D) + '::GetDividedControlPoints', 3, hr, lambda ex, args: slab(ex, args, lambda r: point(a, lambda c: t.P(r, c), 1)))
                    FnContract(a.ex, WPS(D) + '::GetDividedWeights', 3, hr, lambda ex, args: slab(ex, args, lambda r: t.W(r)))
                    a.ex.contracts[(f'spl::Spline<{D}>::InsertKnot', 3)] = Insert()
                    parts = a.call(s.obj, 'SudivideSpline', pc(a, u), q); a.ensure('protocol: knots are inserted first', bool(seen))
                    for h, ptr in enumerate(parts.items):
                        o = Ref(ptr.root); M = list(t.L); M[q] = k - p if h == 0 else t.L[q] - (k - p); off = [0] * D; off[q] = 0 if h == 0 else k - p
                        n = a.call(o, 'GetPointsPerDirection'); a.ensure('numbers of points of the part', land(*[eq(x, y) for x, y in zip(n.items, M)]))
                        for d in range(D):
                            a.ensure('degrees of the part', eq(getv(a, a.call(o, 'GetDegree', d)), s.p[d]))
                            kv = Ref(a.call(o, 'GetKnotVector', d).root); nk = M[d] + s.p[d] + 1; i = z3.Int(f'ki{h}{d}'); a.assume(z3.And(i >= 0, i < nk))
                            a.ensure('number of knots of the part', eq(a.call(kv, 'GetNumberOfKnots'), nk)); a.ensure('knots of the part', eq(getv(a, a.call(kv, 'GetKnot', i)), t.K[d].U(i + off[d])))
                        pos = z3.Int(f'pos{h}'); a.assume(z3.And(pos >= 0, pos < total(M))); x = digits(a.ex, M, pos); y = [x[d] + off[d] for d in range(D)]; r = rank(t.L, y)
                        a.ensure('control points of the part', eq(a.call(o, 'GetControlPoint', Arr(x), 0), t.P(r, 0)))
                        if w: a.ensure('weights of the part', eq(a.call(o, 'GetWeight', Arr(x)), t.W(r)))
                T.append(Task(f'{"NURBS" if w else "BSpline"}<{D}>::SudivideSpline in direction {q}', whole, timeout=20, limit=400 if D < 3 else 1500, thorough_only=D > 1))

    for D in (1, 2, 3, 4):
        for q in range(D):
            def dkv(a, D=D, q=q):
                S = Space(a, D); K = S.K[q]; p = to_int(S.p[q]); u = K.inside(a, 'cut'); a.assume(z3.And(u > K.lo, u < K.hi))
                km = {S.R.tag(knots_vec(a.ex, Ref(a.call(S.obj, 'GetKnotVector', d).root))): S.K[d] for d in range(D)}; SpanContract(S.R, km)
                tag = S.R.tag(knots_vec(a.ex, Ref(a.call(S.obj, 'GetKnotVector', q).root))); k = z3.Function(f'SPAN{tag}', R, I)(u); j = z3.Int('nj')
                a.assume(z3.And(K.is_span(k, u), k - p >= 0, z3.ForAll([j], z3.Implies(z3.And(j >= k - p, j <= k), K.U(j) == u), patterns=[K.U(j)])))
                r = a.call(S.obj, 'GetDividedKnotVectors', pc(a, u), q)
                for h, (lo, n) in enumerate(((0, k + 1), (k - p, K.n - k + p))):
                    for d in range(D):
                        l, m = (lo, n) if d == q else (0, S.K[d].n); kv = Ref(r.items[h].items[d].root); i = z3.Int(f'i{h}{d}'); a.assume(z3.And(i >= 0, i < m))
                        a.ensure('number of knots of the part', eq(a.call(kv, 'GetNumberOfKnots'), m)); a.ensure('knots of the part', eq(getv(a, a.call(kv, 'GetKnot', i)), S.K[d].U(i + l)))
            T.append(Task(f'ParameterSpace<{D}>::GetDividedKnotVectors in direction {q}', dkv))

    def local(a):
        """a basis function uses only the knots U(i..i+p+1): the step of the recursion gives equal values for equal knots, so N over the part's knots equals N over all knots"""
        x = z3.Reals('x0 x1 y0 y1 t'); A, B, C, E = z3.Reals('N0 N1 M0 M1'); a.assume(z3.And(A == C, B == E)); q = lambda n, d: z3.If(d == 0, z3.RealVal(0), n / d)
        f = lambda A, B: q(x[4] - x[0], x[2] - x[0]) * A + q(x[3] - x[4], x[3] - x[1]) * B
        a.ensure('equal knots and equal functions of the lower degree give equal functions', f(A, B) == f(C, E))
    T.append(Task('lemma: basis functions depend only on their own knots', local))
    return T
