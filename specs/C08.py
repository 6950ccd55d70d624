"""C08: knot insertion."""
import z3, itertools
from values import *
from spec import Task
from spline import *
from basis import *
import ring

TU = 'core'
LINK = ('src/baf',)
ASSUME = ('weights are positive',)


def ctrl(a, s, x): return a.call(s.obj, 'GetControlPoint', Arr(x))


def tasks():
    T = []
    for D in (1, 2, 3):
        for w in (False, True):
            for q in range(D):
                def adj(a, D=D, w=w, q=q):
                    dim = 1; s = Spl(a, D, dim, w)
                    if w: s.positive_weights()
                    f, l = z3.Ints('first last'); A = z3.Function('A', I, R)
                    a.assume(z3.And(f >= 1, l < s.L[q], f <= l + 1)); m = l - f + 1
                    i = z3.Int('ai'); a.assume(z3.ForAll([i], z3.And(A(i) >= 0, A(i) <= 1), patterns=[A(i)]))
                    a.call(s.obj, 'AdjustControlPoints', Vec(n=m, get=lambda i: A(to_int(i))), f, l, q)
                    M = list(s.L); M[q] = M[q] + 1
                    n = a.call(s.obj, 'GetPointsPerDirection')
                    a.ensure('one more row in the direction', land(*[eq(x, y) for x, y in zip(n.items, M)]))
                    pos = z3.Int('pos'); a.assume(z3.And(pos >= 0, pos < total(M))); x = digits(a.ex, M, pos)      # any tuple of the new net
                    lower = list(x); lower[q] = x[q] - 1; rl, ru = rank(s.L, lower), rank(s.L, x); t = A(x[q] - f)
                    got = a.call(s.obj, 'GetControlPoint', Arr(x), 0)
                    if not w: want = z3.If(x[q] > l, s.P(rl, 0), z3.If(x[q] >= f, t * s.P(ru, 0) + (1 - t) * s.P(rl, 0), s.P(ru, 0)))
                    else:
                        gw = a.call(s.obj, 'GetWeight', Arr(x))
                        ww = z3.If(x[q] > l, s.W(rl), z3.If(x[q] >= f, t * s.W(ru) + (1 - t) * s.W(rl), s.W(ru)))
                        a.ensure('new weights', eq(gw, ww))
                        for y in (s.W(ru), s.W(rl)): a.assume(z3.And(t * y >= 0, (1 - t) * y >= 0, z3.Implies(t > 0, t * y > 0), z3.Implies(t < 1, (1 - t) * y > 0)))
                        a.ensure('new weights stay positive', ww > 0)
                        want = z3.If(x[q] > l, s.P(rl, 0), z3.If(x[q] >= f, (t * (s.P(ru, 0) * s.W(ru)) + (1 - t) * (s.P(rl, 0) * s.W(rl))) / ww, s.P(ru, 0)))
                    a.ensure('new control points', eq(got, want))
                T.append(Task(f'{"NURBS" if w else "BSpline"}<{D}>::AdjustControlPoints in direction {q}', adj, timeout=20, limit=400))

    for D in (1, 2, 3, 4):
        for q in range(D):
            for w in (False, True):
                def ins(a, D=D, w=w, q=q):
                    s = Spl(a, D, 1, w); K, p, L = s.K[q], s.p[q], s.L[q]; U = K.U; u = K.inside(a, 'knot'); a.assume(z3.And(u > K.lo, u < K.hi))
                    m = z3.Int('m'); a.assume(m >= 1); k = z3.Function(f'SPAN{s.tags[q]}', R, I)(u); sm = z3.Function(f'MULT{s.tags[q]}', R, I)(u)
                    a.call(Ref(a.call(s.obj, 'GetKnotVector', q).root), 'GetMultiplicity', pc(a, u)); a.assume(sm + m <= p)

                    def adjust(ex, c, args):
                        """call number c (from 0): as for inserting one copy into the knots that already hold c more copies of the new knot"""
                        al, f, l, d = args; c = to_int(c)
                        ex.oblige('protocol: direction of the adjustment', eq(d, q))
                        ex.oblige('protocol: first affected point', eq(f, k - p + 1 + c)); ex.oblige('protocol: last affected point', eq(l, k - sm))
                        ex.oblige('protocol: one factor per affected point', eq(al.n, to_int(l) - to_int(f) + 1))
                        j = fresh('fj'); ex.assume(z3.And(j >= to_int(f), j <= to_int(l)))
                        # knots with c copies inserted after position k: index j <= k unchanged, index j + p >= k + c + 1 moved by c
                        ex.oblige('protocol: factors are those of the knots refined so far', to_real(al.get(j - to_int(f))) == (u - U(j)) / (U(j + p - c) - U(j)))
                        ex.oblige('adjusted rows exist', z3.And(to_int(f) >= 1, to_int(l) < L + c, to_int(f) <= to_int(l) + 1))
                    adj = Log(a, (NU if w else BS)(D) + '::AdjustControlPoints', 4, adjust)

                    def insert(ex, c, args):
                        ex.oblige('protocol: the knot itself is inserted in the direction', land(eq(getv_ex(ex, args[0]), u), eq(args[1], q)))
                        ex.oblige('protocol: knots are inserted after all rows were adjusted', eq(adj.count(), m))
                    kn = Log(a, PS(D) + '::InsertKnot', 2, insert)
                    a.call(s.obj, 'InsertKnot', pc(a, u), q, m)
                    a.ensure('protocol: one adjustment per copy', eq(adj.count(), m)); a.ensure('protocol: one knot per copy', eq(kn.count(), m))
                    a.ensure('degrees stay', land(*[eq(getv(a, a.call(s.obj, 'GetDegree', d)), s.p[d]) for d in range(D)]))
                T.append(Task(f'{"NURBS" if w else "BSpline"}<{D}>::InsertKnot in direction {q}', ins))
    for w in (False, True):
        def refine(a, w=w):
            s = Spl(a, 1, 1, w); N = z3.Int('N'); X = z3.Function('X', I, R); a.assume(z3.And(N >= 0, N <= 2 ** 30))
            one = Log(a, 'spl::Spline<1>::InsertKnot', 3, lambda ex, c, args: ex.oblige('protocol: the knots are inserted one after the other', land(eq(getv_ex(ex, args[0]), X(to_int(c))), eq(args[1], 0), eq(args[2], 1))))
            a.call(s.obj, 'RefineKnots', Vec(n=N, get=lambda i: pc(a, X(to_int(i)))), 0)
            a.ensure('protocol: one insertion per listed knot', eq(one.count(), N))
        T.append(Task(f'{"NURBS" if w else "BSpline"}<1>::RefineKnots', refine))

    # ---- Boehm's identity: N(j,p) over U = c1 N^(j,p) + c2 N^(j+1,p) over U^ (U with v inserted after position k), by induction over p
    def boehm(a):
        """Induction step p-1 -> p (p >= 1). x0, x1, y0, y1 = U(j), U(j+1), U(j+p), U(j+p+1); h0..h2 = U^(j..j+2), g0..g2 = U^(j+p..j+p+2); M0..M2 the functions
        j..j+2 of degree p-1 over U^. A quotient with zero divisor counts as zero and goes with a vanishing function."""
        v, t = z3.Reals('v t'); M = list(z3.Reals('M0 M1 M2')); H = list(z3.Reals('h0 h1 h2')); G = list(z3.Reals('g0 g1 g2'))
        iv = lambda d: z3.If(d == 0, z3.RealVal(0), 1 / d)
        case = next((n for n in ('first', 'inner', 'last', 'before') if a.ex.choose(z3.Bool('k_' + n))), 'after')
        if case == 'first': h = [H[0], v, H[2]]; x0, x1, y0, y1 = H[0], H[2], G[1], G[2]; g = [v if a.ex.choose(z3.Bool('p_is_1')) else G[0], G[1], G[2]]; a.assume(z3.And(x0 <= v, v < x1, x1 <= y0 if not g[0].eq(v) else x1 == y0))
        elif case == 'inner': h = H; g = G; x0, x1, y0, y1 = H[0], H[1], G[1], G[2]; a.assume(z3.And(x1 <= v, v < y0))
        elif case == 'last': p1 = a.ex.choose(z3.Bool('p_is_1')); h = [H[0], H[1], v if p1 else H[2]]; g = [G[0], v, G[2]]; x0, x1, y0, y1 = H[0], H[1], G[0], G[2]; a.assume(z3.And(y0 <= v, v < y1, x1 == y0 if p1 else x1 <= y0))
        elif case == 'before': h = H; g = G; x0, x1, y0, y1 = H[1], H[2], G[1], G[2]
        else: h = H; g = G; x0, x1, y0, y1 = H[0], H[1], G[0], G[1]
        a.assume(z3.And(h[0] <= h[1], h[1] <= h[2], g[0] <= g[1], g[1] <= g[2], h[0] <= g[0], h[1] <= g[1], h[2] <= g[2]))
        one, zero = z3.RealVal(1), z3.RealVal(0); ins = case in ('first', 'inner', 'last')
        c = {'before': (zero, one), 'after': (one, zero)}.get(case) or ((v - x0) * iv(g[1] - h[0]), (y1 - v) * iv(g[2] - h[1]))
        cl = (one, zero) if case in ('last', 'after') else (zero, one) if case == 'before' else ((v - x0) * iv(g[0] - h[0]), (y0 - v) * iv(g[1] - h[1]))
        cr = (zero, one) if case in ('first', 'before') else (one, zero) if case == 'after' else ((v - x1) * iv(g[1] - h[1]), (y1 - v) * iv(g[2] - h[2]))
        ds = [g[0] - h[0], g[1] - h[1], g[2] - h[2], y0 - x0, y1 - x1] + ([g[1] - h[0], g[2] - h[1]] if ins else [])
        for d, m in zip(ds, M): a.assume(z3.Implies(d == 0, m == 0))
        for d in ds: a.ex.choose(d == 0)
        NL = cl[0] * M[0] + cl[1] * M[1]; NR = cr[0] * M[1] + cr[1] * M[2]
        lhs = (t - x0) * iv(y0 - x0) * NL + (y1 - t) * iv(y1 - x1) * NR
        rhs = c[0] * ((t - h[0]) * iv(g[0] - h[0]) * M[0] + (g[1] - t) * iv(g[1] - h[1]) * M[1]) + c[1] * ((t - h[1]) * iv(g[1] - h[1]) * M[1] + (g[2] - t) * iv(g[2] - h[2]) * M[2])
        pairs = []
        for n_, d in enumerate(ds):
            if not a.ex.feasible(a.ex.st.pc + [d != 0]):
                pairs.append((iv(d), zero))
                if n_ < 3: pairs.append((M[n_], zero))
            else: pairs.append((iv(d), 1 / d))
        L, Rr = z3.substitute(lhs, *pairs), z3.substitute(rhs, *pairs)
        ok = ring.equal(L, Rr, lambda key: True)      # the divisors left are different from zero on this path
        a.ensure('a function over the old knots is the combination of two functions over the new knots', z3.BoolVal(True) if ok else L == Rr)
    T.append(Task('lemma: knot insertion identity of the basis, degree p from degree p-1', boehm, timeout=20))

    def boehm0(a):
        x0, x1, v, t = z3.Reals('x0 x1 v t'); a.assume(z3.And(x0 <= v, v < x1)); one = lambda lo, hi: z3.If(z3.And(lo <= t, t < hi), z3.RealVal(1), z3.RealVal(0))
        a.ensure('degree 0: the span is split at the new knot', one(x0, x1) == one(x0, v) + one(v, x1))
        a.ensure('degree 0: the factors are one unless the part is empty', z3.Implies(x0 < v, (v - x0) / (v - x0) == 1))
    T.append(Task('lemma: knot insertion identity of the basis, degree 0', boehm0))

    def tele(a):
        """sums: S = sum over j < t of P(j) N(j), Z = sum over j < t of Q(j) N^(j) with Q(j) = c1(j) P(j) + (1 - c1(j)) P(j-1), N(j) = c1(j) N^(j) + (1 - c1(j+1)) N^(j+1):
        S = Z + (1 - c1(t)) P(t-1) N^(t)"""
        S, Z, P0, P1, n0, n1, c0, c1 = z3.Reals('S Z Pprev P Nhat Nhat1 c c1')
        a.assume(S == Z + (1 - c0) * P0 * n0)
        a.ensure('partial sums telescope', S + P1 * (c0 * n0 + (1 - c1) * n1) == (Z + (c0 * P1 + (1 - c0) * P0) * n0) + (1 - c1) * P1 * n1)
        a.ensure('at the end', z3.Implies(z3.And(c0 == 0, S == Z + (1 - c0) * P0 * n0), S == Z + P0 * n0))
    T.append(Task('lemma: the sums over the old and the new control points agree', tele))
    return T
