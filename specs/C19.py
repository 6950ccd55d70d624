"""C19: generated squares, sum surfaces and swept surfaces."""
import z3
from values import *
from spec import Task
from common import *
from spline import *
from fixed import *
from C01 import rank

TU = 'gen'
LINK = ('src/baf', 'src/spl')
ASSUME = ('the trajectory is regular at the sections (its derivative is not zero there)', 'values and derivatives of the trajectory are those of C06 and C07 (contracts of Evaluate and EvaluateDerivative)')
SG = 'spl::SurfaceGenerator'
SHARED = lambda D: [f'std::shared_ptr<{NU(D)}>'] * 2
V3 = 'std::vector<double>'


def reading(a, o, D, w):
    """degree, knots and net of a spline through its interface"""
    kv = [Ref(a.call(o, 'GetKnotVector', d).root) for d in range(D)]
    return [getv(a, a.call(o, 'GetDegree', d)) for d in range(D)], kv, a.call(o, 'GetPointsPerDirection').items


def tasks():
    T = []

    def square(a, shape):
        p, n = shape; g = a.new_with('spl::SquareGenerator', [DEG, 'unsigned long'], deg(a, p), n); concrete_square(a, Ref(a.call(g, 'CreateSquare').root), p, n)

    def concrete_square(a, o, p, n):
        L = n - p - 1; q, kv, N = reading(a, o, 2, False); a.ensure('degrees and sizes', z3.BoolVal([conc_int(x) for x in q] == [p, p] and [conc_int(x) for x in N] == [L, L]))
        for d in range(2):
            U = knots_of_spline(a, o, d); a.ensure('clamped uniform knots on [0, 1]', z3.BoolVal(len(U) == n))
            for i, x in enumerate(U): a.ensure('clamped uniform knots on [0, 1]', eq(x, F(min(max(i - p, 0), n - 2 * p - 1), n - 2 * p - 1)))
        for x in range(L):
            for y in range(L):
                for c in range(2): a.ensure('control points are equally spaced on [-1, 1]', eq(a.call(o, 'GetControlPoint', Arr([x, y]), c), F(2 * (x, y)[c], L - 1) - 1))
    for p in (1, 2, 3, 4):
        for n in range(2 * p + 2, 2 * p + 7): T.append(Task(f'square of degree {p} with {n} knots', lambda a, s=(p, n): square(a, s), bounded='degree 1..4, up to 4 inner knots'))

    def default(a):
        g = a.new('spl::SquareGenerator'); concrete_square(a, Ref(a.call(g, 'CreateSquare').root), 2, 6)
    T.append(Task('default square', default, bounded='one input'))

    def curve(a, tag, p, n, dim):
        """a NURBS curve of the given numbers of degree and knots with arbitrary knots, control points and positive weights"""
        U = [z3.Real(f'{tag}lo')] * (p + 1) + [z3.Real(f'{tag}k{i}') for i in range(n - 2 * p - 2)] + [z3.Real(f'{tag}hi')] * (p + 1)
        for x, y in zip(U, U[1:]): a.assume(x <= y)
        a.assume(U[0] < U[-1]); W = [z3.Real(f'{tag}w{i}') for i in range(n - p - 1)]
        for w in W: a.assume(w > 0)
        s = Fixed(a, [U], [p], dim, lambda l: W[l], tag=f'{tag}P'); return s

    def sum_surface(a, sT, sC, dim):
        s, c = curve(a, 'T', *sT, dim), curve(a, 'C', *sC, dim)
        g = a.new_with(SG, SHARED(1), Ptr(s.obj.root), Ptr(c.obj.root)); o = a.new_with(NU(2), ['spl::NURBSGenerator<2>'], g); check_surface(a, o, s, c, dim)
        for i in range(s.L[0]):
            for j in range(c.L[0]):
                for d in range(dim): a.ensure('control point is the sum of those of the curves', eq(a.call(o, 'GetControlPoint', Arr([i, j]), d), s.P[i][d] + c.P[j][d]))
                a.ensure('weight is the product of those of the curves', eq(a.call(o, 'GetWeight', Arr([i, j])), s.W[i] * c.W[j]))

    def check_surface(a, o, s, c, dim):
        q, kv, N = reading(a, o, 2, True)
        for d, k in enumerate((s, c)):
            a.ensure(f'degree and size of direction {d}', z3.BoolVal(conc_int(q[d]) == k.p[0] and conc_int(N[d]) == k.L[0])); U = knots_of_spline(a, o, d)
            a.ensure(f'number of knots of direction {d}', z3.BoolVal(len(U) == len(k.U[0])))
            for x, y in zip(U, k.U[0]): a.ensure(f'knots of direction {d}', eq(x, y))
    for sT, sC, dim in (((1, 4), (1, 4), 2), ((2, 7), (1, 5), 3), ((1, 5), (3, 9), 3), ((3, 8), (2, 6), 2), ((0, 4), (1, 6), 3)):
        T.append(Task(f'sum surface of curves of degree {sT[0]} and {sC[0]} with {sT[1]} and {sC[1]} knots in dimension {dim}', lambda a, x=(sT, sC, dim): sum_surface(a, *x), bounded='the listed numbers of knots; arbitrary knots, control points and weights'))

    # ---- swept surface: frames
    vec = lambda n: [z3.Real(f'{n}{i}') for i in range(3)]
    dot = lambda u, v: u[0] * v[0] + u[1] * v[1] + u[2] * v[2]
    cross = lambda u, v: [u[1] * v[2] - u[2] * v[1], u[2] * v[0] - u[0] * v[2], u[0] * v[1] - u[1] * v[0]]

    class Any:
        """contract given as a function (executor, arguments) -> result"""
        def __init__(self, a, q, n, fn): self.name, self.fn = q, fn; a.ex.contracts[(q, n)] = self
        def applies(self, ex, this, args): return True
        def apply(self, ex, this, args, f): return self.fn(ex, [ex.load(x) if isinstance(x, Ref) else x for x in args])
    R3 = lambda v: [to_real(v.get(i) if isinstance(v, Vec) else v.items[i]) for i in range(3)]
    NORM = z3.Function('NORM', R, R, R, R)      # |v|: not negative, zero only for the zero vector, its square is v.v
    def small(a):
        """the contracts of the vector operations, which the tasks below verify"""
        def norm(ex, x):
            v = R3(x[0]); r = NORM(*v); ex.assume(z3.And(r >= 0, (r == 0) == z3.And(*[y == 0 for y in v]))); return r
        Any(a, SG + '::ComputeNorm', 1, norm); CR = [z3.Function(f'CROSS{k}', *([R] * 7)) for k in range(3)]
        Any(a, SG + '::CrossProduct', 2, lambda ex, x: Arr([f(*R3(x[0]), *R3(x[1])) for f in CR]))
        Any(a, SG + '::DotProduct', 2, lambda ex, x: dot(R3(x[0]), R3(x[1])))
        return lambda u, v: [f(*u, *v) for f in CR]
    obj = lambda a: Ref(a.ex.alloc(Obj(SG, {})))
    for k in ('vector', 'array'):
        box = (lambda v: Vec(items=v)) if k == 'vector' else (lambda v: Arr(v))
        def ops(a, k=k, box=box):
            g = obj(a); u, v = vec('u'), vec('v')
            r = a.call(g, 'CrossProduct', box(u), box(v), pt=[k, k]); a.ensure('cross product', land(*[eq(x, y) for x, y in zip(r.items, cross(u, v))]))
            a.ensure('dot product', eq(a.call(g, 'DotProduct', Arr(u), box(v), pt=['array', k]), dot(u, v)))
            n = to_real(a.call(g, 'ComputeNorm', box(u), pt=[k])); a.ensure('norm', n == SQRTF(dot(u, u)))
        T.append(Task(f'products and norm of a {k}', ops))
    def norms(a):
        u = vec('u'); n = z3.Real('n'); a.assume(z3.And(n >= 0, n * n == dot(u, u)))
        a.ensure('the norm is zero only for the zero vector', (n == 0) == z3.And(*[x == 0 for x in u]))
    T.append(Task('lemma: the norm is definite', norms, timeout=20))

    for regular in (True, False):
        def normal(a, regular=regular):
            CR = small(a); g = obj(a); t, d, dd, prev = vec('t'), vec('d'), vec('dd'), vec('prev'); i = z3.Int('i'); a.assume(i >= 0)
            c = CR(d, dd); zero = z3.And(*[x == 0 for x in c]); a.assume(z3.Not(zero) if regular else zero); a.assume(z3.Or(*[x != 0 for x in d])); l = NORM(*c); nd = NORM(*d)
            a.assume(nd > 0)
            x = [y / nd for y in d]; w = [p - (dot(prev, x)) * y for p, y in zip(prev, x)]; nw = NORM(*w)
            if not regular: a.assume(nw > 0)      # the former normal is not along the trajectory
            out = []; e = a.throws(lambda: out.append(a.call(g, 'ComputeNormal', Vec(items=t), Vec(items=d), Vec(items=dd), Arr(prev), i)))
            turn = dot([y / l for y in c], prev) == 0
            if e is not None:
                a.ensure('refuses only a frame that turns by a right angle', z3.And(z3.BoolVal(regular and e == 'std::runtime_error'), i != 0, turn)); return
            if regular: a.ensure('a frame that turns by a right angle is refused', z3.Or(i == 0, z3.Not(turn)))
            for got, want in zip(out[0].items, [y / l for y in c] if regular else [y / nw for y in w]): a.ensure('normal of the frame', eq(got, want))
        T.append(Task('ComputeNormal ' + ('where the trajectory is curved' if regular else 'where it is straight'), normal))

    def transformation(a):
        CR = small(a); g = obj(a); t, d, dd, prev = vec('t'), vec('d'), vec('dd'), vec('prev'); i = z3.Int('i'); z = vec('z'); a.assume(SQRTF(dot(d, d)) > 0)
        def nrm(ex, x):
            ex.oblige('normal asked for this section', land(*[eq(p, q) for v, w in zip(x[1:4], (d, dd, prev)) for p, q in zip(R3(v), w)], eq(x[4], i))); return Arr(z)
        Any(a, SG + '::ComputeNormal', 5, nrm); r = a.call(g, 'GetTransformation', Vec(items=t), Vec(items=d), Vec(items=dd), Arr(prev), i)
        M = [[to_real(v) for v in row.items] for row in r.items]; n = SQRTF(dot(d, d)); x = [y / n for y in d]
        a.assume(n > 0); col = lambda j: [M[k][j] for k in range(3)]
        for got, want in zip(col(0), x): a.ensure('first axis is the unit tangent', got == want)
        for got, want in zip(col(2), z): a.ensure('third axis is the normal', got == want)
        for got, want in zip(col(1), CR(z, x)): a.ensure('second axis is the product of the third and the first', got == want)
        for got, want in zip(col(3), t): a.ensure('origin is the point of the trajectory', got == want)
    T.append(Task('GetTransformation', transformation))

    def ortho(a):
        """z = c / |c| with c = d x dd, or the former normal made orthogonal to x = d / |d|; y = z x x: an orthonormal frame"""
        d, c = vec('d'), vec('c'); n, l = z3.Reals('n l'); a.assume(z3.And(n > 0, l > 0, n * n == dot(d, d), l * l == dot(c, c), dot(c, d) == 0)); x = vec('x'); z = vec('z')
        for k in range(3): a.assume(z3.And(n * x[k] == d[k], l * z[k] == c[k]))
        a.ensure('unit tangent', n * n * dot(x, x) == n * n); a.ensure('unit normal', l * l * dot(z, z) == l * l); a.ensure('orthogonal', n * l * dot(x, z) == 0)
    T.append(Task('lemma: the frame is orthonormal', ortho, timeout=20))
    def ortho2(a):
        u, v = vec('u'), vec('v'); c = cross(u, v)
        a.ensure('the cross product is orthogonal to its factors', z3.And(dot(c, u) == 0, dot(c, v) == 0)); a.ensure('length of the cross product', dot(c, c) == dot(u, u) * dot(v, v) - dot(u, v) * dot(u, v))
        w = [p - dot(u, v) * q for p, q in zip(u, v)]; a.ensure('the projected normal is orthogonal to a unit tangent', z3.Implies(dot(v, v) == 1, dot(w, v) == dot(u, v) - dot(u, v) * dot(v, v)))
    T.append(Task('lemma: cross products', ortho2, timeout=20))

    def weight(a):
        """the coordinate behind the last one of a NURBS is the weight function"""
        s = Spl(a, 1, 3, True); s.positive_weights(); u, us = s.S.params(); f = s.first(u, us); ws = Sum(lambda i: (lambda t: s.basis(t[0], u) * s.W(t[1]))(s.term(f, i)), s.count(), 'R')
        a.assume(ws > 0); r = a.call(s.obj, 'Evaluate', us, Vec(items=[3])); a.ensure('weight function', eq(r.get(0), ws))
    T.append(Task('NURBS<1>::Evaluate of the weight', weight))

    # ---- swept surface: sections
    def swept(a, sT, sC, nb):
        s, c = curve(a, 'T', *sT, 3), curve(a, 'C', *sC, 3); lo, hi = s.U[0][0], s.U[0][-1]; step = (hi - lo) / (nb - 1)
        at = lambda u: [to_real(getv_ex(a.ex, x)) for x in u.items]
        FV = [z3.Function(f'TRAJ{c}', R, R) for c in range(4)]; FD = [[z3.Function(f'TRAJ{k}_{c}', R, R) for c in range(3)] for k in (1, 2)]
        def inside(ex, u): ex.oblige('parameter of the trajectory', z3.And(u >= lo, u <= hi))
        def ev(ex, x): u, = at(x[0]); inside(ex, u); return Vec(items=[FV[conc_int(k)](u) for k in x[1].items])
        def der(ex, x): u, = at(x[0]); inside(ex, u); return Vec(items=[FD[conc_int(x[2].items[0]) - 1][conc_int(k)](u) for k in x[1].items])
        for q in ('spl::Spline<1>', NU(1)): FnContract(a.ex, q + '::Evaluate', 2, s.obj.root, ev); FnContract(a.ex, q + '::EvaluateDerivative', 3, s.obj.root, der)
        us = [lo + i * step for i in range(nb)]; M = [[z3.Function(f'FRAME{j}{k}', I, R) for k in range(4)] for j in range(3)]
        count = Ref(a.ex.alloc(0))
        def trans(ex, x):
            i = conc_int(ex.load(count)); ex.store(count, i + 1); u = us[i]
            ex.oblige('frame of the next section', z3.And(*[p == f(u) for v, fs in zip(x[:3], (FV[:3], FD[0], FD[1])) for p, f in zip(R3(v), fs)], to_bool(eq(x[4], i))))
            ex.oblige('normal of the former section', land(*[eq(p, M[j][2](i - 1) if i else (F(0), F(0), F(1))[j]) for j, p in enumerate(x[3].items)]))
            return Arr([Arr([M[j][k](i) for k in range(4)]) for j in range(3)] + [Arr([F(0), F(0), F(0), F(1)])])
        Any(a, SG + '::GetTransformation', 5, trans)
        sc = [[z3.Real(f'sc{i}_{k}') for k in range(3)] for i in range(nb)]
        g = a.new_with(SG, SHARED(1) + ['int', 'std::vector<std::array<double, 3>>'], Ptr(s.obj.root), Ptr(c.obj.root), nb, Vec(items=[Arr(x) for x in sc])); o = a.new_with(NU(2), ['spl::NURBSGenerator<2>'], g)
        a.ensure('one frame per section', eq(a.ex.load(count), nb)); p = s.p[0]
        q, kv, N = reading(a, o, 2, True); a.ensure('degrees and sizes', z3.BoolVal([conc_int(x) for x in q] == [p, c.p[0]] and [conc_int(x) for x in N] == [nb, c.L[0]]))
        U = knots_of_spline(a, o, 0); a.ensure('number of knots', z3.BoolVal(len(U) == nb + p + 1))
        for i, x in enumerate(U): a.ensure('averaged knots of the trajectory direction', eq(x, lo if i <= p else hi if i >= nb else sum(us[j] for j in range(i - p, i)) / p))
        U = knots_of_spline(a, o, 1); a.ensure('number of knots', z3.BoolVal(len(U) == len(c.U[0])))
        for x, y in zip(U, c.U[0]): a.ensure('knots of the profile', eq(x, y))
        for i in range(nb):
            for j in range(c.L[0]):
                for k in range(3): a.ensure('control point of the profile, scaled, turned into the frame and moved', eq(a.call(o, 'GetControlPoint', Arr([i, j]), k), M[k][3](i) + sum(M[k][m](i) * sc[i][m] * c.P[j][m] for m in range(3))))
                a.ensure('weight of the profile times the weight of the trajectory', eq(a.call(o, 'GetWeight', Arr([i, j])), c.W[j] * FV[3](us[i])))
    for sT, sC, nb in (((1, 4), (1, 4), 2), ((2, 6), (1, 5), 4), ((3, 8), (1, 4), 5), ((2, 7), (1, 4), 5)):
        T.append(Task(f'swept surface of curves of degree {sT[0]} and {sC[0]} with {sT[1]} and {sC[1]} knots and {nb} sections', lambda a, x=(sT, sC, nb): swept(a, *x), bounded='the listed numbers of knots and sections; arbitrary knots, control points, weights, trajectories and scalings'))
    return T


from stdmodel import SQRT as SQRTF
