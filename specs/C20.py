"""C20: projections end, stay inside the parameter range and stop where the offset is orthogonal to the tangents."""
import z3
from values import *
from spec import Task
from common import *
from spline import *

TU = 'gen'
LINK = ('src/baf',)
ASSUME = ('the curve or surface is regular: the Gram determinant of the tangents is not zero inside the range', 'values and derivatives are those of C06 and C07 (contracts of Evaluate and EvaluateDerivative)')
PR = lambda D: f'spl::Projection<{D}>'
VU = 'util::VectorUtils<double>'
EL = 'util::Element'


class Any:
    """contract given as a function (executor, arguments) -> result"""
    def __init__(self, a, q, n, fn): self.name, self.fn = q, fn; a.ex.contracts[(q, n)] = self
    def applies(self, ex, this, args): return True
    def apply(self, ex, this, args, f): return self.fn(ex, [ex.load(x) if isinstance(x, Ref) else x for x in args])


dot = lambda u, v: sum((x * y for x, y in zip(u, v)), z3.RealVal(0))
cross = lambda u, v: [u[1] * v[2] - u[2] * v[1], u[2] * v[0] - u[0] * v[2], u[0] * v[1] - u[1] * v[0]]
vec = lambda n, dim: [z3.Real(f'{n}{i}') for i in range(dim)]
reals = lambda v: [to_real(x) for x in (v.items if v.items is not None else [v.get(i) for i in range(conc_int(v.n))])]


class Patch:
    """a spline object known by its knots; points POINTc(u) and first derivatives TANc_d(u) are arbitrary functions of the parameter"""
    def __init__(self, a, D, dim, weighted=False):
        self.a, self.D, self.dim = a, D, dim; self.s = Spl(a, D, dim, weighted); self.K = self.s.K; ex = a.ex
        self.P = [z3.Function(f'POINT{c}', *([R] * (D + 1))) for c in range(dim)]; self.T = [[z3.Function(f'TAN{c}_{d}', *([R] * (D + 1))) for c in range(dim)] for d in range(D)]
        rd = lambda v: [to_real(getv_ex(ex, x)) for x in v.items]

        def coord(ex, c):
            c = conc_int(c)
            if c is None: raise Unsupported('symbolic coordinate')
            ex.oblige('coordinate exists', z3.BoolVal(0 <= c < dim)); return c
        def ev(ex, x): u = rd(x[0]); ex.oblige('parameter inside the range', self.inside(u)); return Vec(items=[self.P[coord(ex, c)](*u) for c in x[1].items])
        def der(ex, x):
            u = rd(x[0]); ex.oblige('parameter inside the range', self.inside(u)); k = [conc_int(v) for v in x[2].items]; ex.oblige('first derivatives', z3.BoolVal(None not in k and sorted(k) == [0] * (D - 1) + [1]))
            return Vec(items=[self.T[k.index(1)][coord(ex, c)](*u) for c in x[1].items])
        for q in ('spl::Spline<%d>' % D, (NU if weighted else BS)(D)): FnContract(ex, q + '::Evaluate', 2, self.s.obj.root, ev); FnContract(ex, q + '::EvaluateDerivative', 3, self.s.obj.root, der)
        self.ptr = Ptr(self.s.obj.root)

    def inside(self, u): return z3.And(*[z3.And(x >= k.lo, x <= k.hi) for k, x in zip(self.K, u)])
    def point(self, u): return [f(*u) for f in self.P]
    def tangents(self, u): return [[f(*u) for f in t] for t in self.T]


def params_of(v, D):
    """the numbers of an array of D parameters, or None"""
    if isinstance(v, Arr) and len(v.items) == D and all(isinstance(x, Obj) and x.cls == PC for x in v.items): return [to_real(list(x.f.values())[0]) for x in v.items]


def tasks():
    T = []
    # ---- vector operations
    for dim in (1, 2, 3, 4):
        def ops(a, dim=dim):
            u, v = vec('u', dim), vec('v', dim); f = z3.Real('f'); V = lambda x: Vec(items=list(x))
            a.ensure('difference', land(*[eq(x, p - q) for x, p, q in zip(a.static(VU + '::ComputeDifference', V(u), V(v)).items, u, v)]))
            a.ensure('scalar product', eq(a.static(VU + '::ComputeScalarProduct', V(u), V(v)), dot(u, v)))
            a.ensure('scaled vector', land(*[eq(x, f * p) for x, p in zip(a.static(VU + '::ScaleVector', V(u), f).items, u)]))
            from stdmodel import SQRT
            a.ensure('length', eq(a.static(VU + '::ComputeTwoNorm', V(u)), SQRT(simp(dot(u, u)))))
            a.ensure('distance', eq(a.static(VU + '::ComputeDistance', V(u), V(v)), SQRT(simp(dot([p - q for p, q in zip(u, v)], [p - q for p, q in zip(u, v)])))))
            if dim == 3: a.ensure('cross product', land(*[eq(x, y) for x, y in zip(a.static(VU + '::CrossProduct', V(u), V(v)).items, cross(u, v))]))
        T.append(Task(f'vector operations in dimension {dim}', ops))

    # ---- steps
    for dim in (1, 2, 3, 4):
        def d1(a, dim=dim):
            P, d, Q = vec('P', dim), vec('d', dim), vec('Q', dim); a.assume(dot(d, d) > 0)
            r = to_real(a.static(PR(1) + '::GetDelta1D', Vec(items=P), Vec(items=d), Vec(items=Q)).items[0])
            a.ensure('the step annihilates the tangential part of the offset', dot(d, d) * r == dot(d, [q - p for p, q in zip(P, Q)]))
        T.append(Task(f'GetDelta1D in dimension {dim}', d1))

    def getq(a):
        P, d, e, Q = vec('P', 3), vec('d', 3), vec('e', 3), vec('Q', 3); n = cross(d, e)
        from stdmodel import SQRT
        a.assume(SQRT(simp(dot(n, n))) > 0); a.assume(dot(n, n) > 0)
        l = z3.Real('l')
        Any(a, VU + '::ComputeTwoNorm', 1, lambda ex, x: (ex.oblige('length of the normal', land(*[eq(u, v) for u, v in zip(reals(x[0]), n)])), l)[1]); a.assume(l > 0)
        q = reals(a.static(PR(2) + '::GetQ', Vec(items=Q), Vec(items=P), Vec(items=d), Vec(items=e)))
        for t, w in ((d, 'first'), (e, 'second')): a.ensure(f'the point is moved orthogonally to the {w} tangent', dot(q, t) == dot(Q, t))
    T.append(Task('GetQ', getq, timeout=20))

    def d2(a):
        P, d, e, Q, q = vec('P', 3), vec('d', 3), vec('e', 3), vec('Q', 3), vec('q', 3); A, B, C = dot(d, d), dot(d, e), dot(e, e); a.assume(z3.And(A > 0, A * C - B * B > 0))
        def gq(ex, x):
            ex.oblige('point moved for this parameter', land(*[eq(u, v) for y, w in zip(x, (Q, P, d, e)) for u, v in zip(reals(y), w)])); return Vec(items=q)
        Any(a, PR(2) + '::GetQ', 4, gq)
        x, y = [to_real(v) for v in a.static(PR(2) + '::GetDelta2D', Vec(items=P), Vec(items=d), Vec(items=e), Vec(items=Q)).items]
        off = [u - v for u, v in zip(q, P)]
        a.ensure('first normal equation', A * x + B * y == dot(off, d)); a.ensure('second normal equation', B * x + C * y == dot(off, e))
    T.append(Task('GetDelta2D', d2, timeout=20))

    for D in (1, 2):
        def check(a, D=D):
            S = Patch(a, D, 2); u = [z3.Real(f'u{d}') for d in range(D)]
            r = [to_real(getv(a, x)) for x in a.static(PR(D) + '::CheckParametricCoordinates', Arr([pc(a, x) for x in u]), S.ptr).items]
            for x, y, k in zip(u, r, S.K): a.ensure('clamped to the range', y == z3.If(x < k.lo, k.lo, z3.If(x > k.hi, k.hi, x)))
        T.append(Task(f'CheckParametricCoordinates<{D}>', check))

        def update(a, D=D):
            u, d = vec('u', D), vec('d', D); t = z3.Real('tol')
            r = [to_real(getv(a, x)) for x in a.static(PR(D) + '::UpdateProjectedPoint', Arr([pc(a, x) for x in u]), Arr(d)).items]
            for x, y, z in zip(u, d, r): a.ensure('parameter moved by the step', z == x + y)
            c = to_bool(a.static(PR(D) + '::UpdateConverged', Arr(d), t)); a.ensure('converged when every step is below the tolerance', c == z3.And(*[z3.And(x < t, -x < t) for x in d]))
        T.append(Task(f'steps and convergence test <{D}>', update))

    def dims(a):
        n = z3.Int('n'); a.assume(z3.And(n >= 0, n < 2 ** 20)); r = a.static(PR(1) + '::GetDimensions', Vec(n=n, get=lambda i: z3.Function('Q', I, R)(to_int(i)))); i = z3.Int('i'); a.assume(z3.And(i >= 0, i < n))
        a.ensure('all coordinates', z3.And(to_bool(eq(r.n, n)), to_bool(eq(r.get(i), i))))
    T.append(Task('GetDimensions', dims))

    def elements(a, S):
        """contract of the element list (verified in C22): at least one element, each a non-empty part of the parameter range"""
        k = S.K[0]; n = z3.Int('nel'); lo, hi = z3.Function('ELO', I, R), z3.Function('EHI', I, R); i = z3.Int('ei')
        a.assume(z3.And(n >= 1, n < 2 ** 30)); a.assume(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < n), z3.And(k.lo <= lo(i), lo(i) < hi(i), hi(i) <= k.hi)), patterns=[lo(i)]))
        a.instantiate(0)
        f = a.prog.recs[EL]['fields'][0]['n']
        Any(a, 'util::ElementGenerator<1>::ElementGenerator', 1, lambda ex, x: None); Any(a, 'util::ElementGenerator<1>::GetElementList', 1, lambda ex, x: Vec(n=n, get=lambda i: Obj(EL, {f: Arr([pc(a, lo(to_int(i))), pc(a, hi(to_int(i)))])})))

    def in_range(S, extra=None):
        def cand(vals):
            out = []
            for v in vals:
                u = params_of(v, S.D)
                if u is not None: out += [x >= k.lo for x, k in zip(u, S.K)] + [x <= k.hi for x, k in zip(u, S.K)]
            return out
        return cand

    for dim in (1, 2, 3):
        def init1(a, dim=dim):
            S = Patch(a, 1, dim); elements(a, S); Q = vec('Q', dim); a.ex.invariants = [in_range(S)]
            r = params_of(a.static(PR(1) + '::FindInitialValue1D', Vec(items=Q), S.ptr, Vec(items=list(range(dim)))), 1); a.ensure('start inside the range', S.inside(r))
        T.append(Task(f'FindInitialValue1D in dimension {dim}', init1))

    def init2(a):
        S = Patch(a, 2, 3); Q = vec('Q', 3); a.ex.invariants = [in_range(S)]; m = [z3.Int('m0'), z3.Int('m1')]
        for x in m: a.assume(z3.And(x >= 1, x < 2 ** 15))
        r = params_of(a.static(PR(2) + '::FindInitialValue2D', Arr(m), Vec(items=Q), S.ptr, Vec(items=[0, 1, 2])), 2); a.ensure('start inside the range', S.inside(r))
    T.append(Task('FindInitialValue2D', init2))

    # ---- the iteration
    def run(a, D, dim, w, tag):
        S = Patch(a, D, dim, w); Q = vec('Q', dim); tol = z3.Real('tol'); a.assume(tol > 0); DL = [z3.Function(f'STEP{d}', *([R] * (D + 1))) for d in range(D)]
        n = Ref(a.ex.alloc(0)); u0 = vec('start', D); a.assume(S.inside(u0)); rd = reals
        start = lambda ex, x: (Arr([pc(a, x) for x in u0]))
        Any(a, PR(1) + '::FindInitialValue1D', 3, lambda ex, x: start(ex, x)); Any(a, PR(2) + '::FindInitialValue2D', 4, lambda ex, x: start(ex, x))
        def step(ex, x):
            # the arguments are the value and the tangents at one parameter, and the point; the result is the step at that parameter
            P, ts, q = rd(x[0]), [rd(v) for v in x[1:-1]], rd(x[-1]); u = P[0].children()
            ex.oblige('step computed from the values at one parameter', z3.And(z3.BoolVal(len(u) == D and len(P) == dim and len(ts) == D), *[p == f for p, f in zip(P, S.point(u))], *[p == f for t, fs in zip(ts, S.tangents(u)) for p, f in zip(t, fs)], *[p == f for p, f in zip(q, Q)], z3.BoolVal(len(q) == dim)))
            ex.store(n, ex.int_op('+', ex.load(n), 1)); return Arr([f(*u) for f in DL])
        Any(a, PR(1) + '::GetDelta1D', 3, step); Any(a, PR(2) + '::GetDelta2D', 4, step)
        cl = lambda x, k: z3.If(x < k.lo, k.lo, z3.If(x > k.hi, k.hi, x)); p = vec('p', D); pr = lambda v: [to_real(getv_ex(a.ex, x)) for x in v.items]
        # contracts of the three small steps (verified above)
        Any(a, PR(D) + '::CheckParametricCoordinates', 2, lambda ex, x: Arr([pc(a, cl(y, k)) for y, k in zip(pr(x[0]), S.K)])); Any(a, PR(D) + '::UpdateProjectedPoint', 2, lambda ex, x: Arr([pc(a, y + to_real(z)) for y, z in zip(pr(x[0]), x[1].items)]))
        Any(a, PR(D) + '::UpdateConverged', 2, lambda ex, x: z3.And(*[z3.And(to_real(y) < to_real(x[1]), -to_real(y) < to_real(x[1])) for y in x[0].items]))

        def stopped(u):
            """u is one clamped step behind a parameter of the range where the step is below the tolerance"""
            st = [f(*p) for f in DL]
            return z3.Exists(p, z3.And(S.inside(p), *[z3.And(s < tol, -s < tol, x == cl(y + s, k)) for s, x, y, k in zip(st, u, p, S.K)]), patterns=[z3.MultiPattern(*st)])

        def cand(vals):
            us = [params_of(v, D) for v in vals]; us = [u for u in us if u is not None]; bs = [to_bool(v) for v in vals if isinstance(v, bool) or (is_z3(v) and z3.is_bool(v))]
            return [z3.Implies(b, stopped(u)) for b in bs for u in us] + [z3.Implies(z3.Not(b), stopped(u)) for b in bs for u in us]
        a.ex.invariants = [in_range(S), cand]; a.ex.loop_bound = 100000
        args = [Vec(items=Q), S.ptr] + ([Arr([z3.Int('m0'), z3.Int('m1')])] if D == 2 else []) + [tol]
        r = a.static(PR(D) + ('::ProjectionOnCurve' if D == 1 else '::ProjectionOnSurface'), *args); r = params_of(r, D)
        a.ensure('result inside the range', S.inside(r)); a.ensure('the iteration ends where the step is below the tolerance, unless many steps were made', z3.Or(stopped(r), to_int(a.ex.load(n)) >= 100))
    for D in (1, 2):
        for dim in ((1, 2, 3) if D == 1 else (3,)):
            for w in (False, True): T.append(Task(f'projection on a {"NURBS" if w else "BSpline"}<{D}> in dimension {dim}', lambda a, D=D, dim=dim, w=w: run(a, D, dim, w, '')))
    return T
