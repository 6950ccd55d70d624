"""C07: derivatives of basis functions, B-splines and NURBS."""
import z3, itertools, math
from values import *
from spec import Task
from spline import *
from basis import *
from C03 import create, NDER
import ring

TU = 'core'
LINK = ('src/baf',)
ASSUME = ('different knots are at least 10*2^-52 apart (the code takes closer knots for equal)', 'weights are positive (the weight sum is then positive: lemma of C06)',
          'NURBS: one proof for each listed mixed order (the recursion over the order is unfolded); basis, B-spline: all orders')
NURBS_ORDERS = {1: [(0,), (1,), (2,), (3,)], 2: [(0, 0), (1, 0), (0, 1), (1, 1), (2, 0), (0, 2), (2, 1)], 3: [(1, 0, 0), (0, 0, 1), (0, 1, 1), (2, 0, 0)], 4: [(0, 0, 0, 1), (1, 0, 0, 0)]}


def tasks():
    T = []

    def zero(a):
        K = Knots(a); B = Basis(K); B.separated(a); kv = K.object(a); i, k = z3.Ints('i k'); u = z3.Real('u')
        a.assume(z3.And(i >= 0, i + 1 < K.n, k >= 0)); a.assume(B.nonempty(i, 0))
        b = create(a, kv, i, 0)
        a.ensure('degree 0: order 0 is the value, higher orders vanish', eq(a.call(b, 'EvaluateDerivative', pc(a, u), a.nt(NDER, k)), z3.If(k == 0, B.N0(i, u), 0)))
    T.append(Task('basis derivative, degree 0', zero, small=(2, 3)))

    def step(a):
        K = Knots(a, minlen=3); B = Basis(K); B.separated(a); kv = K.object(a); i, p, k = z3.Ints('i p k'); u = z3.Real('u')
        if a.small: p = z3.IntVal(1)
        a.assume(z3.And(p >= 1, i >= 0, i + p + 1 < K.n, k >= 0)); a.assume(B.nonempty(i, p))
        a.ex.contracts[('baf::BasisFunctionFactory::CreateDynamic', 3)] = CreateContract(B, p); a.ex.ghost_methods.update(B.ghosts())
        b = create(a, kv, i, p)
        for c in (B.in_support(i, p, u), K.U(i + p) == K.U(i), K.U(i + p + 1) == K.U(i + 1), k == 0): a.ex.choose(c)
        for j in (i, i + 1): a.assume(z3.Implies(z3.Not(B.in_support(j, p - 1, u)), z3.And(B.N(j, p - 1, u) == 0, z3.Implies(k >= 1, B.DN(j, p - 1, k - 1, u) == 0))))
        a.ensure('derivative follows the recursion of the B-spline derivatives', eq(a.call(b, 'EvaluateDerivative', pc(a, u), a.nt(NDER, k)), z3.If(k == 0, B.cox(i, p, u), B.dcox(i, p, k, u))))
        a.ensure('evaluating leaves the knots unchanged', elems_equal(a, kv, K.n, lambda j: K.U(j)))
    T.append(Task('basis derivative, degree p from degree p-1', step, small=(3, 4)))

    # ---- splines
    for D in (1, 2, 3, 4):
        def bs(a, D=D):
            dim = 2; s = Spl(a, D, dim, False).space_contracts(); u, us = s.S.params(); k = [z3.Int(f'k{d}') for d in range(D)]
            for x in k: a.assume(x >= 0)
            f = s.first(u, us); n = s.count()
            r = a.call(s.obj, 'EvaluateDerivative', us, Vec(items=[1, 0]), Arr(k))
            a.ensure('one value per requested coordinate', eq(r.n, 2))
            for j, c in enumerate((1, 0)):
                a.ensure('derivative is the sum of basis derivatives times control points', eq(r.get(j), Sum(lambda i: (lambda t: s.dbasis(t[0], k, u) * s.P(t[1], c))(s.term(f, i)), n, 'R')))
        T.append(Task(f'BSpline<{D}>::EvaluateDerivative', bs))

        def ws(a, D=D):
            s = Spl(a, D, 1, True).space_contracts(); u, us = s.S.params(); k = [z3.Int(f'k{d}') for d in range(D)]
            for x in k: a.assume(x >= 0)
            a.ensure('weight sum', eq(a.call(s.obj, 'GetEvaluatedWeightSum', us), s.wsum(u)))
            a.ensure('derivative of the weight sum', eq(a.call(s.obj, 'GetEvaluatedDerivativeWeightSum', us, Arr(k)), s.dwsum(u, k)))
        T.append(Task(f'NURBS<{D}> weight sums', ws))

        def bso(a, D=D):
            s = Spl(a, D, 1, D % 2 == 0); u, us = s.S.params(inside=False)
            a.assume(z3.Or(*[z3.Or(x < k.lo, x > k.hi) for k, x in zip(s.K, u)]))
            e = a.throws(lambda: a.call(s.obj, 'EvaluateDerivative', us, Vec(items=[0]), Arr([1] * D)))
            a.ensure('differentiating outside the parameter range throws range_error', e == 'std::range_error')
        T.append(Task(f'EvaluateDerivative outside the range, {D} directions', bso))

        for o in NURBS_ORDERS[D]:
            def nu(a, D=D, o=o):
                s = Spl(a, D, 1, True).space_contracts().weight_contracts(); u, us = s.S.params(); f = s.first(u, us); n = s.count(); s.positive_weights()
                B = lambda x, k: s.basis(x, u) if not any(k) else s.dbasis(x, k, u)
                w = lambda k: s.wsum(u) if not any(k) else s.dwsum(u, k)
                A = lambda k: Sum(lambda i: (lambda t: B(t[0], k) * s.W(t[1]) * s.P(t[1], 0))(s.term(f, i)), n, 'R')
                w0 = w((0,) * D); a.assume(w0 > 0)
                r = a.call(s.obj, 'EvaluateDerivative', us, Vec(items=[0]), Arr(list(o)))
                a.ensure('one value per requested coordinate', eq(r.n, 1))
                memo = {}

                def C(k):
                    # w C^(k) = A^(k) - sum over 0 < i <= k of binom(k, i) w^(i) C^(k - i)
                    if k not in memo:
                        t = A(k)
                        for i in itertools.product(*[range(x + 1) for x in k]):
                            if any(i): t = t - math.prod(math.comb(x, y) for x, y in zip(k, i)) * w(i) * C(tuple(x - y for x, y in zip(k, i)))
                        memo[k] = t / w0
                    return memo[k]
                a.ensure(f'the derivative of order {o} satisfies the quotient rule', eq(r.get(0), C(o)))
            T.append(Task(f'NURBS<{D}>::EvaluateDerivative of order {o}', nu))

    # ---- lemmas
    def lem(name, f, **kw):
        def run(a):
            K = Knots(a, minlen=2); B = Basis(K); f(a, K, B, z3.Int('i'), z3.Int('p'), z3.Real('u'))
        T.append(Task('lemma: ' + name, run, **kw))

    def above(a, K, B, i, p, u):
        k = z3.Int('k'); a.assume(z3.And(p >= 1, k > p))
        for j in (i, i + 1): a.assume(B.DN(j, p - 1, k - 1, u) == 0)
        a.ensure('orders above the degree vanish', B.dcox(i, p, k, u) == 0)
    lem('orders above the degree vanish', above)

    def true_derivative(a, K, B, i, p, u):
        """d/du of the Cox-de Boor right-hand side at degree p is the recursion DN(i, p, 1): from the same statement at degree p-1. M0, M1, M2
        are N(i..i+2, p-2, u); a divisor of zero goes with a vanishing function. Differences x = U(i+p-1)-U(i), y = U(i+p)-U(i+1), z = U(i+p+1)-U(i+2)."""
        U0, U1, U2, Up1, Up, Uq, q = z3.Reals('U0 U1 U2 Upm1 Up Upp1 q'); M0, M1, M2 = z3.Reals('M0 M1 M2')      # Up1 = U(i+p-1), Up = U(i+p), Uq = U(i+p+1), q = p
        a.assume(z3.And(U0 <= U1, U1 <= U2, Up1 <= Up, Up <= Uq, U0 <= Up1, U1 <= Up, U2 <= Uq))
        iv = lambda d: z3.If(d == 0, z3.RealVal(0), 1 / d)
        x, y, z = Up1 - U0, Up - U1, Uq - U2; l, r = Up - U0, Uq - U1
        for d, m in ((x, M0), (y, M1), (z, M2)): a.ex.choose(d == 0); a.assume(z3.Implies(d == 0, m == 0))
        a.ex.choose(l == 0); a.ex.choose(r == 0)
        NL = (u - U0) * iv(x) * M0 + (Up - u) * iv(y) * M1; NR = (u - U1) * iv(y) * M1 + (Uq - u) * iv(z) * M2
        dNL = (q - 1) * (iv(x) * M0 - iv(y) * M1); dNR = (q - 1) * (iv(y) * M1 - iv(z) * M2)
        lhs = iv(l) * NL + (u - U0) * iv(l) * dNL - iv(r) * NR + (Uq - u) * iv(r) * dNR
        rhs = q * (iv(l) * NL - iv(r) * NR)
        # the choices made above resolve the quotients
        def res(t):
            for d in (x, y, z, l, r):
                t = z3.substitute(t, (iv(d), z3.RealVal(0))) if not a.ex.feasible(a.ex.st.pc + [d != 0]) else z3.substitute(t, (iv(d), 1 / d)) if not a.ex.feasible(a.ex.st.pc + [d == 0]) else t
            for d, m in ((x, M0), (y, M1), (z, M2)):
                if not a.ex.feasible(a.ex.st.pc + [d != 0]): t = z3.substitute(t, (m, z3.RealVal(0)))
            return t
        def nz(key): return True      # every remaining divisor is one of x, y, z, l, r that is different from zero on this path
        L, Rr = res(lhs), res(rhs)
        if ring.equal(L, Rr, nz): a.ensure('the derivative of the recursion is the derivative recursion', z3.BoolVal(True))
        else: a.ensure('the derivative of the recursion is the derivative recursion', lhs == rhs)
    lem('the derivative recursion is the derivative of the Cox-de Boor recursion', true_derivative, timeout=20)
    return T
