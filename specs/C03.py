"""C03: basis functions, by induction over the degree: the object CreateDynamic makes for (i, p) evaluates to N(i, p, u)."""
import z3
from values import *
from spec import Task
from common import *
from basis import *

TU = 'core'
LINK = ('src/baf',)
ASSUME = ('different knots are at least 10*2^-52 apart (the code takes closer knots for equal)',)
NDER = 'util::NamedType<int, DerivativeParameter>'


def create(a, kv, i, p): return a.static(FACTORY, kv, a.nt(KS, i), deg(a, p))


def tasks():
    T = []

    def zero(a):
        K = Knots(a); B = Basis(K); B.separated(a); kv = K.object(a); i = z3.Int('i'); u = z3.Real('u')
        a.assume(z3.And(i >= 0, i + 1 < K.n)); a.assume(B.nonempty(i, 0))
        b = create(a, kv, i, 0)
        a.ensure('degree 0: value is the indicator of the half-open span, closed at the right end', eq(a.call(b, 'Evaluate', pc(a, u)), B.N0(i, u)))
    T.append(Task('degree 0', zero, small=(2, 3, 4)))

    def step_task(name, body, **kw):
        def run(a):
            K = Knots(a, minlen=3); B = Basis(K); B.separated(a); kv = K.object(a); i, p = z3.Ints('i p'); u = z3.Real('u')
            if a.small: p = z3.IntVal(1)
            a.assume(z3.And(p >= 1, i >= 0, i + p + 1 < K.n)); a.assume(B.nonempty(i, p))
            a.ex.contracts[('baf::BasisFunctionFactory::CreateDynamic', 3)] = CreateContract(B, p); a.ex.ghost_methods.update(B.ghosts())
            b = create(a, kv, i, p)
            body(a, K, B, kv, b, i, p, u)
        T.append(Task(name, run, **kw))

    def value(a, K, B, kv, b, i, p, u):
        for c in (B.in_support(i, p, u), K.U(i + p) == K.U(i), K.U(i + p + 1) == K.U(i + 1)): a.ex.choose(c)
        for j in (i, i + 1): a.assume(z3.Implies(z3.Not(B.in_support(j, p - 1, u)), B.N(j, p - 1, u) == 0))    # lemma: local support
        a.ensure('value is the Cox-de Boor combination of the two functions of one degree less', eq(a.call(b, 'Evaluate', pc(a, u)), B.cox(i, p, u)))
        a.ensure('making and evaluating a function leaves the knots unchanged', elems_equal(a, kv, K.n, lambda j: K.U(j)))
    step_task('degree p from degree p-1', value)

    def negative(a):
        K = Knots(a); kv = K.object(a); p = z3.Int('p'); a.assume(p < 0)
        t = a.throws(lambda: create(a, kv, z3.Int('i'), p))
        a.ensure('a negative degree is rejected', t is not None)
    T.append(Task('negative degree', negative))

    # ---- lemmas about the spec functions (the properties of the Cox-de Boor functions), each an induction step over the degree
    def lem(name, f, **kw):
        def run(a):
            K = Knots(a, minlen=2); B = Basis(K); f(a, K, B, z3.Int('i'), z3.Int('p'), z3.Real('u'))
        T.append(Task('lemma: ' + name, run, **kw))

    def local(a, K, B, i, p, u):
        a.assume(z3.And(i >= 0, i + 1 < K.n))
        a.ensure('degree 0 vanishes outside its support', z3.Implies(z3.Not(B.in_support(i, 0, u)), B.N0(i, u) == 0))
        a.assume(z3.And(p >= 1, i + p + 1 < K.n))
        for j in (i, i + 1): a.assume(z3.Implies(z3.Not(B.in_support(j, p - 1, u)), B.N(j, p - 1, u) == 0))
        for j in range(2): a.assume(K.U(i + j) <= K.U(i + p + j))
        a.ensure('degree p vanishes outside its support', z3.Implies(z3.Not(B.in_support(i, p, u)), B.cox(i, p, u) == 0))
    lem('local support', local)

    def nonneg(a, K, B, i, p, u):
        a.assume(z3.And(i >= 0, i + 1 < K.n)); a.ensure('degree 0 is not negative', B.N0(i, u) >= 0)
        a.assume(z3.And(p >= 1, i + p + 1 < K.n))
        for j in (i, i + 1):
            a.assume(z3.Implies(z3.Not(B.in_support(j, p - 1, u)), B.N(j, p - 1, u) == 0)); a.assume(B.N(j, p - 1, u) >= 0)
        U = K.U
        for x, m in ((B.N(i, p - 1, u), U(i + p) - U(i)), (B.N(i + 1, p - 1, u), U(i + p + 1) - U(i + 1))): a.assume(m >= 0)
        l, r = U(i + p) - U(i), U(i + p + 1) - U(i + 1)
        a.ensure('left term is not negative', z3.If(l == 0, 0, (u - U(i)) / l * B.N(i, p - 1, u)) >= 0)
        a.ensure('right term is not negative', z3.If(r == 0, 0, (U(i + p + 1) - u) / r * B.N(i + 1, p - 1, u)) >= 0)
    lem('non-negative', nonneg)

    def unity(a, K, B, i, p, u):
        """sum over i = k-p..k of N(i,p,u) = 1 in span k. With M(i) = N(i,p-1,u), A(i) the left factor of (i,p):
        N(i,p) = A(i) M(i) + (1 - A(i+1)) M(i+1); partial sums P(j) of N and Q(j) of M from k-p satisfy P(j) = Q(j) - M(k-p) (1 - A(k-p)) + (1 - A(k-p+j)) M(k-p+j)."""
        k, j = z3.Ints('k j'); U = K.U
        a.assume(z3.And(p >= 0, k - p >= 0, k + p + 1 < K.n)); a.assume(z3.And(U(k) < U(k + 1), U(k) <= u, z3.Or(u < U(k + 1), z3.And(u == K.hi, U(k + 1) == K.hi))))
        a.ensure('degree 0: the only function of the span is one', B.N0(k, u) == 1)
        a.assume(p >= 1)
        M = lambda t: B.N(t, p - 1, u)
        for t in (k - p, k + 1): a.assume(z3.Implies(z3.Not(B.in_support(t, p - 1, u)), M(t) == 0))
        a.ensure('the neighbour functions of one degree less vanish in the span', z3.And(M(k - p) == 0, M(k + 1) == 0))
        t = z3.Int('t'); a.assume(z3.And(t >= k - p, t <= k))
        A = lambda s: z3.If(U(s + p) - U(s) == 0, 0, (u - U(s)) / (U(s + p) - U(s)))
        P, Q = z3.Real('P'), z3.Real('Q')      # partial sums of N(.,p) and N(.,p-1) over k-p .. t-1
        inv = lambda P, Q, t: z3.If(t == k - p, z3.And(P == 0, Q == 0), P == Q + z3.If(t == k + 1, 0, (1 - A(t)) * M(t)))
        # facts about the denominators: positive for k-p < s <= k
        for s in (t, t + 1): a.assume(z3.Implies(z3.And(s > k - p, s <= k), z3.And(U(s) <= U(k), U(s + p) >= U(k + 1))))
        a.assume(z3.And(M(k - p) == 0, M(k + 1) == 0))
        x, y = z3.Real('x'), z3.Real('y'); hx, hy = z3.Real('hx'), z3.Real('hy')
        a.assume(inv(P, Q, t))
        a.ensure('partial sums telescope', inv(P + B.cox(t, p, u), Q + M(t), t + 1))
    lem('partition of unity, partial sums', unity, timeout=20)

    def unity_end(a, K, B, i, p, u):
        P, Q, first, rest = z3.Reals('P Q first rest')
        # P: sum of N(.,p) over k-p..k; Q: sum of N(.,p-1) over k-p..k = N(k-p,p-1) + the sum of degree p-1 over k-(p-1)..k
        a.assume(P == Q); a.assume(Q == first + rest); a.assume(first == 0); a.assume(rest == 1)
        a.ensure('the functions of the span sum to one', P == 1)
    lem('partition of unity, end', unity_end)
    return T
