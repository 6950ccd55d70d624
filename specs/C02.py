"""C02: baf::KnotVector for every number of knots and every non-decreasing sequence."""
import z3
from values import *
from spec import Task
from common import *
from loops import Sum

TU = 'core'
LINK = ('src/baf',)
ASSUME = ('a parameter closer than 10*2^-52 to the last knot is taken to be the last knot (the code treats it so)',)


def tasks():
    T = []

    def stored(a):
        K = Knots(a); kv = K.object(a)
        a.ensure('knots are stored as given', elems_equal(a, kv, K.n, lambda i: K.U(i)))
        a.ensure('last knot', eq(getv(a, a.call(kv, 'GetLastKnot')), K.hi))
        u = z3.Real('u')
        a.ensure('range test is the closed interval', to_bool(a.call(kv, 'IsInKnotVectorRange', pc(a, u))) == z3.And(K.lo <= u, u <= K.hi))
    T.append(Task('KnotVector constructor and queries', stored, small=(2, 3, 4, 5)))

    def span(a):
        K = Knots(a); kv = K.object(a); u = K.inside(a)
        k = getv(a, a.call(kv, 'GetKnotSpan', pc(a, u)))
        a.ensure('span k has knot k <= u < knot k+1, or is the last non-empty span at the right end', K.is_span(k, u))
        a.ensure('the span query leaves the knots unchanged', elems_equal(a, kv, K.n, lambda i: K.U(i)))
    T.append(Task('KnotVector::GetKnotSpan', span, small=(2, 3, 4, 5)))

    def unique(a):   # the span characterisation determines k (lemma over the contract)
        K = Knots(a); u = K.inside(a); k, l = z3.Ints('k l')
        a.assume(K.is_span(k, u)); a.assume(K.is_span(l, u))
        a.ensure('the span is determined by its characterisation', k == l)
    T.append(Task('span characterisation is unique', unique, small=(2, 3, 4, 5)))

    def last(a):
        K = Knots(a); kv = K.object(a); u = K.inside(a)
        a.ensure('last knot test', to_bool(a.call(kv, 'IsLastKnot', pc(a, u))) == (u == K.hi))
    T.append(Task('KnotVector::IsLastKnot', last, small=(2, 3, 4, 5)))

    def mult(a):
        K = Knots(a); kv = K.object(a); u = z3.Real('u')
        a.ensure('multiplicity counts the knots equal to the value', eq(a.call(kv, 'GetMultiplicity', pc(a, u)), Sum(lambda i: z3.If(K.U(i) == u, 1, 0), K.n, 'I')))
    T.append(Task('KnotVector::GetMultiplicity', mult, small=(2, 3, 4, 5)))

    def block(a):
        # the knots equal to u form the block f .. k that ends at the span k of u: partial counts over the first t knots
        K = Knots(a); u = K.inside(a); k, f, t = z3.Ints('k f t'); a.assume(z3.And(u < K.hi, K.is_span(k, u), f >= 0, f <= k + 1, t >= 0, t < K.n))
        j = z3.Int('bj'); a.assume(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < f), K.U(j) < u), patterns=[K.U(j)])); a.assume(z3.Implies(f <= k, K.U(f) >= u))      # f: the first knot not below u
        part = lambda t: z3.If(t <= f, 0, z3.If(t <= k + 1, t - f, k + 1 - f))
        a.ensure('the knots equal to the value are the block that ends at its span', (K.U(t) == u) == z3.And(f <= t, t <= k))
        a.ensure('partial counts', part(t + 1) == part(t) + z3.If(K.U(t) == u, 1, 0))
    T.append(Task('lemma: equal knots form a block', block))

    def different(a):
        K = Knots(a); kv = K.object(a)
        a.ensure('number of different knots counts the increases', eq(a.call(kv, 'GetNumberOfDifferentKnots'), 1 + to_int(Sum(lambda i: z3.If(K.U(i + 1) > K.U(i), 1, 0), K.n - 1, 'I'))))
    T.append(Task('KnotVector::GetNumberOfDifferentKnots', different, small=(2, 3, 4, 5)))

    def insert(a):
        K = Knots(a); kv = K.object(a); u = K.inside(a)
        a.call(kv, 'InsertKnot', pc(a, u))
        m = a.call(kv, 'GetNumberOfKnots'); a.ensure('one knot more', eq(m, K.n + 1))
        p = z3.Int('p')   # the sorted place: the first position behind all knots < u ... every place among equal knots gives the same sequence
        i = fresh('ii')
        got = a.ex.merge_eval(lambda: getv(a, a.call(kv, 'GetKnot', i)), z3.And(i >= 0, i <= K.n))
        r = to_real(got)
        a.ensure('knots below the new one are unchanged', z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < K.n, K.U(i) < u), r == K.U(i))))
        j = fresh('ij'); rj = z3.substitute(r, (i, j + 1))
        a.ensure('knots above the new one move up by one', z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < K.n, K.U(j) > u), rj == K.U(j))))
        e = fresh('ie'); re, re1 = z3.substitute(r, (i, e)), z3.substitute(r, (i, e + 1))
        a.ensure('copies of the new knot: one more than before', z3.ForAll([e], z3.Implies(z3.And(e >= 0, e < K.n, K.U(e) == u), z3.And(re == u, re1 == u))))
        a.ensure('a knot between two others takes the place between', z3.ForAll([e], z3.Implies(z3.And(e >= 0, e < K.n - 1, K.U(e) < u, u < K.U(e + 1)), re1 == u)))
        a.ensure('the result is sorted', z3.ForAll([e], z3.Implies(z3.And(e >= 0, e < K.n), re <= re1)))
    T.append(Task('KnotVector::InsertKnot', insert, small=(2, 3, 4, 5)))

    def remove(a):
        K = Knots(a, minlen=3); kv = K.object(a); r0 = z3.Int('r0'); a.assume(z3.And(r0 >= 0, r0 < K.n)); u = K.U(r0)
        a.assume(z3.Or(u == K.hi, K.hi - u >= to_real(KEPS)))
        a.call(kv, 'RemoveKnot', pc(a, u))
        a.ensure('one knot less', eq(a.call(kv, 'GetNumberOfKnots'), K.n - 1))
        i = fresh('ii'); got = a.ex.merge_eval(lambda: getv(a, a.call(kv, 'GetKnot', i)), z3.And(i >= 0, i < K.n - 1)); r = to_real(got)
        a.ensure('knots below the removed one are unchanged', z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < K.n, K.U(i) < u), r == K.U(i))))
        j = fresh('ij'); rj = z3.substitute(r, (i, j - 1))
        a.ensure('knots above the removed one move down by one', z3.ForAll([j], z3.Implies(z3.And(j >= 1, j < K.n, K.U(j) > u), rj == K.U(j))))
        a.ensure('remaining copies stay', z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < K.n - 1, K.U(i) == u, K.U(i + 1) == u), r == u)))
    T.append(Task('KnotVector::RemoveKnot', remove, small=(2, 3, 4, 5)))

    def equality(a):
        K, L = Knots(a), Knots(a, 'b'); kv, lv = K.object(a), L.object(a); t = z3.Real('tol'); a.assume(t > 0)
        i = fresh('qi')
        spec = lambda tol: z3.And(K.n == L.n, z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < K.n), z3.And(K.U(i) - L.U(i) < tol, L.U(i) - K.U(i) < tol))))
        a.ensure('equality within a tolerance is elementwise', to_bool(a.call(kv, 'AreEqual', lv, t)) == spec(t))
        a.ensure('== is equality within the default tolerance', to_bool(a.call(kv, 'operator==', lv)) == spec(to_real(KEPS)))
    T.append(Task('KnotVector equality', equality, small=(2, 3, 4, 5)))

    def difference(a):
        K = Knots(a); L = Knots(a, 'b', n=K.n); kv, lv = K.object(a), L.object(a)
        d = Ref(a.ex.alloc(a.call(kv, 'operator-', lv)))
        a.ensure('difference is elementwise', elems_equal(a, d, K.n, lambda i: K.U(i) - L.U(i)))
    T.append(Task('KnotVector::operator-', difference, small=(2, 3, 4, 5)))

    def averaging(a):
        p, n = z3.Ints('p n') if not a.small else (a.small // 2, a.small + 1); t = z3.Function('t', z3.IntSort(), z3.RealSort()); p, n = to_int(p), to_int(n); a.assume(z3.And(p >= 1, n >= p + 1))
        data = Vec(n=n, get=lambda i: pc(a, t(to_int(i)))) if not a.small else Vec(items=[pc(a, t(i)) for i in range(a.small + 1)])
        kv = a.new(KV, data, deg(a, p), n)
        a.ensure('averaged knot vector', elems_equal(a, kv, n + p + 1, lambda i: z3.If(i <= p, t(0), z3.If(i >= n, t(n - 1), to_real(Sum(lambda j: t(i - p + j), p)) / z3.ToReal(p)))))
    T.append(Task('KnotVector averaging constructor', averaging, small=(2, 3, 4, 5)))

    def copies(a):
        K = Knots(a); kv = K.object(a); cp = a.new(KV, kv); u = K.inside(a)
        a.call(kv, 'InsertKnot', pc(a, u))
        a.ensure('a copy keeps the knots when the original changes', elems_equal(a, cp, K.n, lambda i: K.U(i)))
    T.append(Task('KnotVector copy', copies, small=(2, 3, 4, 5)))
    return T
