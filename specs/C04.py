"""C04: spl::ParameterSpace for all knot vectors and degrees, directions 1..3."""
import z3
from values import *
from spec import Task
from common import *
from pspace import *

TU = 'core'
LINK = ('src/baf',)
ASSUME = ('CreateDynamic is used through its contract (decided in C03)',)
DIMS = (1, 2, 3)


def tasks():
    T = []
    for D in DIMS:
        def accept(a, D=D):
            S = Space(a, D)
            check_reports(a, S.obj, 'a new space', [k.n for k in S.K], [k.U for k in S.K], S.p)
            check_basis(a, S.obj, S.R, 'a new space', [k.n for k in S.K], S.p)
        T.append(Task(f'ParameterSpace<{D}> constructor accepts clamped knots', accept, small=(2, 4, 6)))

        def reject(a, D=D):
            S = Space(a, D, valid=False, obj=False)
            ok = z3.And(*[clamped(k, p) for k, p in zip(S.K, S.p)])
            t = a.throws(lambda: a.new(PS(D), S.kvs(), S.degs()))
            a.ensure('construction throws exactly when a direction is not clamped or has too few knots', z3.Not(ok) if t else ok)
        T.append(Task(f'ParameterSpace<{D}> constructor rejects', reject, small=(2, 3, 4, 6)))

        def copy(a, D=D):
            S = Space(a, D); cp = a.new(PS(D), S.obj)
            n = [k.n for k in S.K]; U = [k.U for k in S.K]
            check_reports(a, cp, 'a copy', n, U, S.p); check_basis(a, cp, S.R, 'a copy', n, S.p)
            for d in range(D): a.ensure('a copy has knot vectors of its own', not a.call(cp, 'GetKnotVector', d).same(a.call(S.obj, 'GetKnotVector', d)))
        T.append(Task(f'ParameterSpace<{D}> copy', copy, small=(2, 4, 6)))

        for dd in range(D):
            def op(a, D=D, dd=dd, name=None):
                S = Space(a, D); n = [k.n for k in S.K]; p = list(S.p)
                kv = S.kv[dd]; other = [S.K[d].U for d in range(D)]
                if name in ('InsertKnot', 'RemoveKnot'):
                    K = S.K[dd]
                    if name == 'InsertKnot': u = K.inside(a, 'knot')
                    else:
                        r0 = z3.Int('r0'); a.assume(z3.And(r0 >= 0, r0 < K.n)); u = K.U(r0); a.assume(z3.Or(u == K.hi, K.hi - u >= to_real(KEPS)))
                        a.assume(K.n >= 2 * to_int(p[dd]) + 3)
                    # the knot vector operation itself is decided in C02: run it on a second knot vector and compare
                    ref = K.object(a); a.call(ref, name, pc(a, u)); want = knots_vec(a.ex, ref)
                    a.call(S.obj, name, pc(a, u), dd)
                    n[dd] = want.n; U = list(other); U[dd] = lambda i: to_real(getv_ex(a.ex, want.get(i)))
                else:
                    if name == 'ReduceDegree': a.assume(to_int(p[dd]) >= 1)
                    else: a.assume(to_int(S.K[dd].n) >= 2 * to_int(p[dd]) + 4)
                    a.call(S.obj, name, dd); p[dd] = to_int(p[dd]) + (1 if name == 'ElevateDegree' else -1); U = other
                check_reports(a, S.obj, name, n, U, p); check_basis(a, S.obj, S.R, name, n, p)
            for name in ('InsertKnot', 'RemoveKnot', 'ElevateDegree', 'ReduceDegree'):
                T.append(Task(f'ParameterSpace<{D}>::{name} in direction {dd}', lambda a, f=op, name=name: f(a, name=name), small=(4, 6)))

        for dd in range(D):
            def nonzero(a, D=D, dd=dd):
                S = Space(a, D); K, p = S.K[dd], to_int(S.p[dd]); u = K.inside(a, f'u{dd}')
                tag = S.R.tag(knots_vec(a.ex, S.kv[dd]))
                v = a.call(S.obj, 'EvaluateAllNonZeroBasisFunctions', dd, pc(a, u))
                k = getv(a, a.call(S.kv[dd], 'GetKnotSpan', pc(a, u))); j = fresh('j')
                a.ensure('the p+1 functions of the span are reported in order', z3.And(to_int(v.n) == p + 1, z3.ForAll([j], z3.Implies(z3.And(j >= 0, j <= p), to_real(v.get(j)) == S.R.V(tag)(to_int(k) - p + j, p, u)))))
                der = z3.Int('der'); a.assume(der >= 0)
                v = a.call(S.obj, 'EvaluateAllNonZeroBasisFunctionDerivatives', dd, pc(a, u), der)
                a.ensure('the derivatives of the p+1 functions of the span are reported in order', z3.And(to_int(v.n) == p + 1, z3.ForAll([j], z3.Implies(z3.And(j >= 0, j <= p), to_real(v.get(j)) == S.R.DV(tag)(to_int(k) - p + j, p, der, u)))))
            T.append(Task(f'ParameterSpace<{D}> non-zero functions in direction {dd}', nonzero, small=(4, 6)))

        def first(a, D=D):
            S = Space(a, D); u, us = S.params(); r = a.call(S.obj, 'GetArrayOfFirstNonZeroBasisFunctions', us)
            for d in range(D):
                k = to_int(r.items[d]) + to_int(S.p[d])
                a.ensure('first non-zero function is span minus degree', S.K[d].is_span(k, u[d]))
                a.ensure('the functions of the span exist', z3.And(to_int(r.items[d]) >= 0, k < to_int(S.K[d].n) - to_int(S.p[d]) - 1))
            a.ensure('range length', land(*[eq(a.call(S.obj, 'GetKnotVectorRange', d), S.K[d].hi - S.K[d].lo) for d in range(D)]))
        T.append(Task(f'ParameterSpace<{D}> first non-zero function', first, small=(4, 6)))

        def inrange(a, D=D):
            S = Space(a, D); u, us = S.params(inside=False)
            t = a.throws(lambda: a.call(S.obj, 'ThrowIfParametricCoordinateOutsideKnotVectorRange', us))
            ins = z3.And(*[z3.And(k.lo <= x, x <= k.hi) for k, x in zip(S.K, u)])
            a.ensure('a range error is thrown exactly outside the closed range', z3.And(z3.Not(ins), z3.BoolVal(t == 'std::range_error')) if t else ins)
        T.append(Task(f'ParameterSpace<{D}> range check', inrange, small=(4,)))

    # multiplicities of all knots: symbolic knot values, given multiplicity patterns
    for p, pat in ((0, (1, 1, 1)), (1, (2, 1, 2)), (2, (3, 1, 2, 1, 3)), (3, (4, 2, 3, 4)), (2, (3, 3))):
        def multi(a, p=p, pat=pat):
            x = [z3.Real(f'x{j}') for j in range(len(pat))]
            for j in range(len(pat) - 1): a.assume(x[j + 1] - x[j] >= to_real(KEPS))
            for name, s in (('IncrementMultiplicityOfAllKnots', 1), ('DecrementMultiplicityOfAllKnots', -1)):
                if s < 0 and p == 0: continue
                R = Registry(a); R.tag(Vec(items=()))
                kv = a.new_with(KV, ['std::vector<' + PC + '>'], Vec(items=[pc(a, x[j]) for j, m in enumerate(pat) for _ in range(m)]))
                sp = a.new(PS(1), Arr([Ptr(kv.root)]), Arr([deg(a, p)]))
                a.call(sp, name, 0)
                got = knots_vec(a.ex, Ref(a.call(sp, 'GetKnotVector', 0).root)); want = [x[j] for j, m in enumerate(pat) for _ in range(m + s)]
                a.ensure(f'{name} changes every multiplicity by one', land(eq(got.n, len(want)), *[eq(getv_ex(a.ex, got.get(i)), w) for i, w in enumerate(want)]))
        T.append(Task(f'ParameterSpace multiplicities p={p} {pat}', multi, bounded='given multiplicity patterns, arbitrary knot values'))
    return T
