"""C10: degree elevation and reduction."""
import z3
from values import *
from spec import Task
from spline import *
from fixed import *
from C09 import far, same, WT

TU = 'core'
LINK = ('src/baf',)
ASSUME = ('shape-bounded proofs: degrees, knots and weights are the listed numbers, control points are arbitrary',)
SHAPES = [  # (name, U, p, direction)
    ('p1 one span', [[0, 0, 2, 2]], [1], 0),
    ('p1 three spans', [[0, 0, 1, 3, 4, 4]], [1], 0),
    ('p2 one span', [[0, 0, 0, 2, 2, 2]], [2], 0),
    ('p2 simple inner knot', [[0, 0, 0, 1, 3, 3, 3]], [2], 0),
    ('p2 double inner knot', [[0, 0, 0, 1, 1, 3, 3, 3]], [2], 0),
    ('p3 one span', [[-1, -1, -1, -1, 1, 1, 1, 1]], [3], 0),
    ('p3 simple and double inner knot', [[0, 0, 0, 0, 1, 2, 2, 4, 4, 4, 4]], [3], 0),
    ('p4 one span', [[0, 0, 0, 0, 0, 1, 1, 1, 1, 1]], [4], 0),
    ('2 directions, first', [[0, 0, 0, 1, 2, 2, 2], [0, 0, 1, 1]], [2, 1], 0),
    ('2 directions, second', [[0, 0, 1, 1], [0, 0, 0, 1, 3, 3, 3]], [1, 2], 1),
    ('2 directions, second of degree 1', [[0, 0, 0, 1, 1, 1], [0, 0, 1, 3, 3]], [2, 1], 1),
    ('3 directions, middle', [[0, 0, 1, 1], [0, 0, 1, 2, 2], [0, 0, 1, 1]], [1, 1, 1], 1),
]
BND = 'given degrees, knots and weights; arbitrary control points'


def mult(U): return {x: list(U).count(x) for x in U}


def shape_ok(a, s, dirn, U0, p0, delta):
    """degrees, knots and numbers of points after a change of the degree in one direction; returns the knots"""
    U = [knots_of_spline(a, s.obj, d) for d in range(s.D)]; L = [conc_int(x) for x in a.call(s.obj, 'GetPointsPerDirection').items]
    for d in range(s.D):
        p = degree_of(a, s.obj, d); a.ensure('degree', p == p0[d] + (delta if d == dirn else 0))
        a.ensure('knots, points and degree belong together', len(U[d]) == L[d] + p + 1)
        if d != dirn: a.ensure('other directions keep their knots', [F(x) for x in U[d]] == list(U0[d]))
    return U, L


def geometry(a, s, old, p):
    for x in grid(a, old, p): a.ensure('geometry is unchanged', same_lin(evaluate(a, s.obj, x, s.dim), evaluate(a, old.obj, x, s.dim)))


def tasks():
    T = []
    for name, U, p, q in SHAPES:
        for wt in WT:
            kind = 'NURBS' if wt else 'BSpline'

            def elevate(a, U=U, p=p, q=q, wt=wt):
                s = Fixed(a, U, p, 1, wt); old = Fixed(a, U, p, 1, wt)
                if wt: far(a, s.D)
                a.call(s.obj, 'ElevateDegreeForDimension', q)
                V, L = shape_ok(a, s, q, s.U, p, 1); m0, m1 = mult(s.U[q]), mult([F(x) for x in V[q]])
                a.ensure('every knot gains at least one copy, no knot is new', set(m0) == set(m1) and all(m1[k] >= m0[k] + 1 for k in m0))
                a.ensure('knots stay sorted and clamped', list(V[q]) == sorted(V[q]) and m1[F(V[q][0])] == p[q] + 2 == m1[F(V[q][-1])])
                pp = list(p); pp[q] += 1; geometry(a, s, old, pp)
            T.append(Task(f'{kind} {name}: elevation', elevate, bounded=BND))
            if sum(len(x) for x in U) > 16 and wt: continue

            def back(a, U=U, p=p, q=q, wt=wt):
                s = Fixed(a, U, p, 1, wt); old = Fixed(a, U, p, 1, wt)
                if wt: far(a, s.D)
                a.call(s.obj, 'ElevateDegreeForDimension', q)
                ok = a.call(s.obj, 'ReduceDegreeForDimension', q, F(1, 10 ** 6))
                a.ensure('reducing an elevated spline succeeds', ok)
                V, L = shape_ok(a, s, q, s.U, p, 0); geometry(a, s, old, p)
            T.append(Task(f'{kind} {name}: reduction inverts elevation', back, bounded=BND))
            if p[q] < 2: continue

            def reduce(a, U=U, p=p, q=q, wt=wt):
                s = Fixed(a, U, p, 1, wt); old = Fixed(a, U, p, 1, wt)
                if wt: far(a, s.D)
                tol = z3.Real('tol'); a.assume(tol > 0)
                ok = a.call(s.obj, 'ReduceDegreeForDimension', q, tol)
                if a.ex.choose(ok):
                    V, L = shape_ok(a, s, q, s.U, p, -1)
                else:
                    V, L = shape_ok(a, s, q, s.U, p, 0); geometry(a, s, old, p)
            T.append(Task(f'{kind} {name}: reduction of any control points', reduce, bounded=BND, limit=600, thorough_only=len(U[0]) > 10 or (len(U) > 1 and q == 0)))
    for D in (1, 2, 3):
        for q in range(D):
            def alpha(a, D=D, q=q):
                s = Spl(a, D, 1, False, handler=False); r = a.call(s.obj, 'ComputeBezierDegreeElevationCoefficients', q); i = z3.Int('i'); a.assume(z3.And(i >= 0, i < s.p[q] + 2))
                a.ensure('one coefficient per new Bezier point', eq(r.n, s.p[q] + 2)); a.ensure('coefficients', to_real(r.get(i)) == z3.ToReal(i) / (z3.ToReal(s.p[q]) + 1))
            T.append(Task(f'Spline<{D}>::ComputeBezierDegreeElevationCoefficients in direction {q}', alpha))
    return T
