"""Writing splines to a file and reading them back, on the ghost file system. Shapes (degrees, knots, weights) are given numbers,
control points are arbitrary reals; the text of an unknown number is a run of number characters."""
import z3
from fractions import Fraction as F
from values import *
from spec import Task
from spline import BS, NU
from fixed import *
import C21, strmodel

TOL = F(1, 1000000)
HALF = F(1, 2000000)


def ptr_type(D, w): return f'std::shared_ptr<{(NU if w else BS)(D)}>'


def any_of(s): return Any(ptr_type(s.D, s.weighted), Ptr(s.obj.root))


def build(a, shapes):
    """shapes: (knots, degrees, dimension, weights or None)"""
    return [Fixed(a, U, p, dim, w, tag=f'S{i}_') for i, (U, p, dim, w) in enumerate(shapes)]


def write_read(a, fmt, ss, name, widths=None):
    if widths: a.ex.token_widths = widths
    for k, c in C21.to_double().items(): a.ex.contracts[k] = c
    a.ex.unroll = 20000
    w = a.new(f'io::{fmt}Writer'); a.call(w, 'WriteFile', Vec(items=[any_of(s) for s in ss]), strmodel.mk(name))
    r = a.new(f'io::{fmt}Reader')
    return a.call(r, 'ReadFile', strmodel.mk(name))


def close(x, y, tol):
    if tol == 0: return eq(lin(x), lin(y))
    if isnum(x) and isnum(y): return abs(F(x) - F(y)) <= tol
    d = lin(to_real(x) - to_real(y)); return land(d <= z3.RealVal(str(tol)), d >= z3.RealVal(str(-tol)))


def compare(a, got, ss, tol, scaled=False, pad=None):
    """the splines read are the splines written; scaled: coordinates are compared multiplied by the weight; pad: the format has that many coordinates"""
    a.ensure('number of splines', eq(got.n, len(ss)))
    if conc_int(got.n) != len(ss): return
    for x, s in zip(got.items, ss):
        a.ensure('kind and parametric dimension of the spline', x.type == ptr_type(s.D, s.weighted))
        if x.type != ptr_type(s.D, s.weighted): continue
        o = Ref(x.val.root, x.val.path)
        for d in range(s.D):
            a.ensure('degree', eq(degree_of(a, o, d), s.p[d])); k = knots_of_spline(a, o, d)
            a.ensure('knots', land(len(k) == len(s.U[d]), *[close(u, v, tol) for u, v in zip(k, s.U[d])]))
        dim = pad or s.dim
        a.ensure('dimension of the points', eq(a.call(o, 'GetPointDim'), dim))
        L, net = net_of(a, o, s.D, s.weighted, dim); a.ensure('numbers of points', L == s.L)
        if L != s.L: continue
        for l, (c, w) in enumerate(net):
            if s.weighted: a.ensure('weights', close(w, s.W[l], tol))
            for j, v in enumerate(c):
                want = s.P[l][j] if j < s.dim else F(0)
                f = s.W[l] if scaled and s.weighted else F(1)
                a.ensure('coordinates', close(v * z3.RealVal(str(f)) if f != 1 else v, want * z3.RealVal(str(f)) if f != 1 else want, tol))


K = {1: [[0, 0, 0, F(1, 2), 1, 1, 1]], 2: [[0, 0, 1, 1], [0, 0, 0, 1, 1, 1]], 3: [[0, 0, 1, 1], [0, 0, 0, F(1, 4), 1, 1, 1], [0, 0, 2, 2]], 4: [[0, 0, 1, 1]] * 3 + [[0, 0, 1, 3, 3]]}
P = {1: [2], 2: [1, 2], 3: [1, 2, 1], 4: [1, 1, 1, 1]}
K2 = {1: [[-1.5, -1.5, 2, 2, 7.25, 12, 12]], 2: [[-2, -2, -1, F(1, 4), 3, 3], [10, 11]], 3: [[5, 6], [0, 0, 1, 1], [-3, -3, -3, -2, -2, -2]]}
P2 = {1: [1], 2: [1, 0], 3: [0, 1, 2]}
WTS = lambda l: F(1 + l % 5, 2) if l % 3 else F(9, 4)


def shape(D, dim, w, alt=False): return ((K2 if alt else K)[D], (P2 if alt else P)[D], dim, WTS if w else None)
