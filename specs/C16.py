"""C16: a VTK file holds the spline evaluated on the uniform grid and the cells of that grid.
Knots, control points and values are arbitrary; the numbers of cells per direction and the number of splines are the listed ones."""
import z3, itertools
from fractions import Fraction as F
from iofile import *
from spline import *
import strmodel

TU = 'io'
LINK = ('src/baf', 'src/io', 'external/pugixml/pugixml.cpp')
ASSUME = ('files can be opened and written', 'numbers of cells per direction, of splines, of knots and of control points are the listed ones; knots, control points and values are arbitrary',
          'the value of a spline at a parameter is the one of C06 (contract of Evaluate)')
CORNERS = ((0, 0, 0), (1, 0, 0), (1, 1, 0), (0, 1, 0), (0, 0, 1), (1, 0, 1), (1, 1, 1), (0, 1, 1))


def words(parts):
    """words of a text; the text of an unknown number is one word"""
    out = []; cur = []
    for p in list(parts) + [' ']:
        if isinstance(p, str) and p in ' \t\r\n':
            if cur: out.append(word(cur)); cur = []
        else: cur.append(p)
    return out


def word(ps):
    if all(isinstance(p, str) for p in ps): return ''.join(ps)
    t = strmodel.whole_token(ps)
    return t if t is not None and len(ps) == ps[0].k else None


def number(w):
    if w is None: return None
    if isinstance(w, str):
        try: return F(w)
        except ValueError: return None
    return w.val if w.integral or w.how == 'to_string' or w.how[1] >= 6 else None


def value(D, tag, c): return z3.Function(f'VALUE{D}_{tag}_{c}', *([R] * (D + 1)))


def evaluated(a, s, D, tag):
    """contract of Evaluate for one spline (verified in C06): defined on the closed parameter range, one value per requested coordinate"""
    def ev(ex, args):
        u = [to_real(getv_ex(ex, x)) for x in args[0].items]
        for k, x in zip(s.K, u): ex.oblige('parameter inside the knot range', z3.And(x >= k.lo, x <= k.hi))
        cs = [conc_int(c) for c in args[1].items]
        for c in cs:
            if c is None: raise Unsupported('symbolic coordinate')
            ex.oblige('coordinate exists', z3.BoolVal(0 <= c < s.dim))
        return Vec(items=[value(D, tag, c)(*u) for c in cs])
    FnContract(a.ex, f'spl::Spline<{D}>::Evaluate', 2, s.obj.root, ev)


class Several:
    """one contract for several objects"""
    def __init__(self, cs): self.name = cs[0].name; self.cs = cs
    def applies(self, ex, this, args): return any(c.applies(ex, this, args) for c in self.cs)
    def apply(self, ex, this, args, f): return [c for c in self.cs if c.applies(ex, this, args)][0].apply(ex, this, args, f)


class Range:
    def __init__(self, lo, hi): self.lo, self.hi = lo, hi


def any_spline(a, D, dim, w, i):
    """a spline whose knots, control points and values are arbitrary; only their numbers are given (the writer sees the ends of the knots and the values)"""
    K = []; U = []; p = []
    for d in range(D):
        lo, m, hi = z3.Reals(f'lo{i}_{d} mid{i}_{d} hi{i}_{d}'); a.assume(z3.And(lo < m, m < hi)); q = (i + d) % 3
        K.append(Range(lo, hi)); U.append([lo] * (q + 1) + [m] * (d == 0) + [hi] * (q + 1)); p.append(q)
    s = Fixed(a, U, p, dim, (lambda l: F(1 + l % 5, 2)) if w else None, tag=f'S{i}_'); s.K = K
    return s


def make(a, specs):
    """specs: (D, dim, weighted); arbitrary splines of these kinds"""
    out = []; reg = {}
    for i, (D, dim, w) in enumerate(specs):
        s = any_spline(a, D, dim, w, i); evaluated(a, s, D, f's{i}'); reg.setdefault(D, []).append(a.ex.contracts[(f'spl::Spline<{D}>::Evaluate', 2)]); out.append(s)
    for D, cs in reg.items(): a.ex.contracts[(f'spl::Spline<{D}>::Evaluate', 2)] = Several(cs)
    return out


def write(a, ss, sc):
    w = a.new('io::VTKWriter'); a.ex.unroll = 20000
    a.call(w, 'WriteFile', Vec(items=[any_of(s) for s in ss]), strmodel.mk('scratch.vtk'), Vec(items=[Vec(items=list(x)) for x in sc]))


def grid(sc): return [tuple(reversed(i)) for i in itertools.product(*[range(n) for n in reversed(sc)])]


def check(a, f, ss, sc):
    text = list(f); lines = [[]]
    for p in text:
        if p == '\n': lines.append([])
        else: lines[-1].append(p)
    first = lambda l: ''.join(p if isinstance(p, str) else '?' for p in l)
    a.ensure('header', len(lines) > 3 and first(lines[0]).startswith('# vtk DataFile Version') and first(lines[2]).strip() == 'ASCII')
    w = words([p for l in lines[3:] for p in l + ['\n']]); pos = [0]

    def take(): pos[0] += 1; return w[pos[0] - 1] if pos[0] <= len(w) else None

    def expect(what, x): t = take(); a.ensure(what, isinstance(t, str) and t == x)

    def num(what, x):
        v = number(take()); a.ensure(what, False if v is None else eq(lin(to_real(v)) if is_z3(v) else v, lin(x) if is_z3(x) else x)); return v
    expect('data set', 'DATASET'); expect('data set kind', 'UNSTRUCTURED_GRID')
    np = [prod(n + 1 for n in s) for s in sc]; nc = [prod(s) for s in sc]
    expect('point section', 'POINTS'); num('announced number of points', F(sum(np))); a.ensure('point type', take() in ('double', 'float'))
    for i, s in enumerate(ss):
        for g in grid([n + 1 for n in sc[i]]):
            u = [k.hi if j == n else k.lo if j == 0 else k.lo + (k.hi - k.lo) * j / n for k, j, n in zip(s.K, g, sc[i])]
            for c in range(3): num('point of the grid', value(s.D, f's{i}', c)(*u) if c < s.dim else F(0))
    expect('cell section', 'CELLS'); num('announced number of cells', F(sum(nc))); num('announced size of the cell section', F(sum(n * (2 ** s.D + 1) for n, s in zip(nc, ss))))
    for i, s in enumerate(ss):
        for g in grid(sc[i]):
            num('number of corners', F(2 ** s.D))
            for k in CORNERS[:2 ** s.D]:
                e, st = sum(np[:i]), 1
                for d in range(s.D): e += (g[d] + k[d]) * st; st *= sc[i][d] + 1
                num('corner of the cell', F(e))
    expect('cell type section', 'CELL_TYPES'); num('announced number of cell types', F(sum(nc)))
    for i, s in enumerate(ss):
        for _ in range(nc[i]): num('cell type', F({1: 3, 2: 9, 3: 12}[s.D]))
    a.ensure('nothing else follows', pos[0] == len(w))


def prod(x):
    r = 1
    for v in x: r *= v
    return r


def tasks():
    T = []; BND = 'given numbers of splines and of cells per direction; arbitrary splines'
    cases = {}
    for D, scs in ((1, ([1], [2], [3], [7])), (2, ([1, 1], [2, 1], [1, 2], [2, 3], [3, 2], [4, 2])), (3, ([1, 1, 1], [2, 1, 1], [1, 2, 1], [1, 1, 2], [2, 1, 3], [2, 3, 2], [3, 2, 2]))):
        for sc in scs: cases[f'NURBS<{D}>, cells {sc}'] = ([(D, 3, True)], [sc])
        for dim in (1, 2, 4): cases[f'BSpline<{D}> in dimension {dim}, cells {scs[2]}'] = ([(D, dim, False)], [scs[2]])
    cases['no spline'] = ([], [])
    cases['three splines'] = ([(2, 3, False), (1, 2, True), (3, 3, False)], [[2, 1], [3], [1, 2, 1]])
    cases['three other splines'] = ([(3, 3, True), (2, 2, False), (1, 1, False)], [[1, 1, 2], [1, 3], [2]])
    cases['two splines of the same dimension'] = ([(2, 3, False), (2, 3, True)], [[2, 2], [1, 2]])
    for n, (sp, sc) in cases.items():
        def run(a, sp=sp, sc=sc):
            ss = make(a, sp); write(a, ss, sc); check(a, strmodel.files(a.ex)['scratch.vtk'], ss, sc)
        T.append(Task(f'WriteFile: {n}', run, bounded=BND, limit=120))
    for n, sp, sc in (('too few', [(1, 3, False), (1, 3, False)], [[2]]), ('too many', [(1, 3, False)], [[2], [2]]), ('too short', [(2, 3, False)], [[2]]), ('too long', [(2, 3, True)], [[2, 2, 2]]), ('missing', [(1, 3, False)], []),
                      ('second one too long', [(2, 3, False), (1, 3, False)], [[2, 2], [2, 2]])):
        def rej(a, sp=sp, sc=sc):
            ss = make(a, sp); a.ensure('scattering that does not fit is rejected', a.throws(lambda: write(a, ss, sc)) == 'std::runtime_error')
        T.append(Task(f'scattering {n}', rej, bounded=BND))
    def four(a):
        ss = build(a, [shape(4, 3, False)]); a.ensure('splines of dimension four are rejected', a.throws(lambda: write(a, ss, [[1, 1, 1, 1]])) == 'std::runtime_error')
    T.append(Task('a spline of dimension four', four, bounded=BND))
    return T
