"""C15: an IGES file written and read back yields the same curves and surfaces, and the file is laid out in lines of 80 columns.
The texts of unknown numbers have given lengths of 1 to 24 characters, so numbers are cut by line ends in all positions."""
from iofile import *
from C09 import Some

TU = 'io'
LINK = ('src/baf', 'src/io', 'external/pugixml/pugixml.cpp')
ASSUME = ('files can be opened, written and read back', 'formatting and parsing of numbers: a number printed with 18 digits parses back to it', 'shape-bounded proofs: degrees, knots, weights and lengths of number texts are the listed numbers, control points are arbitrary')


class Clock:
    name = 'SystemOperations::GetTime'
    def applies(self, ex, this, args): return True
    def apply(self, ex, this, args, f):
        d = dict(tm_year=(0, 200), tm_mon=(0, 11), tm_mday=(1, 31), tm_hour=(0, 23), tm_min=(0, 59), tm_sec=(0, 60)); o = {}
        for k, (lo, hi) in d.items(): o[k] = fresh(k); ex.assume(z3.And(o[k] >= lo, o[k] <= hi))
        return Obj('tm', o)


def integer(ps):
    t = ''.join(p if isinstance(p, str) else '?' for p in ps); return int(t) if t.strip().isdigit() else None


def layout(a, ss, name):
    f = strmodel.files(a.ex)[name]; lines = [[]]
    for p in f:
        if p == '\n': lines.append([])
        else: lines[-1].append(p)
    a.ensure('the file ends with a line end', not lines[-1]); lines = lines[:-1]
    a.ensure('every line has 80 characters', all(len(l) == 80 for l in lines))
    if any(len(l) != 80 for l in lines): return
    cnt = dict.fromkeys('SGDPT', 0); at = 0
    for l in lines:
        k = 'SGDPT'.find(l[72]) if isinstance(l[72], str) else -1; a.ensure('section letters in order', k >= at)
        if k < 0: return
        at = k; cnt[l[72]] += 1; a.ensure('consecutive sequence numbers', integer(l[73:]) == cnt[l[72]])
    a.ensure('all sections are there', cnt['S'] >= 1 and cnt['G'] >= 1 and cnt['T'] == 1 and cnt['D'] == 2 * len(ss))
    t = lines[-1]
    for j, s in enumerate('SGDP'): a.ensure('the terminate section states the section lengths', t[8 * j] == s and integer(t[8 * j + 1:8 * j + 8]) == cnt[s])
    D = [l for l in lines if l[72] == 'D']; Pl = [l for l in lines if l[72] == 'P']; start = 1
    for i, s in enumerate(ss):
        if len(D) < 2 * i + 2: return
        typ = 126 if s.D == 1 else 128; n = integer(D[2 * i + 1][24:32])
        a.ensure('directory entry', integer(D[2 * i][:8]) == typ and integer(D[2 * i + 1][:8]) == typ and integer(D[2 * i][8:16]) == start and n is not None and 0 < n <= len(Pl) - start + 1)
        if n is None: return
        a.ensure('back pointers', all(integer(l[64:72]) == 2 * i + 1 for l in Pl[start - 1:start - 1 + n])); start += n
    a.ensure('every parameter line belongs to an entry', start - 1 == len(Pl))


def tasks():
    T = []; BND = 'given numbers of splines, degrees, knots, weights and text lengths; arbitrary control points'
    lists = {'no splines': []}
    for D in (1, 2):
        for w in (False, True):
            for dim in (1, 2, 3): lists[f'{"NURBS" if w else "BSpline"}<{D}> in dimension {dim}'] = [shape(D, dim, w)]
            lists[f'{"NURBS" if w else "BSpline"}<{D}>, other knots'] = [shape(D, 3, w, True)]
    lists['surface with more points'] = [([[0, 0, 0, 1, 2, 2, 2], [0, 0, 1, 2, 3, 3]], [2, 1], 3, WTS)]
    lists['mixed list'] = [shape(2, 3, True), shape(1, 2, False), shape(1, 3, True)]
    lists['mixed list in another order'] = [shape(1, 3, False, True), shape(2, 2, False), shape(1, 1, True), shape(2, 2, True, True)]
    for n, sh in lists.items():
        for v, wd in enumerate((strmodel.WIDTHS, (24,), (1,), (21, 2, 23))):
            def rt(a, sh=sh, wd=wd):
                a.ex.contracts[('util::SystemOperations::GetTime', 0)] = Clock()
                for D in (1, 2): Some(a.ex, f'spl::Spline<{D}>::GetExpansion', 0, lambda x: z3.BoolVal(True))
                ss = build(a, sh); r = write_read(a, 'IGES', ss, 'scratch.iges', wd); compare(a, r, ss, 0, pad=3); layout(a, ss, 'scratch.iges')
            if v and 'in dimension' in n: continue
            T.append(Task(f'write and read: {n}, text lengths {v}', rt, bounded=BND, limit=120))
    def three(a):
        ss = build(a, [shape(3, 2, False)]); a.ex.contracts[('util::SystemOperations::GetTime', 0)] = Clock()
        a.ensure('splines of dimension three are rejected', a.throws(lambda: write_read(a, 'IGES', ss, 'scratch.iges')) == 'std::runtime_error')
    T.append(Task('a spline of dimension three', three, bounded=BND))
    return T
