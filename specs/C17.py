"""C17: a conversion writes exactly the selected splines that the output format supports and reports their positions.
The suffix rule is proved for file names of any length; the selection for lists of given lengths with arbitrary positions and scattering values,
whatever the readers return (contracts of the readers and writers: C13 to C16)."""
import z3, itertools
from values import *
from spec import Task
from spline import BS, NU
import strmodel

TU = 'io'
LINK = ('src/baf', 'src/io', 'external/pugixml/pugixml.cpp', 'src/io/executables/converter_log.cc')
ASSUME = ('lists of given lengths (positions, scattering values and splines are arbitrary)', 'the readers return some list of splines and the writers write the list they get (C13 to C16)')
SUFFIX = {'.iges': 'IGES', '.itd': 'IRIT', '.xml': 'XML', '.vtk': 'VTK'}
MAXDIM = {'.iges': 2, '.itd': 3, '.vtk': 3, '.xml': 4}


class Reader:
    def __init__(self, a, suffix, splines, name):
        self.name = f'io::{SUFFIX[suffix]}Reader::ReadFile'; self.splines, self.file = splines, name; a.ex.contracts[(self.name, 1)] = self
    def applies(self, ex, this, args): return True
    def apply(self, ex, this, args, f):
        ex.oblige('the input file is read', z3.BoolVal(text_of(ex, args[0]) == self.file)); return Vec(items=list(self.splines))


class Writer:
    """records what it is asked to write"""
    def __init__(self, a, suffix):
        self.name = f'io::{SUFFIX[suffix]}Writer::WriteFile'; self.suffix = suffix; self.cell = Ref(a.ex.alloc(())); a.ex.contracts[(self.name, 3 if suffix == '.vtk' else 2)] = self
    def applies(self, ex, this, args): return True
    def apply(self, ex, this, args, f):
        args = [ex.load(x) if isinstance(x, Ref) else x for x in args]
        ex.store(self.cell, ex.load(self.cell) + ((args[0], text_of(ex, args[1]), args[2] if len(args) > 2 else None),)); return None


def text_of(ex, v):
    v = ex.load(v) if isinstance(v, Ref) else v
    v = strmodel.as_str(strmodel.to_str(v)); return strmodel.text(v)


def splines(a, dims, rational=0):
    return [Any(f'std::shared_ptr<{(NU if (i + rational) % 2 else BS)(d)}>', Ptr(a.ex.alloc(Obj((NU if (i + rational) % 2 else BS)(d), {})))) for i, d in enumerate(dims)]


def selection(a, pos, ok):
    """[(place in the list of positions or None, position)] of the splines to be written, on this path"""
    if not pos: return [(None, j) for j in ok]
    out = []
    for i, p in enumerate(pos):
        for j in ok:
            if a.ex.choose(eq(p, j)): out.append((i, j)); break
    return out


def same_ints(v, xs): return land(eq(v.n, len(xs)), *([eq(x, y) for x, y in zip(v.items, xs)] if v.items is not None and len(v.items) == len(xs) else [False]))


def converted(a, conv, wr, S, dims, out, pos, sc, name, calls):
    """one conversion: what is written and reported"""
    vtk = out == '.vtk'
    r = a.call(conv, 'ConvertFile', Vec(items=list(pos)), Vec(items=[Vec(items=list(x)) for x in sc]))
    ok = [i for i, d in enumerate(dims) if d <= MAXDIM[out]]; want = selection(a, pos, ok)
    a.ensure('the reported positions are those of the splines written', same_ints(r, [j for _, j in want]))
    log = a.ex.load(wr.cell); a.ensure('one file is written', len(log) == calls)
    if len(log) != calls: return
    got, nm, gs = log[-1]
    a.ensure('it is the output file', nm == name); a.ensure('exactly the selected splines are written', land(eq(got.n, len(want))))
    if conc_int(got.n) == len(want): a.ensure('in the order selected', all(x.type == S[j].type and x.val.root == S[j].val.root for x, (_, j) in zip(got.items, want)))
    if vtk:
        a.ensure('one scattering entry per spline written', eq(gs.n, len(want)))
        if conc_int(gs.n) == len(want):
            for x, (i, j) in zip(gs.items, want): a.ensure('the scattering entry of that spline', same_ints(x, sc[j if i is None else i]))


def tasks():
    T = []; BND = 'lists of given lengths with arbitrary entries'

    def suffix(a):
        n = z3.Int('length'); c = z3.Function('CH', z3.IntSort(), z3.IntSort()); a.assume(z3.And(n >= 0, n < 2 ** 30))
        name = Vec(n=n, get=lambda i: c(to_int(i)))
        conv = a.new('io::IOConverter', strmodel.mk('a.xml'), strmodel.mk('b.xml'))
        r = to_int(a.call(conv, 'GetFileFormat', name))
        ends = lambda s: z3.And(n >= len(s), *[c(n - len(s) + i) == ord(ch) for i, ch in enumerate(s)])
        fmt = {s: to_int(a.call(conv, 'GetFileFormat', strmodel.mk('x' + s))) for s in SUFFIX}
        for s in SUFFIX: a.ensure('a file is of the format of its suffix', z3.And(z3.Implies(ends(s), r == fmt[s]), z3.Implies(z3.Not(ends(s)), r != fmt[s])))
        for s, t in itertools.combinations(SUFFIX, 2): a.ensure('formats are distinct', fmt[s] != fmt[t])
    T.append(Task('GetFileFormat for any file name', suffix))

    DIMS = {'.iges': [[1, 2], [2, 1, 1]], '.itd': [[3, 1, 2], [1, 3]], '.xml': [[4, 2, 1], [1, 4, 3], [3, 3, 4, 2]]}
    for i, o in itertools.product(('.iges', '.itd', '.xml'), SUFFIX):
        for k, dims in enumerate(DIMS[i]):
            for m in (0, 1, 2, 3):
                def run(a, i=i, o=o, dims=dims, m=m, k=k):
                    S = splines(a, dims, k); Reader(a, i, S, 'in.xml.vtk' + i); wr = Writer(a, o); conv = a.new('io::IOConverter', strmodel.mk('in.xml.vtk' + i), strmodel.mk('out.iges.itd' + o))
                    pos = [z3.Int(f'pos{j}') for j in range(m)]
                    for p in pos: a.assume(z3.And(p >= -2 ** 31, p < 2 ** 31))
                    sc = [[z3.Int(f's{j}_{d}') for d in range(2)] for j in range(m or len(dims))] if o == '.vtk' else []
                    converted(a, conv, wr, S, dims, o, pos, sc, 'out.iges.itd' + o, 1)
                T.append(Task(f'ConvertFile {i} to {o}, dimensions {dims}, {m} positions', run, bounded=BND, limit=120, thorough_only=m == 3 and (len(dims) > 3 or sum(d <= MAXDIM[o] for d in dims) > 2)))
    for o in ('.vtk', '.iges'):
        for m1, m2 in ((0, 1), (1, 0), (2, 1), (1, 2)):
            def twice(a, o=o, m1=m1, m2=m2):
                dims = [1, 4, 2]; S = splines(a, dims); Reader(a, '.xml', S, 'in.xml'); wr = Writer(a, o); conv = a.new('io::IOConverter', strmodel.mk('in.xml'), strmodel.mk('out' + o))
                for r, m in enumerate((m1, m2)):
                    pos = [z3.Int(f'pos{r}_{j}') for j in range(m)]; sc = [[z3.Int(f's{r}_{j}_{d}') for d in range(2)] for j in range(m or len(dims))] if o == '.vtk' else []
                    converted(a, conv, wr, S, dims, o, pos, sc, 'out' + o, r + 1)
            T.append(Task(f'two conversions to {o} with {m1} and {m2} positions', twice, bounded=BND, limit=120))

    for name, i, o in (('unknown output format', 'in.xml', 'out.txt'), ('unknown input format', 'in.dat', 'out.xml'), ('a vtk file cannot be read', 'in.vtk', 'out.xml'), ('no suffix', 'in.xml', 'xml'), ('upper case suffix', 'in.XML', 'out.vtk')):
        def bad(a, i=i, o=o):
            for s in ('.iges', '.itd', '.xml'): Reader(a, s, splines(a, [1]), i)
            ws = [Writer(a, s) for s in SUFFIX]; conv = a.new('io::IOConverter', strmodel.mk(i), strmodel.mk(o))
            a.ensure('rejected', a.throws(lambda: a.call(conv, 'ConvertFile', Vec(items=[]), Vec(items=[]))) == 'std::runtime_error')
            for w in ws: a.ensure('nothing is written', a.ex.load(w.cell) == ())
        T.append(Task(name, bad, bounded=BND))
    for n, m in ((1, 0), (2, 1), (0, 0), (1, 2)):
        def miss(a, n=n, m=m):
            S = splines(a, [1, 2, 1]); Reader(a, '.xml', S, 'in.xml'); wr = Writer(a, '.vtk'); conv = a.new('io::IOConverter', strmodel.mk('in.xml'), strmodel.mk('out.vtk'))
            pos = list(range(m)); sc = [[z3.Int(f's{j}')] for j in range(n)]
            if m > n or not m: a.ensure('missing scattering entries are rejected', a.throws(lambda: a.call(conv, 'ConvertFile', Vec(items=pos), Vec(items=[Vec(items=x) for x in sc]))) == 'std::runtime_error')
            else: converted(a, conv, wr, S, [1, 2, 1], '.vtk', pos, sc, 'out.vtk', 1)
        T.append(Task(f'{n} scattering entries for {m} positions', miss, bounded=BND))

    for dims in ([1, 2, 3, 4], [4, 4, 1], [2, 3, 1, 2], []):
        def dim(a, dims=dims):
            S = splines(a, dims); m = z3.Int('max'); r = a.static('io::IOConverter::GetSplinePositionsOfCorrectDimension', Vec(items=S), m)
            want = [i for i, d in enumerate(dims) if a.ex.choose(m >= d)]; a.ensure('positions of the splines of at most that dimension, in file order', same_ints(r, want))
        T.append(Task(f'GetSplinePositionsOfCorrectDimension, dimensions {dims}', dim, bounded=BND))
    log_tasks(T, BND); main_tasks(T)
    return T


def log_tasks(T, BND):
    def put(a, lines): a.ex.st.mem['files'] = {**strmodel.files(a.ex), 'log.txt': tuple('\n'.join(lines))}

    for pos in (['all'], ['0'], ['2', '0'], ['3', '1', '0'], ['1', '1'], ['7']):
        for ok in ([0, 1, 2], [1, 3], []):
            def run(a, pos=pos, ok=ok):
                sc = [[i + 1, 5 * i + 2] for i in range(4 if pos == ['all'] else len(pos))]
                put(a, ['input:', 'in.xml', '', 'output:', 'out.vtk', '', 'options:'] + pos + ['', 'scattering:'] + [' '.join(map(str, x)) for x in sc] + [''])
                a.ex.unroll = 5000; log = a.new('io::ConverterLog', strmodel.mk('log.txt'))
                a.ensure('files', text_of(a.ex, a.call(log, 'GetInput')) == 'in.xml' and text_of(a.ex, a.call(log, 'GetOutput')) == 'out.vtk')
                r = a.call(log, 'GetPositions', Vec(items=list(ok))); want = [(j, j) for j in ok] if pos == ['all'] else [(i, int(p)) for i, p in enumerate(pos) if int(p) in ok]
                a.ensure('the selected splines of supported dimension', same_ints(r, [p for _, p in want]))
                g = a.call(log, 'GetScattering'); a.ensure('one scattering entry per spline written', eq(g.n, len(want)))
                if conc_int(g.n) == len(want):
                    for x, (i, _) in zip(g.items, want): a.ensure('the scattering entry of that spline', same_ints(x, sc[i]))
            T.append(Task(f'log file: options {pos}, possible {ok}', run, bounded='given log files', limit=60))


def main_tasks(T):
    for i, o in itertools.product(('.iges', '.itd', '.xml'), SUFFIX):
        if i == o: continue
        q = f'main_{SUFFIX[i].lower()}_to_{SUFFIX[o].lower()}'
        for pos in (['all'], ['2', '0', '3']):
            def run(a, i=i, o=o, q=q, pos=pos):
                dims = {'.iges': [1, 2, 2, 1], '.itd': [3, 1, 2, 3], '.xml': [4, 1, 3, 2]}[i]; n = len(dims); sc = [[j + 1, 5 * j + 2, 3] for j in range(n)]
                a.ex.st.mem['files'] = {'log.txt': tuple('\n'.join(['input:', 'in' + i, '', 'output:', 'out' + o, '', 'options:'] + pos + ['', 'scattering:'] + [' '.join(map(str, x)) for x in (sc if pos == ['all'] else sc[:len(pos)])] + ['']))}
                S = splines(a, dims); Reader(a, i, S, 'in' + i); wr = Writer(a, o); a.ex.unroll = 5000; a.ex.contracts[('io::ConverterLog::GetTime', 0)] = Clock0()
                a.static(q, 2, a.ptr(Arr([strmodel.mk('prog'), strmodel.mk('log.txt')])))
                ok = [j for j, d in enumerate(dims) if d <= MAXDIM[o]]; want = [(j, j) for j in ok] if pos == ['all'] else [(k, int(p)) for k, p in enumerate(pos) if int(p) in ok]
                log = a.ex.load(wr.cell); a.ensure('one file is written', len(log) == 1)
                if len(log) != 1: return
                got, nm, gs = log[0]; a.ensure('it is the output file', nm == 'out' + o); a.ensure('exactly the selected splines are written', eq(got.n, len(want)))
                if conc_int(got.n) == len(want): a.ensure('in the order selected', all(x.type == S[j].type and x.val.root == S[j].val.root for x, (_, j) in zip(got.items, want)))
                if o == '.vtk':
                    a.ensure('one scattering entry per spline written', eq(gs.n, len(want)))
                    if conc_int(gs.n) == len(want):
                        for x, (k, _) in zip(gs.items, want): a.ensure('the scattering entry of that spline', same_ints(x, sc[k]))
                import re
                t = ''.join(x if isinstance(x, str) else '?' for x in strmodel.files(a.ex)['log.txt']); t = t[t.find('log:') + 4:] if 'log:' in t else ''
                m = re.search(r'positions? ([0-9, ]+) in file', t); a.ensure('the log reports the positions written', [int(x) for x in m.group(1).split(',')] == [p for _, p in want] if m else not want and 'No splines' in t)
            T.append(Task(f'executable {q[5:]} with options {pos}', run, bounded='given log files', limit=60))


class Clock0:
    name = 'ConverterLog::GetTime'
    def applies(self, ex, this, args): return True
    def apply(self, ex, this, args, f): return strmodel.mk('Mon Jan  1 00:00:00 2001\n')
