"""C21: text utilities. Prefix and suffix tests and trimming are verified for strings of every length; splitting for every string
up to a length; number parsing for every choice of digits in the listed layouts; number lists for arbitrary numbers (their text a
run of number characters) in the listed layouts, against the contract of StringToDouble."""
import z3
from fractions import Fraction as F
from values import *
from spec import Task
import strmodel

TU = 'text'
LINK = ()
SO = 'util::StringOperations::'
ASSUME = ('std::isspace in the "C" locale', 'std::pow(10, k) is exact for integral k (real arithmetic)')


def string(name, a):
    """an arbitrary string of arbitrary length"""
    n = z3.Int(name + '_n'); f = z3.Function(name, z3.IntSort(), z3.IntSort()); i = z3.Int(name + '_i')
    a.assume(z3.And(n >= 0, n < 2 ** 40)); a.assume(z3.ForAll([i], z3.And(f(i) >= -128, f(i) <= 127)))
    return Vec(n=n, get=lambda i: f(to_int(i)))


def chars(name, a, k):
    """an arbitrary string of k characters"""
    cs = [z3.Int(f'{name}{i}') for i in range(k)]
    for c in cs: a.assume(z3.And(c >= -128, c <= 127))
    return Str(cs)


def blank(c): return z3.Or(c == 32, z3.And(c >= 9, c <= 13))


class ToDouble:
    """contract of StringToDouble: the text of a number yields the number (shown by the layout tasks below)"""
    name = 'StringToDouble'

    def applies(self, ex, this, args):
        v = args[0]; v = ex.load(v) if isinstance(v, Ref) else v
        return isinstance(v, Str) and any(isinstance(p, TokCh) for p in v.parts)

    def apply(self, ex, this, args, f):
        v = args[0]; v = ex.load(v) if isinstance(v, Ref) else v
        t = strmodel.whole_token(v.parts)
        ok = t is not None and len(v.parts) == v.parts[0].k
        ex.oblige('StringToDouble gets the text of exactly one number', ok)
        if not ok: raise Unsupported('text that is not a number')
        x = strmodel.tok_value(ex, t)
        return to_real(to_int(x)) if t.integral and not isnum(x) else F(x) if isnum(x) else x


def to_double(): return {(SO + 'StringToDouble', 1): ToDouble()}


def number(x, k, integral=False): t = Tok(x, ('stream', 18, False), integral); return tuple(TokCh(t, i, k) for i in range(k))


def items(v): return [strmodel.as_str(x) for x in v.items]


def tasks():
    T = []
    for fn, at in (('StartsWith', lambda s, t: 0), ('EndsWith', lambda s, t: to_int(s.n) - to_int(t.n))):
        def match(a, fn=fn, at=at):
            s, t = string('s', a), string('t', a); r = to_bool(a.static(SO + fn, s, t))
            a.ensure('true exactly when the text stands there', r == z3.And(to_int(t.n) <= to_int(s.n), strmodel.match_at(s, at(s, t), t)))
        T.append(Task(f'{fn} for strings of every length', match, timeout=20, feas=2000))
        for k in range(4):
            for m in range(4):
                def small(a, fn=fn, k=k, m=m):
                    s, t = chars('s', a, k), chars('t', a, m); r = to_bool(a.static(SO + fn, s, t)); off = 0 if fn == 'StartsWith' else k - m
                    a.ensure('true exactly when the text stands there', r == to_bool(land(*[eq(s.parts[off + j], t.parts[j]) for j in range(m)])) if m <= k else lnot(r))
                T.append(Task(f'{fn}, lengths {k} and {m}', small, bounded=f'strings of {k} and {m} arbitrary characters'))
    def trim(a):
        s = string('s', a); lo, hi, i, j = z3.Ints('lo hi i j'); n = to_int(s.n); left = lambda c: z3.Or(blank(c), c == 91); right = lambda c: z3.Or(blank(c), c == 93)
        a.assume(z3.And(0 <= lo, lo <= hi, hi <= n)); a.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < lo), left(s.get(i))))); a.assume(z3.Implies(lo < n, z3.Not(left(s.get(lo)))))
        a.assume(z3.ForAll([i], z3.Implies(z3.And(hi <= i, i < n), right(s.get(i))))); a.assume(z3.Implies(hi > lo, z3.Not(right(s.get(hi - 1)))))
        r = strmodel.as_vec(a.static(SO + 'trim', s)); a.ensure('length', to_int(r.n) == hi - lo)
        a.assume(z3.And(j >= 0, j < hi - lo)); a.ensure('characters', eq(r.get(j), s.get(lo + j)))
    T.append(Task('trim for strings of every length', trim, timeout=20, feas=2000))
    for k in range(5):
        def trims(a, k=k):
            s = chars('s', a, k); r = strmodel.as_str(a.static(SO + 'trim', s)); ch = a.ex.choose; i, j = 0, k
            while i < j and ch(z3.Or(blank(s.parts[i]), s.parts[i] == 91)): i += 1
            while j > i and ch(z3.Or(blank(s.parts[j - 1]), s.parts[j - 1] == 93)): j -= 1
            a.ensure('the text without surrounding blanks and brackets', strmodel.string_eq(a.ex, r, Str(s.parts[i:j])))
        T.append(Task(f'trim, length {k}', trims, bounded=f'strings of {k} arbitrary characters'))
        def split(a, k=k):
            s = chars('s', a, k); d = z3.Int('d'); a.assume(z3.And(d >= -128, d <= 127)); r = a.static(SO + 'split', s, d); out = []; cur = []
            for c in s.parts + (None,):
                if c is None or a.ex.choose(z3.Or(c == d, c == 10)):
                    if cur: out.append(Str(cur))
                    cur = []
                else: cur.append(c)
            got = items(r); a.ensure('number of pieces', len(got) == len(out))
            for x, y in zip(got, out): a.ensure('pieces', strmodel.string_eq(a.ex, x, y))
        T.append(Task(f'split, length {k}', split, bounded=f'strings of {k} arbitrary characters, arbitrary delimiter'))
    lay = [(s, i, f, x) for s in ('', '-', '+') for i in range(0, 5) for f in (None, 0, 1, 4) for x in (None, 'e2', 'E+11', 'e-3') if (i or f) and (s == '' or x in (None, 'e-3')) and (x is None or i < 3)]
    for group in range(0, len(lay), 6):
        def parse(a, group=group):
            for g, (s, i, f, x) in enumerate(lay[group:group + 6]):
                ds = [z3.Int(f'd{g}_{q}') for q in range(i + (f or 0))]
                for d in ds: a.assume(z3.And(d >= 48, d <= 57))
                v = sum([z3.ToReal(d - 48) * z3.RealVal(str(F(10) ** (i - 1 - q))) for q, d in enumerate(ds)], z3.RealVal(0))
                if s == '-': v = -v
                if x: v = v * z3.RealVal(str(F(10) ** int(x[1:])))
                txt = Str(tuple(s) + tuple(ds[:i]) + (('.',) + tuple(ds[i:]) if f is not None else ()) + tuple(x or ''))
                a.ensure('the number written', to_real(a.static(SO + 'StringToDouble', txt)) == v)
        T.append(Task(f'StringToDouble, layouts {group}..{min(group + 5, len(lay) - 1)}', parse, bounded='the listed numbers of digits before and after the point, signs and exponents; every digit', timeout=20))
    for k in range(4):
        for pads in ((0, 0), (1, 0), (0, 1), (2, 1)):
            for w in (1, 4):
                def numbers(a, k=k, pads=pads, w=w):
                    xs = [z3.Real(f'x{i}') for i in range(k)]; parts = ()
                    for i, x in enumerate(xs):
                        sep = z3.Int(f'sep{i}'); a.assume(z3.Or(sep == 44, sep == 59)); parts += (' ',) * pads[0] + number(x, w) + (' ',) * pads[1] + (sep,)
                    r = a.static(SO + 'DelimitedStringToVector', Str(parts)); a.ensure('number of values', eq(r.n, k))
                    for i, x in enumerate(xs): a.ensure('values', eq(r.get(i), x))
                T.append(Task(f'DelimitedStringToVector, {k} numbers of {w} characters, blanks {pads}', numbers, contracts=to_double(), bounded='the listed numbers of values and blanks; arbitrary values and terminators'))
    for t in ('double', 'int'):
        def vector(a, t=t):
            for k in range(4):
                xs = [z3.Real(f'x{i}') if t == 'double' else z3.Int(f'n{i}') for i in range(k)]
                c = [f for f in a.prog.find(SO + 'StringVectorToNumberVector', 1) if f['rt'].startswith(f'std::vector<{t}')]
                if len(c) != 1: raise Unsupported('StringVectorToNumberVector')
                r = a.ex.call_fn(c[0], None, a.ex.match_args(c[0], [Vec(items=[Str(number(x, 2, t == 'int')) for x in xs])])); a.ensure('number of values', eq(r.n, k))
                for i, x in enumerate(xs): a.ensure('values', eq(r.get(i), x))
        T.append(Task(f'StringVectorToNumberVector<{t}>', vector, contracts=to_double(), bounded='up to three strings; arbitrary values'))
    return T
