"""Strings, streams, files and std::any.

A string is a sequence of characters (Str: known length, characters concrete or symbolic; Vec: arbitrary length). The text of
a number that is not known is a run of TokCh parts; reading such a run back yields the number, up to the rounding of the format
(assumed contract of the number formatting and parsing of the C and C++ libraries)."""
import z3
from fractions import Fraction
from values import *
from execu import ThrowEx, PathDead
from program import parse_type, strip_type, INT_TYPES, REAL_TYPES

NPOS = 2 ** 64 - 1
WIDTHS = (5, 9, 1, 13, 7, 18, 3, 11, 2, 20, 16, 4, 8, 19, 6, 24, 10, 15, 21, 12, 23, 14, 17, 22)
SIX = z3.Function('six_decimals', z3.RealSort(), z3.RealSort())
HALF = Fraction(1, 2000000)


def mk(t): return Str(tuple(t))


def tok_cmp(op, a, b):
    if isinstance(a, TokCh) and isinstance(b, TokCh):
        if op in ('==', '!=') and a.tok is b.tok and a.i == b.i: return op == '=='
        raise Unsupported('comparison of two characters of number texts')
    c = conc_int(b) if isinstance(a, TokCh) else conc_int(a)
    if c is None: raise Unsupported('comparison of a character of a number text with a symbolic character')
    if op in ('==', '!=') and c not in NUMBER_CHARS: return op == '!='
    raise Unsupported('comparison of a character of a number text')


def peq(p, q):
    """equality of two string parts"""
    if isinstance(p, str) and isinstance(q, str): return p == q
    if isinstance(p, TokCh) or isinstance(q, TokCh):
        if isinstance(p, TokCh) and isinstance(q, TokCh): return tok_cmp('==', p, q)
        return tok_cmp('==', code(p), code(q))
    return eq(code(p), code(q))


def code(p):
    if isinstance(p, str): return ord(p) if ord(p) < 128 else ord(p) - 256
    return p


def text(s):
    if not all(isinstance(p, str) for p in s.parts): raise Unsupported('operation on a text that is not known')
    return ''.join(s.parts)


def to_str(v):
    if isinstance(v, (Str, Vec)): return v
    if isinstance(v, str): return mk(v)
    if isinstance(v, int): return mk(chr(v % 256))
    if isinstance(v, TokCh) or is_z3(v): return Str((v,))
    if isinstance(v, Opaque) and isinstance(v.what, Str): return v.what
    raise Unsupported('string from ' + type(v).__name__)


def as_vec(s): return Vec(items=[code(p) for p in s.parts]) if isinstance(s, Str) else s


def as_str(v):
    """Str form of a string value of known length"""
    if isinstance(v, Vec) and v.items is not None: return Str([char_part(x) for x in v.items])
    return v


def concat(a, b):
    a, b = as_str(a), as_str(b)
    if isinstance(a, Str) and isinstance(b, Str): return Str(a.parts + b.parts)
    a, b = as_vec(a), as_vec(b); n = a.n
    return Vec(n=simp(to_int(n) + to_int(b.n)), get=lambda i: ite(simp(to_int(i) < to_int(n)), a.get(i), b.get(simp(to_int(i) - to_int(n)))))


def num_text(ex, v, how, t=''):
    integral = strip_type(t) in INT_TYPES or strip_type(t) == 'bool'
    if isinstance(v, bool): return mk('1' if v else '0')
    c = conc_int(v)
    if integral and c is not None: return mk(str(c))
    if not integral and isnum(v):
        if how == 'to_string': return mk('%f' % float(v))
        return mk(('%%.%df' if how[2] else '%%.%dg') % how[1] % float(v))
    k = getattr(ex, 'token_widths', None)
    if k is None: w = 1
    else:
        ex.st.mem['tokens'] = ex.st.mem.get('tokens', 0) + 1; w = k[ex.st.mem['tokens'] % len(k)]
    tok = Tok(v, how, integral)
    ex.assumed_std.add('formatting and parsing of numbers')
    return Str([TokCh(tok, i, w) for i in range(w)])


def tok_value(ex, tok):
    if tok.integral: return tok.val
    if tok.how == 'to_string' or tok.how[2] and tok.how[1] == 6:
        x = to_real(tok.val); r = SIX(x)
        ex.st.pc.append(z3.And(r - x <= z3.RealVal(str(HALF)), x - r <= z3.RealVal(str(HALF))))
        return r
    if tok.how[1] >= 17: return tok.val
    raise Unsupported('reading back a number printed with few digits')


def whole_token(parts, at=0):
    """the number whose complete text stands at the given position, or None"""
    p = parts[at] if at < len(parts) else None
    if not isinstance(p, TokCh) or p.i != 0 or at + p.k > len(parts): return None
    for j in range(p.k):
        q = parts[at + j]
        if not isinstance(q, TokCh) or q.tok is not p.tok or q.i != j: return None
    return p.tok


def starts_number(p):
    return isinstance(p, TokCh) or isinstance(p, str) and ord(p) in NUMBER_CHARS


def parse_number(ex, s, kind):
    """std::stoi / std::stod and friends: value and number of characters used"""
    s = as_str(s)
    if not isinstance(s, Str): raise Unsupported('number in a text of unknown length')
    parts = s.parts; i = 0
    while i < len(parts) and isinstance(parts[i], str) and parts[i] in ' \t\n\r\f\v': i += 1
    if i < len(parts) and isinstance(parts[i], TokCh):
        t = whole_token(parts, i)
        if t is None: ex.oblige('the text of a number is read completely', False); raise Unsupported('part of the text of a number')
        nxt = i + parts[i].k
        if nxt < len(parts) and starts_number(parts[nxt]): ex.oblige('the texts of two numbers are separated', False); raise Unsupported('numbers written without separation')
        v = tok_value(ex, t)
        if kind == 'int':
            if not t.integral: raise Unsupported('integer from the text of a real number')
            return v, nxt
        return (to_real(to_int(v)) if t.integral and not isnum(v) else v), nxt
    if kind == 'int':
        neg = False
        if i < len(parts) and isinstance(parts[i], str) and parts[i] in '+-': neg = parts[i] == '-'; i += 1
        digits = []
        while i < len(parts):
            c = code(parts[i])
            if isinstance(c, TokCh): break
            if isinstance(c, int):
                if not 48 <= c <= 57: break
            elif not ex.choose(z3.And(c >= 48, c <= 57)): break
            digits.append(c); i += 1
        if not digits: raise ThrowEx('std::invalid_argument')
        v = 0
        for c in digits: v = v * 10 + (c - 48)
        v = simp(v) if is_z3(v) else v
        if isinstance(v, int) and v >= 2 ** 31 + neg: raise ThrowEx('std::out_of_range')
        return (-v if neg else v), i
    import re
    m = re.match(r'[+-]?(\d+\.?\d*|\.\d+)([eE][+-]?\d+)?', ''.join(p if isinstance(p, str) else '\0' for p in parts[i:]))
    if not m: raise ThrowEx('std::invalid_argument')
    if i + m.end() < len(parts) and not isinstance(parts[i + m.end()], str): raise Unsupported('number followed by symbolic text')
    return Fraction(m.group(0)), i + m.end()


# ------------------------------------------------------------------------------------------------ strings of arbitrary length
def match_at(a, p, b):
    """the string b stands in a at position p (both Vec)"""
    if b.items is not None:
        return z3.And(to_int(p) + len(b.items) <= to_int(a.n), *[to_bool(eq(a.get(simp(to_int(p) + j)), x)) for j, x in enumerate(b.items)])
    j = fresh('mj')
    return z3.And(to_int(p) + to_int(b.n) <= to_int(a.n), z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < to_int(b.n)), to_bool(eq(a.get(simp(to_int(p) + j)), b.get(j))))))


def vec_method(ex, ref, this, v, argexprs):
    n = ref['n']; args = [ex.val(x) for x in argexprs]
    if n in ('size', 'length'): return v.n
    if n in ('c_str', 'data'): return v
    if n == 'substr':
        pos = args[0] if args else 0; cnt = args[1] if len(args) > 1 else NPOS
        if not ex.choose(ex.cmp('<=', pos, v.n)): raise ThrowEx('std::out_of_range')
        left = ex.int_op('-', v.n, pos, 'unsigned long'); m = ite(ex.cmp('<', cnt, left), cnt, left)
        import stdmodel
        return stdmodel.slice_vec(v, pos, simp(to_int(pos) + to_int(m)), ex)
    if n == 'compare':
        if len(args) == 1: pos, cnt, o = 0, v.n, args[0]
        elif len(args) == 3: pos, cnt, o = args
        else: raise Unsupported('string::compare')
        if not ex.choose(ex.cmp('<=', pos, v.n)): raise ThrowEx('std::out_of_range')
        o = as_vec(to_str(o)); left = ex.int_op('-', v.n, pos, 'unsigned long'); m = ite(ex.cmp('<', cnt, left), cnt, left)
        r = fresh('compared'); same = z3.And(to_int(m) == to_int(o.n), match_at(v, pos, o))
        ex.st.pc.append((r == 0) == same)
        return r
    if n == 'find':
        o = as_vec(to_str(args[0])); pos = args[1] if len(args) > 1 else 0
        r = fresh('found'); k = fresh('k'); N = z3.IntVal(NPOS)
        ex.st.pc.append(z3.Or(r == N, z3.And(r >= to_int(pos), match_at(v, r, o))))
        ex.st.pc.append(z3.ForAll([k], z3.Implies(z3.And(k >= to_int(pos), k < r, to_int(k) + to_int(o.n) <= to_int(v.n)), z3.Not(match_at(v, k, o)))))
        ex.st.pc.append(z3.Implies(match_at(v, pos, o), r == to_int(pos)))
        ex.st.pc.append(to_int(v.n) < N)
        return r
    if n == 'rfind' and len(args) == 2 and conc_int(args[1]) == 0:
        o = as_vec(to_str(args[0])); r = fresh('found')
        ex.st.pc.append(z3.If(match_at(v, 0, o), r == 0, r == NPOS)); return r
    if n == 'erase' and (not args or is_scalar(args[0])):
        import stdmodel
        pos = args[0] if args else 0; cnt = args[1] if len(args) > 1 else NPOS
        if not ex.choose(ex.cmp('<=', pos, v.n)): raise ThrowEx('std::out_of_range')
        left = ex.int_op('-', v.n, pos, 'unsigned long'); m = ite(ex.cmp('<', cnt, left), cnt, left)
        ex.store(this, stdmodel.erase_range(v, pos, simp(to_int(pos) + to_int(m)))); return this
    if n in ('operator+=', 'append') and len(args) == 1: ex.store(this, concat(ex.load(this), to_str(args[0]))); return this
    return NotImplemented


# ------------------------------------------------------------------------------------------------ strings of known length
def need(v):
    c = conc_int(simp(v)) if not isinstance(v, int) else v
    if c is None: raise Unsupported('symbolic position in a string')
    return c


def find_set(ex, parts, chars, start, neg=False, back=False):
    rng = range(start, len(parts)) if not back else range(min(start, len(parts) - 1), -1, -1)
    for i in rng:
        c = lor(*[peq(parts[i], q) for q in chars.parts])
        if neg: c = lnot(c)
        if ex.choose(c): return i
    return NPOS


def method(ex, ref, this, v, argexprs, e):
    n = ref['n']
    if isinstance(v, Stream): return stream_method(ex, ref, this, v, argexprs, e)
    if isinstance(v, Any):
        if n == 'has_value': return v.type is not None
        if n == 'operator=':
            a = ex.val(argexprs[0]); ex.store(this, a if isinstance(a, Any) else Any(strip_type(argexprs[0]['t']), a)); return this
        if n == 'reset': ex.store(this, Any(None, None)); return None
        raise Unsupported('std::any::' + n)
    if isinstance(v, Opaque):
        if n == 'what': return mk('')
        raise Unsupported(f'method {n} of an opaque object')
    if n in ('size', 'length'): return len(v.parts)
    if n == 'empty': return len(v.parts) == 0
    if n in ('c_str', 'data'): return v
    if n in ('begin', 'cbegin'): return Iter(this.root, this.path, 0)
    if n in ('end', 'cend'): return Iter(this.root, this.path, len(v.parts))
    if n in ('rbegin', 'crbegin'): return RIter(this.root, this.path, len(v.parts))
    if n in ('rend', 'crend'): return RIter(this.root, this.path, 0)
    if n in ('reserve', 'shrink_to_fit'): return None
    args = [ex.val(x) for x in argexprs]
    if n in ('operator[]', 'at', 'front', 'back'):
        i = need(args[0]) if args else 0 if n == 'front' else len(v.parts) - 1
        if n == 'at' and not 0 <= i < len(v.parts): raise ThrowEx('std::out_of_range')
        ok = 0 <= i < len(v.parts) or n == 'operator[]' and i == len(v.parts)
        ex.oblige('string index in bounds', ok)
        if not ok: raise PathDead()
        return Ref(this.root, this.path + (i,))
    if n in ('operator=', 'assign') and len(args) == 1: ex.store(this, to_str(args[0])); return this
    if n in ('append', 'operator+=', 'push_back'):
        if len(args) == 1: s = to_str(args[0])
        elif len(args) == 2 and isinstance(args[0], Iter): s = sub_range(ex, args[0], args[1])
        elif len(args) == 2 and isinstance(args[0], int): s = Str(to_str(args[1]).parts * args[0])
        elif len(args) == 3 and isinstance(args[0], Str): s = Str(args[0].parts[need(args[1]):][:need(args[2])])
        else: raise Unsupported('string::append')
        ex.store(this, concat(ex.load(this), s)); return this
    if n == 'pop_back':
        ex.oblige('pop_back of a non-empty string', len(v.parts) > 0)
        if not v.parts: raise PathDead()
        ex.store(this, Str(v.parts[:-1])); return None
    if n == 'clear': ex.store(this, Str()); return None
    if n == 'swap':
        o = ex.lv(argexprs[0]); w = ex.load(o); ex.store(o, v); ex.store(this, w); return None
    if n == 'resize':
        m = need(args[0]); fill = to_str(args[1]).parts if len(args) > 1 else ('\0',)
        ex.store(this, Str((v.parts + fill * max(0, m - len(v.parts)))[:m])); return None
    if n == 'substr':
        pos = need(args[0]) if args else 0; cnt = need(args[1]) if len(args) > 1 else NPOS
        if pos > len(v.parts) or pos < 0: raise ThrowEx('std::out_of_range')
        return Str(v.parts[pos:pos + min(cnt, len(v.parts))])
    if n == 'compare':
        if len(args) == 1: w, o = v, to_str(args[0])
        elif len(args) == 3:
            pos, cnt = need(args[0]), need(args[1]); o = to_str(args[2])
            if pos > len(v.parts): raise ThrowEx('std::out_of_range')
            w = Str(v.parts[pos:pos + min(cnt, len(v.parts))])
        else: raise Unsupported('string::compare')
        o = as_str(o)
        if len(w.parts) == len(o.parts) and ex.choose(land(*[peq(p, q) for p, q in zip(w.parts, o.parts)])): return 0
        r = fresh('compared'); ex.st.pc.append(r != 0); return r
    if n in ('find', 'rfind'):
        o = as_str(to_str(args[0]))
        m = len(o.parts)
        if n == 'find': rng = range(need(args[1]) if len(args) > 1 else 0, len(v.parts) - m + 1)
        else: rng = range(min(need(args[1]) if len(args) > 1 else NPOS, len(v.parts) - m), -1, -1)
        for i in rng:
            if ex.choose(land(*[peq(v.parts[i + j], o.parts[j]) for j in range(m)])): return i
        return NPOS
    if n in ('find_first_of', 'find_first_not_of'): return find_set(ex, v.parts, as_str(to_str(args[0])), need(args[1]) if len(args) > 1 else 0, neg='not' in n)
    if n in ('find_last_of', 'find_last_not_of'): return find_set(ex, v.parts, as_str(to_str(args[0])), need(args[1]) if len(args) > 1 else NPOS, neg='not' in n, back=True)
    if n == 'erase':
        if not args: ex.store(this, Str()); return this
        if isinstance(args[0], Iter):
            b = need(args[0].idx); f = need(args[1].idx) if len(args) > 1 else b + 1
            ok = 0 <= b <= f <= len(v.parts); ex.oblige('erase position', ok)
            if not ok: raise PathDead()
            ex.store(this, Str(v.parts[:b] + v.parts[f:])); return Iter(this.root, this.path, b)
        pos = need(args[0]); cnt = need(args[1]) if len(args) > 1 else NPOS
        if pos > len(v.parts): raise ThrowEx('std::out_of_range')
        ex.store(this, Str(v.parts[:pos] + v.parts[pos + min(cnt, len(v.parts)):])); return this
    if n == 'insert' and len(args) == 2 and isinstance(args[0], int):
        ex.store(this, Str(v.parts[:args[0]] + as_str(to_str(args[1])).parts + v.parts[args[0]:])); return this
    if n == 'insert' and len(args) == 3 and isinstance(args[0], int) and isinstance(args[1], int):
        ex.store(this, Str(v.parts[:args[0]] + to_str(args[2]).parts * args[1] + v.parts[args[0]:])); return this
    raise Unsupported('string method ' + n)


def sub_range(ex, a, b):
    v = ex.load(Ref(a.root, a.path)); i, j = need(a.idx), need(b.idx)
    ok = isinstance(v, Str) and 0 <= i <= j <= len(v.parts); ex.oblige('iterator range valid', ok)
    if not ok: raise PathDead()
    return Str(v.parts[i:j])


def construct_string(ex, args):
    vs = [ex.val(x) for x in args]
    if len(vs) == 1 and isinstance(vs[0], (Str, Vec)): return vs[0]
    if len(vs) == 1 and isinstance(vs[0], Arr): return Str([char_part(x) for x in vs[0].items])
    if len(vs) >= 2:
        if isinstance(vs[0], (Str,)) and not isinstance(vs[1], Opaque):
            if len(vs) == 2: return Str(vs[0].parts[:need(vs[1])]) if args[0]['t'].rstrip().endswith('*') else Str(vs[0].parts[need(vs[1]):])
            return Str(vs[0].parts[need(vs[1]):][:need(vs[2])])
        if isinstance(vs[0], Str): return vs[0]
        if isinstance(vs[0], Iter): return sub_range(ex, vs[0], vs[1])
        if is_scalar(vs[0]):
            m = need(vs[0]); ok = 0 <= m < 2 ** 30; ex.oblige('length of a new string', ok)
            if not ok: raise PathDead()
            return Str(to_str(vs[1]).parts * m)
    raise Unsupported('string constructor')


def string_eq(ex, a, b):
    a, b = as_str(to_str(a)), as_str(to_str(b))
    if isinstance(a, Str) and isinstance(b, Str):
        return len(a.parts) == len(b.parts) and land(*[peq(p, q) for p, q in zip(a.parts, b.parts)])
    a, b = as_vec(a), as_vec(b)
    return land(eq(a.n, b.n), match_at(a, 0, b))


# ------------------------------------------------------------------------------------------------ streams and files
def files(ex): return ex.st.mem.get('files', {})


def write_file(ex, name, parts):
    d = dict(files(ex)); d[name] = tuple(parts); ex.st.mem['files'] = d


def put(ex, this, s):
    v = ex.load(this); s = as_str(s)
    if not isinstance(s, Str): raise Unsupported('writing a text of unknown length')
    w = v.but(parts=v.parts + s.parts)
    if v.kind == 'file':
        if v.name is None: raise Unsupported('writing to a file that is not open')
        write_file(ex, v.name, w.parts)
    ex.store(this, w)
    return this


def open_file(ex, v, name, cls):
    name = text(as_str(to_str(name)))
    ex.assumed_std.add('files can be opened, written and read back')
    if 'ofstream' in cls: write_file(ex, name, ()); return Stream('file', name)
    if name not in files(ex): return Stream('file', name, fail=True)
    return Stream('file', name, files(ex)[name])


def construct_stream(ex, n, args):
    vs = [ex.val(x) for x in args]
    if 'fstream' in n:
        if not vs: return Stream('file')
        return open_file(ex, None, vs[0], n)
    if vs and isinstance(vs[0], (Str, Vec)): return Stream('string', parts=as_str(vs[0]).parts)
    return Stream('string')


def manip(ex, this, a):
    v = ex.load(this)
    name = a.name if isinstance(a, Functor) else a.name['n'] if isinstance(a, Fn) and a.name else None
    if name == 'endl': return put(ex, this, mk('\n'))
    if name in ('flush', 'left', 'right', 'skipws', 'noskipws'): return this
    if name == 'setprecision': ex.store(this, v.but(prec=need(a.args[0]))); return this
    if name == 'fixed': ex.store(this, v.but(fixed=True)); return this
    if name == 'defaultfloat': ex.store(this, v.but(fixed=False)); return this
    raise Unsupported('stream manipulator ' + str(name))


def insert(ex, this, a, t):
    v = ex.load(this)
    if isinstance(a, (Str,)) : return put(ex, this, a)
    if strip_type(t) == 'char': return put(ex, this, to_str(a))
    if is_scalar(a): return put(ex, this, num_text(ex, a, ('stream', v.prec, v.fixed), t))
    if isinstance(a, (Functor, Fn)): return manip(ex, this, a)
    raise Unsupported('stream insertion of ' + type(a).__name__)


def getline(ex, this, target, delim='\n'):
    v = ex.load(this)
    if v.eof or v.fail: ex.store(this, v.but(fail=True)); return this
    out = []; i = v.pos; found = False
    while i < len(v.parts):
        p = v.parts[i]; i += 1
        if ex.choose(peq(p, delim)): found = True; break
        out.append(p)
    ex.store(target, Str(out))
    ex.store(this, v.but(pos=i, eof=not found, fail=not found and not out))
    return this


def extract(ex, this, target, t):
    v = ex.load(this)
    if v.eof or v.fail: ex.store(this, v.but(fail=True)); return this
    i = v.pos
    while i < len(v.parts) and ex.choose(lor(*[peq(v.parts[i], c) for c in ' \t\n\r\f\v'])): i += 1
    if i == len(v.parts): ex.store(this, v.but(pos=i, eof=True, fail=True)); return this
    t = strip_type(t)
    if 'basic_string' in t:
        out = []
        while i < len(v.parts) and not ex.choose(lor(*[peq(v.parts[i], c) for c in ' \t\n\r\f\v'])): out.append(v.parts[i]); i += 1
        ex.store(target, Str(out)); ex.store(this, v.but(pos=i, eof=i == len(v.parts))); return this
    if t == 'char': ex.store(target, code(v.parts[i])); ex.store(this, v.but(pos=i + 1)); return this
    if t in INT_TYPES or t in REAL_TYPES:
        try: x, used = parse_number(ex, Str(v.parts[i:]), 'int' if t in INT_TYPES else 'real')
        except ThrowEx: ex.store(target, 0 if t in INT_TYPES else Fraction(0)); ex.store(this, v.but(fail=True)); return this
        ex.store(target, x); ex.store(this, v.but(pos=i + used, eof=i + used == len(v.parts))); return this
    raise Unsupported('stream extraction of ' + t)


def stream_method(ex, ref, this, v, argexprs, e):
    n = ref['n']
    if n == 'str':
        if not argexprs: return Str(v.parts)
        ex.store(this, v.but(parts=as_str(to_str(ex.val(argexprs[0]))).parts, pos=0)); return None
    if n == 'operator<<': return insert(ex, this, ex.val(argexprs[0]), ref['pt'][0])
    if n == 'operator>>': return extract(ex, this, ex.lv(argexprs[0]), ref['pt'][0])
    if n == 'precision':
        if argexprs: ex.store(this, v.but(prec=need(ex.val(argexprs[0]))))
        return v.prec
    if n == 'open':
        ex.store(this, open_file(ex, v, ex.val(argexprs[0]), ref.get('cls', ''))); return None
    if n == 'is_open': return v.name is not None and not v.fail
    if n == 'close': ex.store(this, v.but(name=None)); return None
    if n == 'good': return not v.fail and not v.eof
    if n in ('operator bool',): return not v.fail
    if n in ('operator!', 'fail'): return v.fail
    if n == 'bad': return False
    if n == 'eof': return v.eof
    if n == 'clear' and not argexprs: ex.store(this, v.but(eof=False, fail=False)); return None
    if n == 'flush': return this
    if n == 'put': return put(ex, this, to_str(ex.val(argexprs[0])))
    if n == 'peek':
        if v.pos >= len(v.parts): ex.store(this, v.but(eof=True)); return -1
        return code(v.parts[v.pos])
    raise Unsupported('stream method ' + n)


# ------------------------------------------------------------------------------------------------ functions
def any_cast(ex, ref, ev, vals, e):
    a = vals[0]
    if isinstance(a, Ptr):      # any_cast<T>(&any)
        if a.root is None: return NULL
        x = ex.load(Ref(a.root, a.path))
        want = strip_type(e['t']); want = strip_type(want[:-1]) if want.endswith('*') else want
        return Ptr(a.root, a.path + ('any',)) if x.type == want else NULL
    if not isinstance(a, Any): raise Unsupported('any_cast of ' + type(a).__name__)
    if a.type != strip_type(e['t']): raise ThrowEx('std::bad_any_cast')
    return a.val


def free(ex, ref, args, e):
    n = ref['n']
    ev = [ex.lv(x) if x['vk'] != 'r' else ex.rv(x) for x in e['c'] if x['k'] != 'CXXDefaultArgExpr'] if args is None else args
    vals = [ex.load(x) if isinstance(x, Ref) else x for x in ev]
    if n == 'to_string': return num_text(ex, vals[0], 'to_string', ref['pt'][0])
    if n == 'operator+':
        r = to_str(vals[0])
        for a in vals[1:]: r = concat(r, to_str(a))
        return r
    if n == 'operator<<' and isinstance(vals[0], Stream): return insert(ex, ev[0], vals[1], ref['pt'][1])
    if n == 'operator>>' and isinstance(vals[0], Stream): return extract(ex, ev[0], ev[1], ref['pt'][1])
    if n == 'getline': return getline(ex, ev[0], ev[1], char_part(vals[2]) if len(vals) > 2 else '\n')
    if n in ('stoi', 'stol', 'stoul', 'atoi', 'stoll'): return parse_number(ex, to_str(vals[0]), 'int')[0]
    if n in ('stod', 'stof', 'atof', 'strtod'): return parse_number(ex, to_str(vals[0]), 'real')[0]
    if n == 'setprecision': return Functor('setprecision', (vals[0],))
    if n == 'any_cast': return any_cast(ex, ref, ev, vals, e)
    if n == 'make_any':
        t = strip_type(ref['ta'][0])
        argt = [x['t'] + (' &' if x['vk'] == 'l' else '') for x in e['c']] if e is not None else None
        v = vals[0] if len(vals) == 1 and isinstance(vals[0], (Ptr, GPtr)) else ex.construct_args(t, ev, argt)
        return Any(t, v)
    raise Unsupported('text function ' + n)
