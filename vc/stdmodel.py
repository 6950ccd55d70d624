"""Contracts of the parts of the C++ standard library the code under verification uses (the trusted base of the proofs).

Each entry states what the library call does to the executor's values and what the caller has to guarantee (an obligation).
Whatever is not listed raises Unsupported."""
from fractions import Fraction
import z3
from values import *
import execu
from execu import ThrowEx, PathDead
from program import parse_type, strip_type, is_ref, INT_TYPES, REAL_TYPES

SQRT = z3.Function('sqrt', z3.RealSort(), z3.RealSort())
EPS = Fraction(1, 2 ** 52)
EXC = ('std::runtime_error', 'std::range_error', 'std::invalid_argument', 'std::out_of_range', 'std::logic_error', 'std::exception', 'std::domain_error', 'std::length_error')
FUNCTORS = ('std::plus', 'std::minus', 'std::multiplies', 'std::divides', 'std::less', 'std::greater', 'std::equal_to', 'std::less_equal', 'std::greater_equal', 'std::logical_and', 'std::logical_or', 'std::negate', 'std::not_equal_to')


ENGINES = ('std::linear_congruential_engine', 'std::mersenne_twister_engine', 'std::random_device', 'std::subtract_with_carry_engine')


def ld(ex, v): return ex.load(v) if isinstance(v, Ref) else v


def real_args(e): return [x for x in e['c'] if not (x['k'] == 'CXXDefaultArgExpr' and 'alloc' in x['t'])]


def vec_of(ex, v):
    if isinstance(v, Arr): return Vec(items=v.items)
    return v


def slice_vec(v, b, e, ex=None):
    cb, ce = conc_int(simp(b)), conc_int(simp(e))
    if v.items is not None and cb is not None and ce is not None: return Vec(items=v.items[cb:ce])
    if v.items is not None and cb is None and ce is None:
        d = conc_int(simp(to_int(e) - to_int(b)))
        if d is not None: return Vec(items=[v.get(simp(to_int(b) + j)) for j in range(d)])
    n = simp(to_int(e) - to_int(b))
    if isinstance(n, int): return Vec(items=[v.get(simp(to_int(b) + j)) for j in range(n)])
    return Vec(n=n, get=lambda i: v.get(simp(to_int(b) + to_int(i))))


def range_vec(ex, a, b):
    """the sequence [a, b) of two iterators of the same container"""
    if (a.root, a.path) != (b.root, b.path): raise Unsupported('iterators of different containers')
    v = vec_of(ex, ex.load(Ref(a.root, a.path)))
    ex.oblige('iterator range valid', land(ex.cmp('>=', a.idx, 0), ex.cmp('<=', a.idx, b.idx), ex.cmp('<=', b.idx, v.n)))
    return slice_vec(v, a.idx, b.idx, ex)


def filled(ex, n, item):
    cn = conc_int(simp(n)) if not isinstance(n, int) else n
    if cn is not None:
        if cn < 0 or cn > 5_000_000: ex.oblige('vector length', False); raise PathDead()
        return Vec(items=[item] * cn)
    ex.oblige('vector length', to_int(n) >= 0)
    return Vec(n=n, get=lambda i: item)


def construct(ex, e, t):
    n, a = parse_type(t); ref = e['fn']
    args = real_args(e)
    if n == 'std::vector':
        if not args: return Vec(items=())
        if ref.get('move') and ref['pt'][0].rstrip().endswith('&&'):
            s = ex.lv(args[0]); v = ld(ex, s)
            if isinstance(s, Ref) and args[0]['vk'] == 'x': ex.store(s, Vec(items=()))
            return v
        vs = [ex.val(x) for x in args]
        if len(vs) == 1:
            if isinstance(vs[0], Vec): return vs[0]
            if isinstance(vs[0], Arr): return Vec(items=vs[0].items)      # initializer_list
            if is_scalar(vs[0]): return filled(ex, vs[0], ex.default_value(a[0], True))
        if len(vs) == 2:
            if isinstance(vs[0], Iter): return range_vec(ex, vs[0], vs[1])
            if is_scalar(vs[0]): return filled(ex, vs[0], vs[1])
        if isinstance(vs[0], Iter): return range_vec(ex, vs[0], vs[1])
        if isinstance(vs[0], (Arr, Vec)): return Vec(items=vs[0].items) if isinstance(vs[0], Arr) else vs[0]
        raise Unsupported('vector constructor')
    if n == 'std::array':
        if not args: return ex.default_value(t, bool(e.get('zero')))
        return ex.val(args[0])
    if n in ('std::shared_ptr', 'std::unique_ptr', 'std::__shared_ptr'):
        if not args: return NULL
        v = ex.val(args[0])
        if isinstance(v, (Ptr, GPtr)): return v
        raise Unsupported('smart pointer from ' + type(v).__name__)
    if n in FUNCTORS: return Functor(n[5:])
    if t in EXC: return Opaque(t)
    if n.startswith('std::allocator'): return Opaque('allocator')
    if n in ('std::initializer_list',): return ex.val(args[0])
    if n in ('__gnu_cxx::__normal_iterator', 'std::reverse_iterator', 'std::function', 'std::pair', 'std::tuple') and len(args) == 1: return ex.val(args[0])
    if n == 'std::pair' and len(args) == 2: return Obj(t, {'first': ex.val(args[0]), 'second': ex.val(args[1])})
    if n == 'std::pair' and not args: return Obj(t, {'first': ex.default_value(a[0], True), 'second': ex.default_value(a[1], True)})
    if n == 'std::basic_string':
        import strmodel
        if ref.get('move') and args and ref['pt'][0].rstrip().endswith('&&'):
            a = ex.lv(args[0]); v = ld(ex, a)
            if isinstance(a, Ref) and args[0]['vk'] == 'x': ex.store(a, Str())
            return v
        args = [x for x in args if not (x['k'] == 'CXXDefaultArgExpr')]
        return strmodel.construct_string(ex, args) if args else Str()
    if n.startswith('std::basic_') and 'stream' in n:
        import strmodel
        return strmodel.construct_stream(ex, n, [x for x in args if x['k'] != 'CXXDefaultArgExpr'])
    if n in ENGINES: return Opaque('random engine')
    if n in ('std::binomial_distribution', 'std::uniform_real_distribution', 'std::uniform_int_distribution'):
        vs = [ex.val(x) for x in args]
        if len(vs) != 2: raise Unsupported('distribution without bounds')
        if n == 'std::binomial_distribution': ex.oblige('parameters of the distribution', land(ex.cmp('>=', vs[0], 0), ex.cmp('>=', vs[1], 0), ex.cmp('<=', vs[1], 1)))
        else: ex.oblige('bounds of the distribution', ex.cmp('<=', vs[0], vs[1]))
        ex.assumed_std.add('random distributions draw numbers of their support')
        return Functor('draw', (n[5:], vs[0] if n != 'std::binomial_distribution' else 0, vs[1] if n != 'std::binomial_distribution' else vs[0]))
    if n == 'std::any':
        if not args: return Any(None, None)
        v = ex.val(args[0])
        return v if isinstance(v, Any) else Any(strip_type(args[0]['t']), v)
    raise Unsupported('construction of ' + t[:120])


def construct_args(ex, t, args, argtypes=None):
    n, a = parse_type(t)
    vs = [ld(ex, x) for x in args]
    if not vs: return ex.default_value(t, True)
    if len(vs) == 1 and (t in INT_TYPES or t in REAL_TYPES or t == 'bool'): return vs[0]
    if n == 'std::any': return vs[0] if isinstance(vs[0], Any) else Any(strip_type(argtypes[0]), vs[0])
    if len(vs) == 1 and isinstance(vs[0], (Vec, Arr, Ptr, GPtr, Str)): return vs[0]
    if n == 'std::basic_string' and len(vs) == 2 and is_scalar(vs[0]):
        import strmodel
        return Str(strmodel.to_str(vs[1]).parts * strmodel.need(vs[0]))
    if n == 'std::vector':
        if len(vs) == 1 and is_scalar(vs[0]): return filled(ex, vs[0], ex.default_value(a[0], True))
        if isinstance(vs[0], Iter): return range_vec(ex, vs[0], vs[1])
        if len(vs) == 2 and is_scalar(vs[0]): return filled(ex, vs[0], vs[1])
    raise Unsupported('emplace of ' + t[:100])


# ------------------------------------------------------------------------------------------------ methods
def store_items(v, items): return Arr(items) if isinstance(v, Arr) else Vec(items=items)


def push(v, x):
    if v.items is not None: return Vec(items=v.items + (x,))
    n = v.n
    r = Vec(n=simp(to_int(n) + 1), get=lambda i: ite(eq(i, n), x, v.get(i)))
    r.parent, r.op = v, ('push', x)
    return r


def insert_at(v, pos, xs):
    """insert the sequence xs (Vec with concrete items) before pos"""
    m = len(xs.items); p = conc_int(simp(pos))
    if v.items is not None and p is not None: return Vec(items=v.items[:p] + tuple(xs.items) + v.items[p:])

    def get(i):
        r = v.get(simp(to_int(i) - m))
        for j in range(m - 1, -1, -1): r = ite(eq(i, simp(to_int(pos) + j)), xs.items[j], r)
        return ite(simp(to_int(i) < to_int(pos)), v.get(i), r)
    if v.items is not None: return Vec(items=[lazy_ins(v, pos, xs, j) for j in range(len(v.items) + m)])
    return Vec(n=simp(to_int(v.n) + m), get=get)


def lazy_ins(v, pos, xs, j):
    m = len(xs.items); n = len(v.items)
    r = v.items[j - m] if 0 <= j - m < n else None
    for q in range(m - 1, -1, -1):
        if 0 <= j - q <= n: r = xs.items[q] if r is None else ite(eq(j - q, pos), xs.items[q], r)
    if j < n: r = v.items[j] if r is None else ite(to_int(j) < to_int(pos), v.items[j], r)
    return r


def erase_range(v, b, e):
    cb, ce = conc_int(simp(b)), conc_int(simp(e))
    if v.items is not None and cb is not None and ce is not None: return Vec(items=v.items[:cb] + v.items[ce:])
    d = simp(to_int(e) - to_int(b))
    if v.items is not None and isinstance(d, int):
        return Vec(items=[ite(to_int(j) < to_int(b), v.items[j], v.items[j + d]) for j in range(len(v.items) - d)])
    return Vec(n=simp(to_int(v.n) - to_int(d)), get=lambda i: ite(simp(to_int(i) < to_int(b)), v.get(i), v.get(simp(to_int(i) + to_int(d)))))


def method(ex, ref, this, argexprs, e):
    n = ref['n']; cls = parse_type(ref.get('cls', ''))[0]
    argexprs = [x for x in argexprs if not (x['k'] == 'CXXDefaultArgExpr' and 'alloc' in x['t'])]
    v = ex.load(this) if isinstance(this, Ref) else this
    ev = lambda: [ex.val(x) for x in argexprs]
    if isinstance(v, Vec) and cls == 'std::basic_string':
        import strmodel
        r = strmodel.vec_method(ex, ref, this, v, [x for x in argexprs if x['k'] != 'CXXDefaultArgExpr'])
        if r is not NotImplemented: return r
    if isinstance(v, (Vec, Arr)):
        size = len(v.items) if isinstance(v, Arr) else v.n
        if n in ('operator[]', 'at'):
            i = ex.val(argexprs[0])
            v = ex.load(this); size = len(v.items) if isinstance(v, Arr) else v.n
            inb = land(ex.cmp('>=', i, 0), ex.cmp('<', i, size))
            if n == 'at':
                if not ex.choose(inb): raise ThrowEx('std::out_of_range')
            else:
                ex.oblige('index in bounds', inb)
                if py_bool(inb) is False: raise PathDead()
                ex.assume(inb)
            return Ref(this.root, this.path + (i,))
        if n == 'size': return size
        if n == 'empty': return ex.cmp('==', size, 0)
        if n in ('begin', 'cbegin'): return Iter(this.root, this.path, 0)
        if n in ('end', 'cend'): return Iter(this.root, this.path, size)
        if n in ('rbegin', 'crbegin'): return RIter(this.root, this.path, size)
        if n in ('rend', 'crend'): return RIter(this.root, this.path, 0)
        if n in ('front', 'back'):
            ok = ex.cmp('>', size, 0); ex.oblige('front/back of a non-empty container', ok)
            if py_bool(ok) is False: raise PathDead()
            ex.assume(ok)
            return Ref(this.root, this.path + ((0 if n == 'front' else ex.int_op('-', size, 1)),))
        if n in ('reserve', 'shrink_to_fit'): ev(); return None
        if n == 'operator=':
            s = ex.lv(argexprs[0]); x = ld(ex, s)
            if isinstance(v, Vec) and isinstance(x, Arr): x = Vec(items=x.items)
            if ref['pt'][0].rstrip().endswith('&&') and isinstance(s, Ref) and isinstance(v, Vec) and argexprs[0]['vk'] == 'x': ex.store(s, Vec(items=()))
            ex.store(this, x); return this
        if n == 'fill':
            x = ex.val(argexprs[0]); ex.store(this, Arr([x] * len(v.items))); return None
        if n == 'data': return Iter(this.root, this.path, 0)
        if isinstance(v, Vec):
            et = parse_type(ref['cls'])[1][0]
            if n == 'push_back':
                x = ex.val(argexprs[0]); ex.store(this, push(ex.load(this), x)); return None
            if n == 'emplace_back':
                args = [ex.lv(x) if x['vk'] != 'r' else ex.rv(x) for x in argexprs]
                vals = [ld(ex, x) for x in args]
                if len(vals) == 1 and (et in INT_TYPES or et in REAL_TYPES or et == 'bool' or isinstance(vals[0], (Ptr, GPtr, Str)) or (isinstance(vals[0], Obj) and vals[0].cls == strip_type(et)) or isinstance(vals[0], (Vec, Arr))):
                    x = vals[0]
                    if strip_type(et) in INT_TYPES and is_scalar(x): x = ex.cast_scalar(x, argexprs[0]['t'], et)
                    elif strip_type(et) in REAL_TYPES and is_scalar(x): x = ex.cast_scalar(x, argexprs[0]['t'], et)
                    elif isinstance(x, (Vec, Arr)) and strip_type(et) in ex.prog.recs:
                        x = ex.construct_args(et, args, [q['t'] + (' &' if q['vk'] != 'r' else '') for q in argexprs])
                else: x = ex.construct_args(et, args, [q['t'] + (' &' if q['vk'] != 'r' else '') for q in argexprs])
                w = push(ex.load(this), x); ex.store(this, w)
                return Ref(this.root, this.path + (simp(to_int(w.n) - 1) if not isinstance(w.n, int) else w.n - 1,))
            if n == 'pop_back':
                ok = ex.cmp('>', size, 0); ex.oblige('pop_back of a non-empty vector', ok)
                if py_bool(ok) is False: raise PathDead()
                ex.assume(ok)
                ex.store(this, erase_range(v, ex.int_op('-', size, 1), size)); return None
            if n == 'clear': ex.store(this, Vec(items=())); return None
            if n == 'resize':
                a = ev(); m = a[0]; fill = a[1] if len(a) > 1 else ex.default_value(et, True)
                cm = conc_int(simp(m))
                if v.items is not None and cm is not None:
                    if cm < 0 or cm > 5_000_000: ex.oblige('resize length', False); raise PathDead()
                    ex.store(this, Vec(items=(v.items + (fill,) * max(0, cm - len(v.items)))[:cm]))
                else:
                    ex.oblige('resize length', to_int(m) >= 0)
                    ex.store(this, Vec(n=m, get=lambda i: ite(simp(to_int(i) < to_int(size)), v.get(i), fill)))
                return None
            if n == 'insert':
                a = ev(); p = a[0]
                ex.oblige('insert position', land(ex.cmp('>=', p.idx, 0), ex.cmp('<=', p.idx, size)))
                if len(a) == 2: xs = Vec(items=[a[1]]) if not isinstance(a[1], (Vec,)) else a[1]
                elif len(a) == 3 and isinstance(a[1], Iter): xs = range_vec(ex, a[1], a[2])
                elif len(a) == 3 and conc_int(a[1]) is not None: xs = Vec(items=[a[2]] * conc_int(a[1]))
                else: raise Unsupported('vector::insert')
                if xs.items is None: raise Unsupported('insert of a symbolic range')
                ex.store(this, insert_at(v, p.idx, xs))
                return Iter(this.root, this.path, p.idx)
            if n == 'erase':
                a = ev(); b = a[0].idx; f = a[1].idx if len(a) > 1 else ex.int_op('+', b, 1)
                ok = land(ex.cmp('>=', b, 0), ex.cmp('<=', b, f), ex.cmp('<=', f, size))
                ex.oblige('erase position', ok)
                if py_bool(ok) is False: raise PathDead()
                ex.assume(ok)
                ex.store(this, erase_range(v, b, f))
                return Iter(this.root, this.path, b)
            if n == 'assign':
                a = ev()
                ex.store(this, range_vec(ex, a[0], a[1]) if isinstance(a[0], Iter) else filled(ex, a[0], a[1])); return None
            if n == 'swap':
                o = ex.lv(argexprs[0]); w = ex.load(o); ex.store(o, v); ex.store(this, w); return None
    if isinstance(v, RIter):
        if n == 'operator*': return check_deref(ex, Iter(v.root, v.path, ex.int_op('-', v.idx, 1, 'long')))
        if n in ('operator++', 'operator--'):
            ex.store(this, RIter(v.root, v.path, ex.int_op('-' if n == 'operator++' else '+', v.idx, 1, 'long'))); return v if argexprs else this
        if n in ('operator+', 'operator-'): return RIter(v.root, v.path, ex.int_op('-' if n == 'operator+' else '+', v.idx, ex.val(argexprs[0]), 'long'))
        if n == 'base': return Iter(v.root, v.path, v.idx)
        if n == 'operator=': ex.store(this, ex.val(argexprs[0])); return this
    if isinstance(v, Iter):
        if n == 'operator*': return check_deref(ex, v)
        if n == 'operator->':
            r = check_deref(ex, v); return Ptr(r.root, r.path)
        if n in ('operator+', 'operator-'):
            d = ex.val(argexprs[0])
            if isinstance(d, Iter): return ex.int_op('-', v.idx, d.idx, 'long')
            return Iter(v.root, v.path, ex.int_op(n[-1], v.idx, d, 'long'))
        if n in ('operator++', 'operator--'):
            w = Iter(v.root, v.path, ex.int_op('+' if n == 'operator++' else '-', v.idx, 1, 'long'))
            ex.store(this, w)
            return v if argexprs else this
        if n in ('operator+=', 'operator-='):
            ex.store(this, Iter(v.root, v.path, ex.int_op(n[-2], v.idx, ex.val(argexprs[0]), 'long'))); return this
        if n == 'operator[]':
            return check_deref(ex, Iter(v.root, v.path, ex.int_op('+', v.idx, ex.val(argexprs[0]), 'long')))
        if n == 'operator=': ex.store(this, ex.val(argexprs[0])); return this
        if n == 'base': return v
    if isinstance(v, (Ptr, GPtr)):
        if n in ('get',): return v
        if n == 'operator->':
            return v
        if n == 'operator*':
            if isinstance(v, GPtr): return v
            if v.root is None: ex.oblige('null dereference', False); raise PathDead()
            return Ref(v.root, v.path)
        if n == 'operator bool': return isinstance(v, GPtr) or v.root is not None
        if n == 'reset':
            x = ev(); ex.store(this, x[0] if x else NULL); return None
        if n == 'release': ex.store(this, NULL); return v
        if n == 'operator=':
            s = ex.lv(argexprs[0]); x = ld(ex, s)
            if isinstance(x, (Ptr, GPtr)):
                if ref['pt'][0].rstrip().endswith('&&') and isinstance(s, Ref) and argexprs[0]['vk'] == 'x': ex.store(s, NULL)
                ex.store(this, x); return this
        if n == 'operator[]': pass
    if isinstance(v, Functor) and n == 'operator()': return functor_call(ex, v, [ex.lv(x) if x['vk'] != 'r' else ex.rv(x) for x in argexprs])
    if isinstance(v, (Lam, Fn)) and n == 'operator()': return ex.invoke(v, [ex.lv(x) if x['vk'] != 'r' else ex.rv(x) for x in argexprs])
    if isinstance(v, (Functor, Lam, Fn, Undef)) and n == 'operator=': ex.store(this, ex.val(argexprs[0])); return this
    if isinstance(v, (Str, Opaque, Stream, Any)):
        import strmodel
        return strmodel.method(ex, ref, this, v, [x for x in argexprs if x['k'] != 'CXXDefaultArgExpr'], e)
    raise Unsupported(f'method {ref["q"][:100]} on {type(v).__name__}')


def check_deref(ex, it):
    v = ex.load(Ref(it.root, it.path)); size = len(v.items) if isinstance(v, Arr) else v.n
    inb = land(ex.cmp('>=', it.idx, 0), ex.cmp('<', it.idx, size))
    ex.oblige('iterator dereference in bounds', inb)
    if py_bool(inb) is False: raise PathDead()
    ex.assume(inb)
    return Ref(it.root, it.path + (it.idx,))


# ------------------------------------------------------------------------------------------------ function objects
def functor_call(ex, f, args):
    if f.name == 'draw':
        kind, lo, hi = f.args
        if kind == 'uniform_real_distribution': r = fresh('draw', 'Real'); ex.assume(z3.And(r >= to_real(lo), r <= to_real(hi)))
        else: r = fresh('draw'); ex.assume(z3.And(r >= to_int(lo), r <= to_int(hi)))
        return r
    vs = [ld(ex, a) for a in args]
    if f.name in ('plus', 'minus', 'multiplies', 'divides'):
        op = {'plus': '+', 'minus': '-', 'multiplies': '*', 'divides': '/'}[f.name]
        a, b = vs
        if is_scalar(a) and is_scalar(b):
            isint = all(isinstance(x, int) or (is_z3(x) and z3.is_int(x)) for x in (a, b))
            return ex.int_op(op, a, b) if isint else ex.real_op(op, a, b)
        # operators of repository classes
        return binary_operator(ex, 'operator' + op, args)
    if f.name in ('less', 'greater', 'equal_to', 'less_equal', 'greater_equal', 'not_equal_to'):
        op = {'less': '<', 'greater': '>', 'equal_to': '==', 'less_equal': '<=', 'greater_equal': '>=', 'not_equal_to': '!='}[f.name]
        if is_scalar(vs[0]): return ex.cmp(op, vs[0], vs[1])
        return binary_operator(ex, 'operator' + op, args)
    if f.name == 'negate': return ex.real_op('-', Fraction(0), vs[0])
    if f.name == 'bind':
        g, bound = f.args
        full = []
        for b in bound:
            if isinstance(b, Functor) and b.name == 'placeholder': full.append(args[b.args[0] - 1])
            else: full.append(b)
        return ex.invoke(g, full)
    raise Unsupported('functor ' + f.name)


def binary_operator(ex, name, args):
    a, b = [ld(ex, x) for x in args]
    if isinstance(a, Obj):
        base = a.cls.split('<')[0]
        cands = [f for q, fs in ex.prog.by_q.items() if q.rsplit('::', 1)[-1] == name for f in fs]
        for f in cands:
            if f['f'].get('cls') == a.cls and len(f['params']) == 1:
                this = args[0] if isinstance(args[0], Ref) else Ref(ex.alloc(a))
                return ex.call_fn(f, this, ex.match_args(f, [args[1]]))
            if 'cls' not in f['f'] and len(f['params']) == 2 and strip_type(f['params'][0]['t']) == a.cls:
                return ex.call_fn(f, None, ex.match_args(f, args))
    raise Unsupported(f'{name} on {type(a).__name__}')


# ------------------------------------------------------------------------------------------------ free functions
def seq_loop(ex, n, body):
    """run body(i) for i = 0..n-1 as an ordinary loop of the program (unrolled or summarised)"""
    idx = Ref(ex.alloc(0))
    cn = conc_int(n)
    ex.loop(lambda: ex.cmp('<', ex.load(idx), n), lambda: body(ex.load(idx)), lambda: ex.store(idx, ex.int_op('+', ex.load(idx), 1)), None)


def it_at(ex, it, i): return check_deref(ex, Iter(it.root, it.path, ex.int_op('+', it.idx, i, 'long')))


def it_len(ex, a, b):
    if (a.root, a.path) != (b.root, b.path): raise Unsupported('iterators of different containers')
    n = ex.int_op('-', b.idx, a.idx, 'long')
    ex.oblige('iterator range valid', ex.cmp('>=', n, 0))
    return n


def out_put(ex, out, i, v):
    """write v at position i of an output iterator"""
    if isinstance(out, Functor) and out.name == 'back_inserter':
        r = out.args[0]; ex.store(r, push(ex.load(r), v)); return
    ex.store(it_at(ex, out, i), v)


def out_end(ex, out, n):
    return out if isinstance(out, Functor) else Iter(out.root, out.path, ex.int_op('+', out.idx, n, 'long'))


def rabs(ex, x):
    if isnum(x): return abs(x)
    return z3.If(x >= 0, x, -x)


def free_call(ex, ref, args, e):
    n = ref['n']; q = ref['q']
    argt = None
    if args is None:
        args = [ex.lv(x) if x['vk'] != 'r' else ex.rv(x) for x in e['c'] if not (x['k'] == 'CXXDefaultArgExpr' and 'alloc' in x['t'])]
        argt = [x['t'] + (' &' if x['vk'] == 'l' else '') for x in e['c']]
    vs = lambda: [ld(ex, a) for a in args]
    if n in ('move', 'forward') and len(args) == 1: return args[0]
    if n in ('make_shared', 'make_unique'):
        t = parse_type(e['t'])[1][0]
        v = ex.construct_args(t, args, argt)
        return Ptr(ex.alloc(v))
    if n in ('abs', 'fabs'):
        return rabs(ex, vs()[0])
    if n == 'sqrt':
        x = vs()[0]
        if isnum(x):
            import math
            num, den = Fraction(x).numerator, Fraction(x).denominator
            if num >= 0 and math.isqrt(num) ** 2 == num and math.isqrt(den) ** 2 == den: return Fraction(math.isqrt(num), math.isqrt(den))
        xr = to_real(x); r = SQRT(xr)
        ex.oblige('sqrt argument non-negative', xr >= 0)
        ex.st.pc.append(z3.Implies(xr >= 0, z3.And(r >= 0, r * r == xr)))
        return r
    if n in ('ceil', 'floor'):
        x = vs()[0]
        if isnum(x):
            import math
            return Fraction(math.ceil(x) if n == 'ceil' else math.floor(x))
        x = to_real(x)
        return z3.ToReal(-z3.ToInt(-x)) if n == 'ceil' else z3.ToReal(z3.ToInt(x))
    if n == 'pow':
        a, b = vs(); cb = Fraction(b) if isnum(b) else simp(b)
        if isnum(cb) and Fraction(cb).denominator == 1 and abs(cb) <= 64:
            r = Fraction(1)
            for _ in range(abs(int(cb))): r = ex.real_op('*', r, a)
            return r if cb >= 0 else ex.real_op('/', Fraction(1), r)
        if isnum(a) and isnum(cb): return Fraction(float(a) ** float(cb))      # constants: the value in double precision
        raise Unsupported('pow')
    if n in ('min', 'max') and len(args) == 2:
        a, b = vs(); c = ex.cmp('<', b, a) if n == 'min' else ex.cmp('<', a, b)
        return Ref(ex.alloc(ite(c, b, a)))
    if n in ('min', 'max') and len(args) == 1 and isinstance(vs()[0], Arr):
        items = vs()[0].items; r = items[0]
        for x in items[1:]: r = ite(ex.cmp('<', x, r) if n == 'min' else ex.cmp('<', r, x), x, r)
        return r
    if n == 'clamp':
        x, lo, hi = vs()
        return Ref(ex.alloc(ite(ex.cmp('<', x, lo), lo, ite(ex.cmp('<', hi, x), hi, x))))
    if q.endswith('numeric_limits<double>::epsilon'): return EPS
    if q.endswith('numeric_limits<int>::max'): return 2 ** 31 - 1
    if n == 'swap' and len(args) == 2:
        a, b = vs(); ex.store(args[0], b); ex.store(args[1], a); return None
    if n == 'distance':
        a, b = vs(); return ex.int_op('-', b.idx, a.idx, 'long')
    if n in ('next', 'prev'):
        a = vs(); d = a[1] if len(a) > 1 else 1
        return Iter(a[0].root, a[0].path, ex.int_op('+' if n == 'next' else '-', a[0].idx, d, 'long'))
    if n == 'advance':
        a = vs(); ex.store(args[0], Iter(a[0].root, a[0].path, ex.int_op('+', a[0].idx, a[1], 'long'))); return None
    if n in ('begin', 'cbegin') and len(args) == 1: return Iter(args[0].root, args[0].path, 0)
    if n in ('end', 'cend') and len(args) == 1:
        v = vs()[0]; return Iter(args[0].root, args[0].path, len(v.items) if isinstance(v, Arr) else v.n)
    if n in ('size',) and len(args) == 1:
        v = vs()[0]; return len(v.items) if isinstance(v, Arr) else v.n
    if n == 'back_inserter': return Functor('back_inserter', (args[0],))
    if n == 'bind': return Functor('bind', (ld(ex, args[0]), [ld(ex, a) for a in args[1:]]))
    if n == 'ref' or n == 'cref': return args[0]
    if n in ('operator==', 'operator!=') and len(args) == 2:
        a, b = vs()
        if isinstance(a, (Ptr, GPtr)) or isinstance(a, (Iter, RIter)): return ex.cmp(n[8:], a, b)
        r = deep_eq(ex, a, b)
        return r if n == 'operator==' else lnot(r)
    if n in ('operator<', 'operator<=', 'operator>', 'operator>=') and isinstance(vs()[0], Iter):
        a, b = vs(); return ex.cmp(n[8:], a.idx, b.idx)
    if n == 'operator-' and isinstance(vs()[0], Iter):
        a, b = vs(); return ex.int_op('-', a.idx, b.idx, 'long')
    if n == 'operator+' and isinstance(vs()[-1], Iter):
        a, b = vs(); return Iter(b.root, b.path, ex.int_op('+', b.idx, a, 'long'))
    if n == 'transform':
        a = vs(); first, last = a[0], a[1]; m = it_len(ex, first, last)
        if len(a) == 4:
            out, f = a[2], a[3]
            seq_loop(ex, m, lambda i: out_put(ex, out, i, ld(ex, ex.invoke(f, [it_at(ex, first, i)]))))
        else:
            second, out, f = a[2], a[3], a[4]
            seq_loop(ex, m, lambda i: out_put(ex, out, i, ld(ex, ex.invoke(f, [it_at(ex, first, i), it_at(ex, second, i)]))))
        return out_end(ex, out, m)
    if n in ('copy', 'move') and len(args) == 3:
        a = vs(); m = it_len(ex, a[0], a[1])
        seq_loop(ex, m, lambda i: out_put(ex, a[2], i, ld(ex, it_at(ex, a[0], i))))
        return out_end(ex, a[2], m)
    if n == 'copy_n':
        a = vs(); seq_loop(ex, a[1], lambda i: out_put(ex, a[2], i, ld(ex, it_at(ex, a[0], i)))); return out_end(ex, a[2], a[1])
    if n == 'fill':
        a = vs(); m = it_len(ex, a[0], a[1]); seq_loop(ex, m, lambda i: ex.store(it_at(ex, a[0], i), a[2])); return None
    if n == 'fill_n':
        a = vs(); seq_loop(ex, a[1], lambda i: ex.store(it_at(ex, a[0], i), a[2])); return Iter(a[0].root, a[0].path, ex.int_op('+', a[0].idx, a[1]))
    if n == 'iota':
        a = vs(); m = it_len(ex, a[0], a[1])
        seq_loop(ex, m, lambda i: ex.store(it_at(ex, a[0], i), ex.int_op('+', a[2], i) if not isinstance(a[2], Fraction) else ex.real_op('+', a[2], i)))
        return None
    if n == 'for_each':
        a = vs(); m = it_len(ex, a[0], a[1]); seq_loop(ex, m, lambda i: ex.invoke(a[2], [it_at(ex, a[0], i)])); return a[2]
    if n == 'accumulate':
        a = vs(); m = it_len(ex, a[0], a[1]); acc = Ref(ex.alloc(a[2]))
        f = a[3] if len(a) > 3 else Functor('plus')
        seq_loop(ex, m, lambda i: ex.store(acc, ld(ex, ex.invoke(f, [ex.load(acc), it_at(ex, a[0], i)]))))
        return ex.load(acc)
    if n == 'inner_product':
        a = vs(); m = it_len(ex, a[0], a[1]); acc = Ref(ex.alloc(a[3]))
        f = a[4] if len(a) > 4 else Functor('plus'); g = a[5] if len(a) > 5 else Functor('multiplies')
        seq_loop(ex, m, lambda i: ex.store(acc, ld(ex, ex.invoke(f, [ex.load(acc), ld(ex, ex.invoke(g, [it_at(ex, a[0], i), it_at(ex, a[2], i)]))]))))
        return ex.load(acc)
    if n in ('all_of', 'any_of', 'none_of'):
        a = vs(); m = it_len(ex, a[0], a[1])
        r = forall_index(ex, m, lambda i: lnot(ld(ex, ex.invoke(a[2], [it_at(ex, a[0], i)]))) if n != 'all_of' else ld(ex, ex.invoke(a[2], [it_at(ex, a[0], i)])))
        return lnot(r) if n == 'any_of' else r
    if n == 'equal':
        a = vs(); m = it_len(ex, a[0], a[1])
        rest = a[3:]
        if rest and isinstance(rest[0], Iter):
            m2 = it_len(ex, a[2], rest[0]); rest = rest[1:]
            same = ex.cmp('==', m, m2)
            if py_bool(same) is False: return False
            if py_bool(same) is None and not ex.choose(same): return False
        f = rest[0] if rest else Functor('equal_to')

        def one(i):
            x, y = it_at(ex, a[0], i), it_at(ex, a[2], i)
            if not rest: return deep_eq(ex, ex.load(x), ex.load(y), x, y)
            return ld(ex, ex.invoke(f, [x, y]))
        return forall_index(ex, m, one)
    if n in ('count', 'count_if'):
        a = vs(); m = it_len(ex, a[0], a[1]); acc = Ref(ex.alloc(0))

        def step_(i):
            x = it_at(ex, a[0], i)
            c = deep_eq(ex, ex.load(x), a[2], x, None) if n == 'count' else ld(ex, ex.invoke(a[2], [x]))
            ex.store(acc, ex.int_op('+', ex.load(acc), ite(c, 1, 0), 'long'))
        seq_loop(ex, m, step_)
        return ex.load(acc)
    if n in ('find', 'find_if', 'find_if_not'):
        a = vs(); rev = isinstance(a[0], RIter)
        m = it_len(ex, Iter(a[1].root, a[1].path, a[1].idx), Iter(a[0].root, a[0].path, a[0].idx)) if rev else it_len(ex, a[0], a[1]); cm = conc_int(simp(m))
        here = (lambda i: RIter(a[0].root, a[0].path, ex.int_op('-', a[0].idx, i, 'long'))) if rev else (lambda i: Iter(a[0].root, a[0].path, ex.int_op('+', a[0].idx, i, 'long')))

        def hit(i):
            x = check_deref(ex, Iter(a[0].root, a[0].path, ex.int_op('-', ex.int_op('-', a[0].idx, 1, 'long'), i, 'long'))) if rev else it_at(ex, a[0], i)
            c = deep_eq(ex, ex.load(x), a[2], x, None) if n == 'find' else ld(ex, ex.invoke(a[2], [x]))
            return lnot(c) if n == 'find_if_not' else c
        if cm is not None:
            for i in range(cm):
                if ex.choose(hit(i)): return here(i)
            return a[1]
        return here(first_index(ex, m, hit))
    if n in ('lower_bound', 'upper_bound'):
        a = vs(); m = it_len(ex, a[0], a[1]); cm = conc_int(simp(m)); x = a[2]
        less = a[3] if len(a) > 3 else Functor('less')

        def right(i):   # element i lies in the right part
            y = it_at(ex, a[0], i)
            if n == 'lower_bound': return lnot(ld(ex, ex.invoke(less, [y, x])))
            return ld(ex, ex.invoke(less, [x, y]))
        if cm is not None:
            # requires: the range is partitioned
            flags = [right(i) for i in range(cm)]
            for i in range(cm - 1): ex.oblige(f'{n}: range partitioned', lor(lnot(flags[i]), flags[i + 1]))
            for i in range(cm):
                if ex.choose(flags[i]): return Iter(a[0].root, a[0].path, ex.int_op('+', a[0].idx, i, 'long'))
            return a[1]
        r = fresh('bound'); i = fresh('i'); j = fresh('j')
        R = lambda k: to_bool(ex.merge_eval(lambda: right(k), z3.And(k >= 0, k < to_int(m))))
        ex.oblige(f'{n}: range partitioned', z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i <= j, j < to_int(m), R(i)), R(j))))
        ex.st.pc.append(z3.And(r >= 0, r <= to_int(m)))
        ex.st.pc.append(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < to_int(m)), R(i) == (i >= r))))
        ex.st.pc.append(z3.Implies(r < to_int(m), R(r))); ex.st.pc.append(z3.Implies(r > 0, z3.Not(R(r - 1))))
        return Iter(a[0].root, a[0].path, ex.int_op('+', a[0].idx, r, 'long'))
    if n == 'unique_copy':
        a = vs(); m = it_len(ex, a[0], a[1]); out = a[2]; cm = conc_int(simp(m))
        same = a[3] if len(a) > 3 else Functor('equal_to')
        if cm is None: raise Unsupported('unique_copy of a symbolic range')
        cnt = 0; last = None
        for i in range(cm):
            x = it_at(ex, a[0], i)
            if last is None or not ex.choose(ld(ex, ex.invoke(same, [last, x])) if len(a) > 3 else deep_eq(ex, ex.load(last), ex.load(x), last, x)):
                out_put(ex, out, cnt, ex.load(x)); cnt += 1; last = x
        return out_end(ex, out, cnt)
    if n in ('max_element', 'min_element'):
        a = vs(); m = conc_int(simp(it_len(ex, a[0], a[1])))
        if m is None: raise Unsupported(n)
        if m == 0: return a[1]
        best = 0
        for i in range(1, m):
            x, y = ex.load(it_at(ex, a[0], best)), ex.load(it_at(ex, a[0], i))
            if ex.choose(ex.cmp('<', x, y) if n == 'max_element' else ex.cmp('<', y, x)): best = i
        return Iter(a[0].root, a[0].path, ex.int_op('+', a[0].idx, best))
    if n == 'is_sorted':
        a = vs(); m = it_len(ex, a[0], a[1])
        return forall_index(ex, ex.int_op('-', m, 1), lambda i: lnot(ld(ex, ex.invoke(Functor('less'), [it_at(ex, a[0], ex.int_op('+', i, 1)), it_at(ex, a[0], i)]))))
    if n == 'reverse':
        a = vs(); m = conc_int(simp(it_len(ex, a[0], a[1])))
        if m is None: raise Unsupported(n)
        xs = [ex.load(it_at(ex, a[0], i)) for i in range(m)]
        for i in range(m): ex.store(it_at(ex, a[0], i), xs[m - 1 - i])
        return None
    if n == 'get' and e is not None and len(args) == 1 and isinstance(vs()[0], (Arr,)): raise Unsupported('std::get')
    if n in ('isspace', 'isdigit', 'isalpha', 'isalnum', 'isupper', 'islower', 'toupper', 'tolower') and len(args) == 1:
        c = vs()[0]
        if isinstance(c, TokCh):
            if n == 'isspace': return False
            raise Unsupported(n + ' of a character of a number text')
        rng = lambda a, b: land(ex.cmp('>=', c, ord(a)), ex.cmp('<=', c, ord(b)))
        if n == 'isspace': return lor(ex.cmp('==', c, 32), land(ex.cmp('>=', c, 9), ex.cmp('<=', c, 13)))
        if n == 'isdigit': return rng('0', '9')
        if n == 'isupper': return rng('A', 'Z')
        if n == 'islower': return rng('a', 'z')
        if n == 'isalpha': return lor(rng('a', 'z'), rng('A', 'Z'))
        if n == 'isalnum': return lor(rng('a', 'z'), rng('A', 'Z'), rng('0', '9'))
        if n == 'toupper': return ite(rng('a', 'z'), ex.int_op('-', c, 32), c)
        return ite(rng('A', 'Z'), ex.int_op('+', c, 32), c)
    if n in ('dynamic_pointer_cast', 'static_pointer_cast'):
        p = vs()[0]; t = parse_type(e['t'])[1][0]
        if n[0] == 's' or isinstance(p, Ptr) and p.root is None: return p
        return p if isinstance(p, Ptr) and isinstance(ex.load(Ref(p.root, p.path)), Obj) and ex.prog.is_derived(ex.load(Ref(p.root, p.path)).cls, strip_type(t)) else NULL
    if q.startswith('std::') and n in ('operator<<', 'operator+', 'to_string', 'stod', 'stoi', 'stol', 'stof', 'atof', 'atoi', 'getline', 'operator>>', 'any_cast', 'make_any', 'fixed', 'setprecision', 'setw', 'left', 'right', 'endl'):
        import strmodel
        return strmodel.free(ex, ref, args, e)
    raise Unsupported('function ' + q[:120])


def deep_eq(ex, a, b, ra=None, rb=None):
    if is_scalar(a) and is_scalar(b): return eq(a, b) if not (is_z3(a) and z3.is_bool(a)) else simp(to_bool(a) == to_bool(b))
    if isinstance(a, Arr) and isinstance(b, Arr): return land(*[deep_eq(ex, x, y) for x, y in zip(a.items, b.items)])
    if isinstance(a, Vec) and isinstance(b, Vec):
        if a.items is not None and b.items is not None:
            return len(a.items) == len(b.items) and land(*[deep_eq(ex, x, y) for x, y in zip(a.items, b.items)])
        same = ex.cmp('==', a.n, b.n)
        if py_bool(same) is False: return False
        i = fresh('ei')
        return land(same, z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < to_int(a.n)), to_bool(deep_eq(ex, a.get(i), b.get(i))))))
    if isinstance(a, Obj): return ld(ex, binary_operator(ex, 'operator==', [ra if ra is not None else a, rb if rb is not None else b]))
    if isinstance(a, Str) or isinstance(b, Str):
        import strmodel
        return strmodel.string_eq(ex, a, b)
    if isinstance(a, (Ptr, GPtr)): return ex.cmp('==', a, b)
    raise Unsupported('equality of ' + type(a).__name__)


def forall_index(ex, m, pred):
    """truth of pred(i) for all 0 <= i < m (short-circuit order does not matter: the predicates are pure)"""
    cm = conc_int(simp(m))
    if cm is not None:
        r = True
        for i in range(cm):
            c = pred(i); p = py_bool(c)
            if p is False: return False
            r = land(r, c if p is None else p)
        return r
    i = fresh('qi'); rng = z3.And(i >= 0, i < to_int(m))
    body = ex.merge_eval(lambda: pred(i), rng)
    return z3.ForAll([i], z3.Implies(rng, to_bool(body)))


def first_index(ex, m, pred):
    r = fresh('first'); i = fresh('i')
    P = lambda k: to_bool(ex.merge_eval(lambda: pred(k), z3.And(k >= 0, k < to_int(m))))
    ex.st.pc.append(z3.And(r >= 0, r <= to_int(m)))
    ex.st.pc.append(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < r), z3.Not(P(i)))))
    ex.st.pc.append(z3.Implies(r < to_int(m), P(r)))
    return r
