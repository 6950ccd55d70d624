"""Values of the symbolic executor.

Scalars are Python int / Fraction / bool when concrete and z3 terms otherwise (C++ integers -> Int, double -> Real).
Compound values are immutable trees; memory maps root ids to such trees and an lvalue is (root, path)."""
from fractions import Fraction
import itertools
import z3


COUNTER = [0]


def fresh(name, sort='Int'):
    COUNTER[0] += 1
    s = {'Int': z3.IntSort(), 'Real': z3.RealSort(), 'Bool': z3.BoolSort()}.get(sort, sort)
    return z3.Const(f'{name}!{COUNTER[0]}', s)


def fresh_fn(name, *sorts):
    COUNTER[0] += 1
    m = {'Int': z3.IntSort(), 'Real': z3.RealSort(), 'Bool': z3.BoolSort()}
    return z3.Function(f'{name}!{COUNTER[0]}', *[m[s] for s in sorts])


def fresh_since(term, start):
    """names of free constants and functions in term that were made after counter value start"""
    out = set(); seen = set(); todo = [term]
    while todo:
        t = todo.pop()
        if t.get_id() in seen: continue
        seen.add(t.get_id())
        if z3.is_quantifier(t): todo.append(t.body()); continue
        if z3.is_app(t):
            if t.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                n = t.decl().name()
                if '!' in n:
                    try:
                        if int(n.rsplit('!', 1)[1]) > start: out.add(n)
                    except ValueError: pass
            todo.extend(t.children())
    return out


class Unsupported(Exception):
    """A construct outside the verifier's reach (never a verdict)."""


class Undef:
    def __repr__(self): return 'undef'


UNDEF = Undef()


class Obj:
    __slots__ = ('cls', 'f')

    def __init__(self, cls, f): self.cls, self.f = cls, f

    def with_field(self, n, v):
        d = dict(self.f); d[n] = v
        return Obj(self.cls, d)

    def __repr__(self): return f'{self.cls}{self.f}'


class Arr:
    __slots__ = ('items',)

    def __init__(self, items): self.items = tuple(items)

    def __repr__(self): return f'Arr{self.items}'


class Vec:
    """std::vector: either a concrete tuple of items or a length and a getter."""
    __slots__ = ('n', 'items', '_get', 'arr', 'parent', 'op')

    def __init__(self, items=None, n=None, get=None, arr=None):
        self.parent = self.op = None   # how this value was made from another one: ('set', i, v) or ('push', v)
        if items is not None:
            self.items = tuple(items); self.n = len(self.items); self._get = None
        else:
            self.items = None; self.n = n; self._get = get
        self.arr = arr  # z3 array the getter reads, when it is a plain base array

    def get(self, i):
        if self.items is not None:
            if isinstance(i, int):
                if 0 <= i < len(self.items): return self.items[i]
                return UNDEF
            i2 = conc_int(i)
            if i2 is not None: return self.get(i2)
            if not self.items: return UNDEF
            r = self.items[-1]
            for j in range(len(self.items) - 2, -1, -1):
                r = ite(i == j, self.items[j], r)
            return r
        return self._get(i)

    def set(self, i, v):
        if self.items is not None:
            ci = conc_int(i)
            if ci is not None:
                if not 0 <= ci < len(self.items): raise Unsupported('vector store out of bounds')
                l = list(self.items); l[ci] = v
                return Vec(items=l)
            return Vec(items=[ite(i == j, v, x) for j, x in enumerate(self.items)])
        old = self._get
        r = Vec(n=self.n, get=lambda j: ite(eq(j, i), v, old(j)))
        r.parent, r.op = self, ('set', i, v)
        return r

    def __repr__(self): return f'Vec(n={self.n},{self.items if self.items is not None else "sym"})'


class Ptr:
    """raw/shared/unique pointer; lv None is the null pointer."""
    __slots__ = ('root', 'path')

    def __init__(self, root, path=()): self.root, self.path = root, path

    def __repr__(self): return f'Ptr({self.root},{self.path})'

    def same(self, o): return isinstance(o, Ptr) and self.root == o.root and self.path == o.path


NULL = Ptr(None)


class Ref:
    __slots__ = ('root', 'path')

    def __init__(self, root, path=()): self.root, self.path = root, path

    def __repr__(self): return f'Ref({self.root},{self.path})'


class Ghost:
    """An object known only through the contract of the function that made it."""
    __slots__ = ('kind', 'args', 'cls')

    def __init__(self, kind, cls, args): self.kind, self.cls, self.args = kind, cls, tuple(args)

    def __repr__(self): return f'Ghost({self.kind},{self.args})'


class GPtr:
    """pointer to a ghost object"""
    __slots__ = ('ghost',)

    def __init__(self, ghost): self.ghost = ghost


class Iter:
    __slots__ = ('root', 'path', 'idx', 'rev')

    def __init__(self, root, path, idx): self.root, self.path, self.idx = root, path, idx

    def __repr__(self): return f'Iter({self.root},{self.path},{self.idx})'


class Fn:
    __slots__ = ('key', 'name')

    def __init__(self, key, name=None): self.key, self.name = key, name


class Lam:
    __slots__ = ('node', 'caps', 'this')

    def __init__(self, node, caps, this): self.node, self.caps, self.this = node, caps, this


class Functor:
    __slots__ = ('name', 'args')

    def __init__(self, name, args=()): self.name, self.args = name, args


class Str:
    """A string: tuple of parts; a part is a one-character string or a token object."""
    __slots__ = ('parts',)

    def __init__(self, parts=()): self.parts = tuple(parts)

    @property
    def n(self): return len(self.parts)

    def get(self, i):
        ci = conc_int(simp(i)) if not isinstance(i, int) else i
        if ci is None: raise Unsupported('symbolic index into a string')
        if ci == len(self.parts): return 0          # the terminating zero character
        if not 0 <= ci < len(self.parts): raise Unsupported('string index out of bounds')
        p = self.parts[ci]
        return (ord(p) if ord(p) < 128 else ord(p) - 256) if isinstance(p, str) else p

    def set(self, i, v):
        ci = conc_int(simp(i)) if not isinstance(i, int) else i
        if ci is None or not 0 <= ci < len(self.parts): raise Unsupported('store into a string')
        return Str(self.parts[:ci] + (char_part(v),) + self.parts[ci + 1:])

    def __repr__(self): return 'Str(%r)' % (''.join(p if isinstance(p, str) else '<%s>' % (p,) for p in self.parts))


def char_part(v):
    """a character value as part of a string"""
    if isinstance(v, int): return chr(v % 256)
    return v


class Tok:
    """the text printed for a number: how = 'to_string' | ('stream', precision, fixed)"""
    __slots__ = ('val', 'how', 'integral')

    def __init__(self, val, how, integral): self.val, self.how, self.integral = val, how, integral

    def __repr__(self): return f'{self.how}({self.val})'


class TokCh:
    """character i of the k characters of a number's text: a digit, sign, point or exponent letter, never anything else"""
    __slots__ = ('tok', 'i', 'k')

    def __init__(self, tok, i, k): self.tok, self.i, self.k = tok, i, k

    def __repr__(self): return f'{self.tok}[{self.i}/{self.k}]'


NUMBER_CHARS = frozenset(ord(c) for c in '0123456789+-.eE')


class Stream:
    """stream: everything written so far, the reading position and the state bits"""
    __slots__ = ('kind', 'name', 'parts', 'pos', 'eof', 'fail', 'prec', 'fixed')

    def __init__(self, kind, name=None, parts=(), pos=0, eof=False, fail=False, prec=6, fixed=False):
        self.kind, self.name, self.parts, self.pos, self.eof, self.fail, self.prec, self.fixed = kind, name, tuple(parts), pos, eof, fail, prec, fixed

    def but(self, **kw):
        d = {k: getattr(self, k) for k in self.__slots__}; d.update(kw)
        return Stream(**d)


class RIter:
    """reverse iterator; idx is the index of base()"""
    __slots__ = ('root', 'path', 'idx')

    def __init__(self, root, path, idx): self.root, self.path, self.idx = root, path, idx


class Opaque:
    __slots__ = ('what',)

    def __init__(self, what): self.what = what


class Any:
    __slots__ = ('type', 'val')

    def __init__(self, type, val): self.type, self.val = type, val


def is_z3(v): return isinstance(v, z3.ExprRef)


def conc_int(v):
    if isinstance(v, bool): return int(v)
    if isinstance(v, int): return v
    if is_z3(v) and z3.is_int_value(v): return v.as_long()
    return None


def simp(v):
    """z3 term -> simplified, turned back into a Python value when constant."""
    if not is_z3(v): return v
    v = z3.simplify(v)
    if z3.is_int_value(v): return v.as_long()
    if z3.is_rational_value(v): return Fraction(v.numerator_as_long(), v.denominator_as_long())
    if z3.is_true(v): return True
    if z3.is_false(v): return False
    return v


def to_int(v):
    if isinstance(v, bool): return z3.IntVal(int(v))
    if isinstance(v, int): return z3.IntVal(v)
    if is_z3(v):
        if z3.is_bool(v): return z3.If(v, z3.IntVal(1), z3.IntVal(0))
        return v
    if isinstance(v, Fraction) and v.denominator == 1: return z3.IntVal(int(v))
    raise Unsupported(f'not an int: {v!r}')


def to_real(v):
    if isinstance(v, bool): return z3.RealVal(int(v))
    if isinstance(v, (int, Fraction)): return z3.RealVal(str(v))
    if is_z3(v):
        if z3.is_int(v): return z3.ToReal(v)
        return v
    raise Unsupported(f'not a real: {v!r}')


def to_bool(v):
    if isinstance(v, bool): return z3.BoolVal(v)
    if isinstance(v, (int, Fraction)): return z3.BoolVal(v != 0)
    if is_z3(v):
        if z3.is_bool(v): return v
        return v != 0
    if isinstance(v, Ptr): return z3.BoolVal(v.root is not None)
    if isinstance(v, GPtr): return z3.BoolVal(True)
    if isinstance(v, Fn): return z3.BoolVal(True)
    raise Unsupported(f'not a bool: {v!r}')


def py_bool(v):
    """bool when the value is concrete, else None"""
    if isinstance(v, bool): return v
    if isinstance(v, (int, Fraction)): return v != 0
    if isinstance(v, Ptr): return v.root is not None
    if isinstance(v, (GPtr, Fn)): return True
    if is_z3(v):
        if z3.is_true(v): return True
        if z3.is_false(v): return False
        s = z3.simplify(to_bool(v))
        if z3.is_true(s): return True
        if z3.is_false(s): return False
    return None


def is_scalar(v): return isinstance(v, (bool, int, Fraction)) or is_z3(v)


def isnum(v): return isinstance(v, (bool, int, Fraction))


def coerce2(a, b):
    """two scalars -> z3 terms of a common sort"""
    def sort(x):
        if is_z3(x): return 'R' if z3.is_real(x) else 'I' if z3.is_int(x) else 'B'
        if isinstance(x, bool): return 'b'
        if isinstance(x, Fraction): return 'R'
        return 'i'
    s = sort(a) + sort(b)
    if 'R' in s: return to_real(a), to_real(b)
    if s in ('BB', 'Bb', 'bB', 'bb'): return to_bool(a), to_bool(b)
    return to_int(a), to_int(b)


def eq(a, b):
    if isnum(a) and isnum(b): return a == b
    a, b = coerce2(a, b)
    if a.eq(b): return True
    return a == b


def land(*xs):
    r = []
    for x in xs:
        p = x if isinstance(x, bool) else (True if z3.is_true(x) else False if z3.is_false(x) else None)
        if p is False: return False
        if p is None: r.append(x)
    if not r: return True
    return r[0] if len(r) == 1 else z3.And(*r)


def lor(*xs):
    r = []
    for x in xs:
        p = x if isinstance(x, bool) else (True if z3.is_true(x) else False if z3.is_false(x) else None)
        if p is True: return True
        if p is None: r.append(x)
    if not r: return False
    return r[0] if len(r) == 1 else z3.Or(*r)


def lnot(x):
    if isinstance(x, bool): return not x
    return z3.Not(to_bool(x))


class CannotMerge(Exception):
    pass


def ite(c, a, b):
    pc = py_bool(c)
    if pc is True: return a
    if pc is False: return b
    if a is b: return a
    if is_scalar(a) and is_scalar(b):
        if isnum(a) and isnum(b) and a == b and isinstance(a, bool) == isinstance(b, bool): return a
        x, y = coerce2(a, b)
        if x.eq(y): return a
        return z3.If(to_bool(c), x, y)
    if isinstance(a, Undef) or isinstance(b, Undef): return UNDEF
    if isinstance(a, Obj) and isinstance(b, Obj) and a.cls == b.cls and a.f.keys() == b.f.keys():
        return Obj(a.cls, {k: ite(c, a.f[k], b.f[k]) for k in a.f})
    if isinstance(a, Arr) and isinstance(b, Arr) and len(a.items) == len(b.items):
        return Arr(ite(c, x, y) for x, y in zip(a.items, b.items))
    if isinstance(a, Vec) and isinstance(b, Vec):
        if a.items is not None and b.items is not None and len(a.items) == len(b.items):
            return Vec(items=[ite(c, x, y) for x, y in zip(a.items, b.items)])
        n = ite(c, a.n, b.n)
        return Vec(n=n, get=lambda i: ite(c, a.get(i), b.get(i)))
    if isinstance(a, Ptr) and a.same(b): return a
    if isinstance(a, GPtr) and isinstance(b, GPtr) and a.ghost.kind == b.ghost.kind:
        return GPtr(Ghost(a.ghost.kind, a.ghost.cls, [ite(c, x, y) for x, y in zip(a.ghost.args, b.ghost.args)]))
    if isinstance(a, Iter) and isinstance(b, Iter) and (a.root, a.path) == (b.root, b.path):
        return Iter(a.root, a.path, ite(c, a.idx, b.idx))
    if isinstance(a, Str) and isinstance(b, Str) and a.parts == b.parts: return a
    if isinstance(a, Ref) and isinstance(b, Ref) and (a.root, a.path) == (b.root, b.path): return a
    if isinstance(a, Opaque) and isinstance(b, Opaque): return a
    if isinstance(a, Any) and isinstance(b, Any) and a.type == b.type: return Any(a.type, ite(c, a.val, b.val))
    if isinstance(a, Fn) and isinstance(b, Fn) and a.key == b.key: return a
    if isinstance(a, z3.ArrayRef) and isinstance(b, z3.ArrayRef): return z3.If(to_bool(c), a, b)
    raise CannotMerge(f'{type(a).__name__}/{type(b).__name__}')


def leaves(v, path=()):
    """scalar leaves and vectors of a value, with their paths"""
    if isinstance(v, Obj):
        for k, x in v.f.items(): yield from leaves(x, path + (k,))
    elif isinstance(v, Arr):
        for k, x in enumerate(v.items): yield from leaves(x, path + (k,))
    else:
        yield path, v


def get_path(v, path):
    for p in path:
        v = step(v, p)
    return v


def step(v, p):
    if isinstance(v, Obj):
        if p not in v.f: raise Unsupported(f'no field {p} in {v.cls}')
        return v.f[p]
    if isinstance(v, Arr):
        ci = conc_int(p)
        if ci is None: ci = conc_int(simp(p))
        if ci is not None:
            if not 0 <= ci < len(v.items): raise Unsupported('array index out of bounds')
            return v.items[ci]
        r = v.items[-1]
        for j in range(len(v.items) - 2, -1, -1): r = ite(p == j, v.items[j], r)
        return r
    if isinstance(v, (Vec, Str)): return v.get(p)
    raise Unsupported(f'cannot descend into {type(v).__name__} by {p}')


def set_path(v, path, new):
    if not path: return new
    p, rest = path[0], path[1:]
    if isinstance(v, Obj): return v.with_field(p, set_path(v.f.get(p, UNDEF), rest, new))
    if isinstance(v, Arr):
        ci = conc_int(p)
        if ci is None: ci = conc_int(simp(p))
        l = list(v.items)
        if ci is not None:
            if not 0 <= ci < len(l): raise Unsupported('array store out of bounds')
            l[ci] = set_path(l[ci], rest, new)
        else:
            for j in range(len(l)): l[j] = ite(p == j, set_path(l[j], rest, new), l[j])
        return Arr(l)
    if isinstance(v, Vec): return v.set(p, set_path(v.get(p), rest, new) if rest else new)
    if isinstance(v, Str) and not rest: return v.set(p, new)
    raise Unsupported(f'cannot store into {type(v).__name__}')


def val_eq(a, b, idx=None):
    """Conjunction stating two values equal; vectors by a universally quantified index (as fresh bound variable)."""
    if is_scalar(a) and is_scalar(b): return eq(a, b)
    if isinstance(a, Obj) and isinstance(b, Obj):
        if a.f.keys() != b.f.keys(): return False
        return land(*[val_eq(a.f[k], b.f[k]) for k in a.f])
    if isinstance(a, Arr) and isinstance(b, Arr):
        if len(a.items) != len(b.items): return False
        return land(*[val_eq(x, y) for x, y in zip(a.items, b.items)])
    if isinstance(a, Vec) and isinstance(b, Vec):
        if a.items is not None and b.items is not None:
            if len(a.items) != len(b.items): return False
            return land(*[val_eq(x, y) for x, y in zip(a.items, b.items)])
        i = fresh('vi')
        body = val_eq(a.get(i), b.get(i))
        if isinstance(body, bool): body = z3.BoolVal(body)
        return land(eq(a.n, b.n), z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < to_int(a.n)), body)))
    if isinstance(a, Ptr) and isinstance(b, Ptr): return a.same(b)
    if isinstance(a, GPtr) and isinstance(b, GPtr):
        if a.ghost.kind != b.ghost.kind: return False
        return land(*[eq(x, y) if is_scalar(x) and not isinstance(x, z3.ArrayRef) else x == y for x, y in zip(a.ghost.args, b.ghost.args)])
    if isinstance(a, Str) and isinstance(b, Str): return a.parts == b.parts
    if isinstance(a, Undef) and isinstance(b, Undef): return True
    if a is b: return True
    raise Unsupported(f'equality of {type(a).__name__} and {type(b).__name__}')
