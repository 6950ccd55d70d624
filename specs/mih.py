"""Contract of util::MultiIndexHandler<D> used by its callers (its bodies are verified in C01). Abstract state: lengths L and a
position, 0 <= position < total(L) wherever it is observed. ++ and -- move the position by one; the digits of a position are
DIG(L, position): in range and with rank(L, digits) = position."""
import z3
from values import *
from C01 import rank, total, mih


def digits(ex, L, pos, concrete=None):
    """the digit terms of a position known to be in range (the facts of C01 are assumed for them)"""
    D = len(L); pos = to_int(pos)
    if D == 1: return [pos]
    c = conc_int(simp(pos))
    Ls = [to_int(l) for l in L]
    cl = [conc_int(simp(l)) for l in Ls]
    if c is not None and None not in cl:
        out = []
        for l in cl: out.append(c % l); c //= l
        return out
    fs = [z3.Function(f'DIG{D}_{j}', *([z3.IntSort()] * (D + 2))) for j in range(D)]
    d = [f(*Ls, pos) for f in fs]
    for l, x in zip(Ls, d): ex.st.pc.append(z3.And(x >= 0, x < l))
    ex.st.pc.append(rank(Ls, d) == pos)
    return d


def known_tuple(items, D):
    """(lengths, position) when the tuple is DIG(lengths, position)"""
    if D == 1: return None
    out = None
    for j, x in enumerate(items):
        if not (is_z3(x) and z3.is_app(x) and x.decl().name() == f'DIG{D}_{j}'): return None
        c = x.children()
        if out is None: out = c
        elif not all(u.eq(v) for u, v in zip(c, out)): return None
    return list(out[:D]), out[D]


def known_shifted(items, D):
    """like known_tuple, for a tuple that differs from DIG(lengths, position) by constants"""
    base = []; sh = []
    for x in items:
        x = to_int(x); d = [y for y in ([x] + (list(x.children()) if z3.is_add(x) else [])) if z3.is_app(y) and y.decl().name().startswith(f'DIG{D}_')]
        if not d: return None
        c = conc_int(z3.simplify(x - d[0]))
        if c is None: return None
        base.append(d[0]); sh.append(c)
    k = known_tuple(base, D)
    return None if k is None else (base, sh) + k


def rank_simp(ex, L, items):
    """linear index of a tuple of the counter with lengths L; lemmas of C01 for tuples that are digits of a position"""
    D = len(L); Ls = [to_int(l) for l in L]; xs = [to_int(x) for x in items]
    k = known_shifted(xs, D) if D > 1 else None
    if k is not None:
        base, sh, M, pos = k
        if not any(sh) and all(z3.simplify(u - v).eq(z3.IntVal(0)) for u, v in zip(Ls, M)): return pos
        p = rank(Ls, xs); p = z3.simplify(p, som=True)
        # monotony: smaller lengths give a smaller linear index of the same tuple; lowering an entry lowers it further
        ex.st.pc.append(z3.Implies(z3.And(*[u <= v for u, v in zip(Ls, M)], *[u >= 1 for u in Ls], *[z3.BoolVal(c <= 0) for c in sh]), p <= pos + sum(sh)))
        return p
    p = rank(Ls, xs)
    return z3.simplify(p, som=True) if is_z3(p) else p


class Handler:
    """installs the contract for all methods of MultiIndexHandler<D>"""

    def __init__(self, a, D):
        self.D = D; self.name = f'MultiIndexHandler<{D}>'; ex = a.ex
        q = mih(D)
        for n, k in (('MultiIndexHandler', 1), ('MultiIndexHandler', 0), ('operator++', 0), ('operator++', 1), ('operator--', 0), ('SetIndices', 1), ('GetIndices', 0), ('GetDifferenceIndices', 0),
                     ('operator[]', 1), ('Get1DIndex', 0), ('Get1DIndex', 1), ('Get1DIndex', 2), ('Get1DLength', 0), ('ExtractDimension', 1)):
            ex.contracts[(q + '::' + n, k)] = One(self, n, k)


class One:
    def __init__(self, h, n, k): self.h, self.n, self.k = h, n, k; self.name = h.name + '::' + n

    def applies(self, ex, this, args): return True

    def apply(self, ex, this, args, f):
        D = self.h.D; n = self.n; vals = [ex.load(x) if isinstance(x, Ref) else x for x in args]
        if n == 'MultiIndexHandler':
            if self.k == 0: raise Unsupported('default counter')
            if isinstance(vals[0], Obj): ex.store(this, vals[0]); return None      # copy
            L = vals[0]
            for l in L.items: ex.oblige('counter lengths are positive', ex.cmp('>=', l, 1))
            ex.store(this, Obj(mih(D), {'L': L, 'pos': 0})); return None
        if n == 'Get1DIndex' and self.k == 2: return simp(rank_simp(ex, list(vals[0].items), list(vals[1].items)))
        o = ex.load(this)
        if 'pos' not in o.f: raise Unsupported('counter made outside the contract')
        L = list(o.f['L'].items); pos = o.f['pos']; T = total(L)
        if n == 'Get1DLength': return simp(T) if is_z3(T) else T
        if n == 'Get1DIndex' and self.k == 1: return simp(rank_simp(ex, L, list(vals[0].items)))
        if n in ('operator++', 'operator--'):
            # the position is observed only inside [0, total): one step past an end is the wrapped one
            r = Obj(o.cls, {'L': o.f['L'], 'pos': ex.int_op('+' if n == 'operator++' else '-', pos, 1)})
            ex.store(this, r)
            return o if self.k == 1 else this
        if n == 'SetIndices':
            items = list(vals[0].items)
            for l, x in zip(L, items): ex.oblige('indices set inside the counter', land(ex.cmp('>=', x, 0), ex.cmp('<', x, l)))
            p = rank_simp(ex, L, items)
            ex.assume(land(ex.cmp('>=', p, 0), ex.cmp('<', p, T)))      # lemma of C01: the linear index of a tuple inside lies inside
            ex.store(this, Obj(o.cls, {'L': o.f['L'], 'pos': simp(p)})); return None
        if n == 'Get1DIndex': self.inside(ex, pos, T); return pos
        self.inside(ex, pos, T)
        d = digits(ex, L, pos)
        if n == 'GetIndices': return Arr(d)
        if n == 'GetDifferenceIndices': return Arr([ex.int_op('-', ex.int_op('-', l, x), 1) for l, x in zip(L, d)])
        if n == 'operator[]':
            i = conc_int(vals[0])
            if i is None: raise Unsupported('symbolic direction')
            return d[i]
        if n == 'ExtractDimension':
            i = conc_int(vals[0])
            if i is None: raise Unsupported('symbolic direction')
            rest = [j for j in range(D) if j != i]
            r = rank([to_int(L[j]) for j in rest], [to_int(d[j]) for j in rest])
            return simp(r) if is_z3(r) else r
        raise Unsupported(n)

    def inside(self, ex, pos, T):
        ex.oblige('counter observed inside its range', land(ex.cmp('>=', pos, 0), ex.cmp('<', pos, T)))
        ex.assume(land(ex.cmp('>=', pos, 0), ex.cmp('<', pos, T)))
