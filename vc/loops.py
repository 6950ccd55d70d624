"""Loops with a symbolic number of iterations.

The state after k iterations is described in closed form, found by solving the recurrence of one symbolic iteration, and the
description is then itself an obligation: started in the state described for an arbitrary k, one iteration has to end in the
state described for k+1. A loop whose recurrence is not of a known form is Unsupported (never a verdict)."""
import z3
from fractions import Fraction
from values import *
import values as V
import execu

ASum_R = z3.Function('Sum', z3.ArraySort(z3.IntSort(), z3.RealSort()), z3.IntSort(), z3.RealSort())
ASum_I = z3.Function('SumI', z3.ArraySort(z3.IntSort(), z3.IntSort()), z3.IntSort(), z3.IntSort())
AProd_R = z3.Function('Prod', z3.ArraySort(z3.IntSort(), z3.RealSort()), z3.IntSort(), z3.RealSort())
AProd_I = z3.Function('ProdI', z3.ArraySort(z3.IntSort(), z3.IntSort()), z3.IntSort(), z3.IntSort())
LJ = z3.Int('lj')


def lam(f):
    """canonical lambda for a Python function of an index term"""
    j = fresh('lj'); b = f(j)
    return z3.Lambda([LJ], z3.substitute(b, (j, LJ)))       # one name, so that equal functions are equal terms


def Sum(f, n, sort='R'):
    cn = n if isinstance(n, int) else conc_int(simp(n))
    if cn is not None and cn <= 0: return Fraction(0) if sort == 'R' else 0
    body = (lambda j: to_real(f(j))) if sort == 'R' else (lambda j: to_int(f(j)))
    if cn is not None and cn <= 64:
        t = body(z3.IntVal(0))
        for j in range(1, cn): t = t + body(z3.IntVal(j))
        return simp(t)
    return (ASum_R if sort == 'R' else ASum_I)(lam(body), to_int(n))


def Prod(f, n, sort='R'):
    body = (lambda j: to_real(f(j))) if sort == 'R' else (lambda j: to_int(f(j)))
    cn = n if isinstance(n, int) else conc_int(simp(n))
    if cn is not None and cn <= 64:
        t = z3.RealVal(1) if sort == 'R' else z3.IntVal(1)
        for j in range(cn): t = t * body(z3.IntVal(j))
        return simp(t)
    return (AProd_R if sort == 'R' else AProd_I)(lam(body), to_int(n))


# ---------------------------------------------------------------- substitution on values
def sub(v, pairs, fpairs=()):
    """substitute in a value; pairs: (const, term); fpairs: (FuncDecl, Python function of the argument terms)"""
    if is_z3(v):
        r = v
        if fpairs: r = sub_funs(r, fpairs)
        if pairs: r = z3.substitute(r, *pairs)
        return r
    if isnum(v) or isinstance(v, (Undef, Fn, Lam, Functor, Opaque)): return v
    if isinstance(v, Obj): return Obj(v.cls, {k: sub(x, pairs, fpairs) for k, x in v.f.items()})
    if isinstance(v, Arr): return Arr(sub(x, pairs, fpairs) for x in v.items)
    if isinstance(v, Vec):
        if v.items is not None: return Vec(items=[sub(x, pairs, fpairs) for x in v.items])

        def get(i):
            z = fresh('z')
            return sub(sub(v.get(z), pairs, fpairs), [(z, to_int(i))])
        return Vec(n=sub(v.n, pairs, fpairs), get=get)
    if isinstance(v, GPtr): return GPtr(Ghost(v.ghost.kind, v.ghost.cls, [sub(x, pairs, fpairs) for x in v.ghost.args]))
    if isinstance(v, Ghost): return Ghost(v.kind, v.cls, [sub(x, pairs, fpairs) for x in v.args])
    if isinstance(v, Ptr): return Ptr(v.root, tuple(sub(p, pairs, fpairs) if is_z3(p) else p for p in v.path)) if v.root is not None else v
    if isinstance(v, Iter): return Iter(v.root, v.path, sub(v.idx, pairs, fpairs))
    if isinstance(v, Str): return v
    if isinstance(v, Any): return v
    raise Unsupported('substitution in ' + type(v).__name__)


def sub_funs(t, fpairs):
    """replace applications of the given functions (bottom-up)"""
    decls = {d.name(): f for d, f in fpairs}
    memo = {}

    def go(t):
        i = t.get_id()
        if i in memo: return memo[i]
        if z3.is_quantifier(t):
            if not mentions(t, decls): r = t
            else: raise Unsupported('substitution under a quantifier')
        elif z3.is_app(t):
            ch = [go(c) for c in t.children()]
            if t.decl().kind() == z3.Z3_OP_UNINTERPRETED and t.decl().name() in decls: r = decls[t.decl().name()](*ch)
            elif all(a.eq(b) for a, b in zip(ch, t.children())): r = t
            else: r = t.decl()(*ch)
        else: r = t
        memo[i] = r
        return r
    return go(t)


def mentions(t, names):
    seen = set(); todo = [t]
    while todo:
        t = todo.pop()
        if t.get_id() in seen: continue
        seen.add(t.get_id())
        if z3.is_quantifier(t): todo.append(t.body()); continue
        if z3.is_app(t):
            if t.decl().kind() == z3.Z3_OP_UNINTERPRETED and t.decl().name() in names: return True
            todo.extend(t.children())
    return False


def terms_of(v):
    """z3 terms inside a value (vectors are probed at a generic index)"""
    if is_z3(v): yield v
    elif isinstance(v, Obj):
        for x in v.f.values(): yield from terms_of(x)
    elif isinstance(v, Arr):
        for x in v.items: yield from terms_of(x)
    elif isinstance(v, Vec):
        if v.items is not None:
            for x in v.items: yield from terms_of(x)
        else:
            if is_z3(v.n): yield v.n
            yield from terms_of(v.get(fresh('z')))
    elif isinstance(v, GPtr):
        for x in v.ghost.args: yield from terms_of(x)
    elif isinstance(v, Iter): yield from terms_of(v.idx)
    elif isinstance(v, Ptr):
        for p in v.path: yield from terms_of(p)


def value_mentions(v, names): return any(mentions(t, names) for t in terms_of(v))


def same_leaf(a, b):
    if a is b: return True
    if is_scalar(a) and is_scalar(b):
        if isnum(a) and isnum(b): return a == b and isinstance(a, bool) == isinstance(b, bool)
        if is_z3(a) and is_z3(b): return a.eq(b)
        return False
    if isinstance(a, Ptr): return a.same(b)
    if isinstance(a, Iter) and isinstance(b, Iter): return (a.root, a.path) == (b.root, b.path) and same_leaf(a.idx, b.idx)
    if isinstance(a, Vec) and isinstance(b, Vec):
        if a.items is not None and b.items is not None: return len(a.items) == len(b.items) and all(same_val(x, y) for x, y in zip(a.items, b.items))
        return False
    if isinstance(a, Str) and isinstance(b, Str): return a.parts == b.parts
    if isinstance(a, Ghost) and isinstance(b, Ghost): return a.kind == b.kind and all(same_leaf(x, y) for x, y in zip(a.args, b.args))
    if isinstance(a, GPtr) and isinstance(b, GPtr): return same_leaf(a.ghost, b.ghost)
    return False


def same_val(a, b):
    la, lb = list(leaves(a)), list(leaves(b))
    return len(la) == len(lb) and all(p == q and same_leaf(x, y) for (p, x), (q, y) in zip(la, lb))


def xleaves(v, elementwise, pre=()):
    """leaves; vectors whose (path) is in elementwise are opened"""
    for p, x in leaves(v):
        if isinstance(x, Vec) and x.items is not None and pre + p in elementwise:
            for j, it in enumerate(x.items): yield from xleaves(it, elementwise, pre + p + (j,))
        elif isinstance(x, Iter): yield pre + p + ('$it',), x
        else: yield pre + p, x


class PH:
    """placeholder of a modified leaf"""

    def __init__(self, root, path, v0): self.root, self.path, self.v0 = root, path, v0


def elem_fn(shape, name, idx_sorts):
    """a generic element with the shape of the sample: returns (function of index terms -> value, list of FuncDecls)"""
    if is_scalar(shape):
        s = 'Bool' if isinstance(shape, bool) or (is_z3(shape) and z3.is_bool(shape)) else 'Int' if isinstance(shape, int) or (is_z3(shape) and z3.is_int(shape)) else 'Real'
        F = fresh_fn(name, *idx_sorts, s)
        return (lambda *i: F(*[to_int(x) for x in i])), [F]
    if isinstance(shape, Obj):
        parts = {k: elem_fn(x, name + '.' + str(k), idx_sorts) for k, x in shape.f.items()}
        return (lambda *i: Obj(shape.cls, {k: p[0](*i) for k, p in parts.items()})), sum([p[1] for p in parts.values()], [])
    if isinstance(shape, Arr):
        parts = [elem_fn(x, name + str(k), idx_sorts) for k, x in enumerate(shape.items)]
        return (lambda *i: Arr(p[0](*i) for p in parts)), sum([p[1] for p in parts], [])
    if isinstance(shape, Vec):
        if shape.items is not None and not shape.items: raise Unsupported('element shape unknown')
        inner = shape.get(fresh('z')) if shape.items is None else shape.items[0]
        N = fresh_fn(name + '.n', *idx_sorts, 'Int')
        g, ds = elem_fn(inner, name + '.e', tuple(idx_sorts) + ('Int',))
        return (lambda *i: Vec(n=N(*[to_int(x) for x in i]), get=lambda j: g(*i, j))), [N] + ds
    if isinstance(shape, GPtr):
        parts = [elem_fn(x, name + '.g', idx_sorts) for x in shape.ghost.args]
        return (lambda *i: GPtr(Ghost(shape.ghost.kind, shape.ghost.cls, [p[0](*i) for p in parts]))), sum([p[1] for p in parts], [])
    raise Unsupported('element shape ' + type(shape).__name__)


def chain(v, base):
    """operations leading from base to v, oldest first; None if v is not derived from base"""
    ops = []
    while v is not base:
        if v is None or v.parent is None: return None
        ops.append(v.op); v = v.parent
    return ops[::-1]


def summarise(ex, cond, body, inc, node):
    ex.stats['loops'] += 1
    S0 = ex.st.clone(); base_roots = set(S0.mem)
    elementwise = {}      # root -> set of paths
    mod = {}              # (root, path) -> PH
    shapes = {}           # (root, path) -> sample element
    rec = ex.record; ex.record = False; by_invariant = False

    def place(ph_map):
        st = S0.clone()
        for (r, p), ph in ph_map.items(): write(st, r, p, ph.val)
        return st

    def write(st, r, p, val):
        if p and p[-1] == '$it':
            old = get_path(st.mem[r], p[:-1])
            st.mem[r] = set_path(st.mem[r], p[:-1], Iter(old.root, old.path, val))
        else: st.mem[r] = set_path(st.mem[r], p, val)

    def read(st, r, p):
        if p and p[-1] == '$it': return get_path(st.mem[r], p[:-1]).idx
        return get_path(st.mem[r], p)

    def make_ph(key, v0, sample=None):
        r, p = key; ph = PH(r, p, v0); name = f'L{r}'
        if is_scalar(v0) or isinstance(v0, Undef):
            s = sample if isinstance(v0, Undef) else v0
            if isinstance(v0, Undef) and not is_scalar(sample): raise Unsupported('uninitialised loop variable')
            both = [x for x in (s, sample) if x is not None]
            sort = 'Bool' if all(isinstance(x, bool) or (is_z3(x) and z3.is_bool(x)) for x in both) else 'Real' if any(isinstance(x, Fraction) or (is_z3(x) and z3.is_real(x)) for x in both) else 'Int'
            ph.val = fresh(name, sort); ph.kind = 'scalar'; ph.sort = sort; ph.names = {ph.val.decl().name()}
        elif isinstance(v0, Vec):
            smp = shapes.get(key)
            if smp is None and v0.items: smp = v0.items[0]
            if smp is None and v0.items is None: smp = v0.get(fresh('z'))
            if smp is None: raise Unsupported('element shape unknown')
            g, ds = elem_fn(smp, name, ('Int',))
            n = fresh(name + 'n')
            ph.val = Vec(n=n, get=lambda i: g(i)); ph.kind = 'vec'; ph.n = n; ph.decls = ds
            ph.names = {d.name() for d in ds} | {n.decl().name()}
        else: raise Unsupported('loop modifies a ' + type(v0).__name__)
        return ph

    def iteration():
        c = cond()
        if not ex.choose(c): raise execu.PathDead()
        try: body()
        except execu.ContinueEx: pass
        inc()
        return None
    try:
        for rnd in range(12):
            st = place(mod)
            outs = ex.explore(iteration, st)
            new = {}
            for o in outs:
                if o.kind != 'normal': continue
                for r in base_roots:
                    a, b = st.mem[r], o.st.mem[r]
                    if a is b: continue
                    ew = elementwise.get(r, ())
                    la = dict(xleaves(a, ew)); lb = dict(xleaves(b, ew))
                    if la.keys() != lb.keys(): raise Unsupported('loop changes the shape of a value')
                    for p in la:
                        x, y = la[p], lb[p]
                        if isinstance(x, Iter):
                            if not isinstance(y, Iter) or (x.root, x.path) != (y.root, y.path): raise Unsupported('iterator reseated in loop')
                            x, y = x.idx, y.idx
                        if same_leaf(x, y): continue
                        if (r, p) in mod: continue
                        if isinstance(x, Vec) and x.items is not None and isinstance(y, Vec) and y.items is not None and len(x.items) == len(y.items) and 0 < len(x.items) <= 40:
                            elementwise.setdefault(r, set()).add(p); new[None] = None; continue
                        if isinstance(x, Vec) and isinstance(y, Vec):
                            if y.items is not None and y.items: shapes[(r, p)] = y.items[-1]
                            elif y.op: shapes[(r, p)] = y.op[-1]
                        new[(r, p)] = (x, y)
            if not new: break
            for key, xy in new.items():
                if key is None: continue
                mod[key] = make_ph(key, xy[0], xy[1])
        else: raise Unsupported('loop analysis does not settle')
        base_n = len(S0.pc)
        st = place(mod); c0 = V.COUNTER[0]
        outs = ex.explore(iteration, st)
        normal = [o for o in outs if o.kind == 'normal']
        early = [o for o in outs if o.kind != 'normal']
        # condition on the placeholder state
        couts = ex.explore(lambda: cond(), st)
        if len(couts) != 1: raise Unsupported('loop condition forks')
        cval = to_bool(couts[0].val)
        guards = [o.st.pc[base_n:] for o in normal]
        common = set.intersection(*[{c.get_id() for c in g} for g in guards]) if guards else set()
        guards = [[c for c in g if c.get_id() not in common] for g in guards]      # facts that hold on every path say nothing

        def merged(f):
            val = f(normal[-1])
            for o, g in reversed(list(zip(normal[:-1], guards[:-1]))): val = ite(z3.And(*g), f(o), val)
            return val
        k = fresh('k'); sol = {}     # key -> function of k
        allnames = set().union(*[ph.names for ph in mod.values()]) if mod else set()
        unsolved = dict(mod)

        def subst_solved(v, kk):
            pairs = []; fp = []
            for key, fnk in sol.items():
                ph = mod[key]; val = fnk(kk)
                if ph.kind == 'scalar': pairs.append((ph.val, {'Int': to_int, 'Real': to_real, 'Bool': to_bool}[ph.sort](val)))
                else:
                    pairs.append((ph.n, to_int(val.n)))
                    fp += decl_subst(ph, val)
            return sub(v, pairs, fp)

        def decl_subst(ph, val):
            """map the generic element functions of ph to the elements of val"""
            z = fresh('z'); tmpl = ph.val.get(z); out = []

            def walk(t, pick):
                if is_z3(t):
                    d = t.decl(); nargs = d.arity()
                    out.append((d, lambda *a, pick=pick, d=d: coerce_to(pick(a), d.range())))
                elif isinstance(t, Obj):
                    for f in t.f: walk(t.f[f], lambda a, pick=pick, f=f: pick(a).f[f])
                elif isinstance(t, Arr):
                    for j in range(len(t.items)): walk(t.items[j], lambda a, pick=pick, j=j: pick(a).items[j])
                elif isinstance(t, Vec):
                    depth = len(t.n.children())
                    walk(t.n, lambda a, pick=pick: pick(a).n)
                    walk(t.get(fresh('z')), lambda a, pick=pick, depth=depth: pick(a).get(a[depth]))
                elif isinstance(t, GPtr):
                    for j in range(len(t.ghost.args)): walk(t.ghost.args[j], lambda a, pick=pick, j=j: pick(a).ghost.args[j])
            walk(tmpl, lambda a: val.get(a[0]))
            return out
        # a vector whose elements are only stored to keeps its size
        fixed = []
        for key, ph in mod.items():
            if ph.kind == 'scalar': continue
            ch = [chain(read(o.st, *key), ph.val) for o in normal]
            if all(c is not None and all(op[0] == 'set' for op in c) for c in ch): fixed.append((ph.n, to_int(ph.v0.n)))
        fixed_names = {x.decl().name() for x, _ in fixed}
        subst_solved0 = subst_solved

        def subst_solved(v, kk): return subst_solved0(sub(v, fixed), kk) if fixed else subst_solved0(v, kk)
        progress = True
        while unsolved and progress:
            progress = False
            for key, ph in list(unsolved.items()):
                others = set().union(*[q.names for kk, q in unsolved.items() if kk != key]) - fixed_names if len(unsolved) > 1 else set()
                fn = solve_one(ex, key, ph, merged, normal, read, lambda v: subst_solved(v, k), k, others, c0)
                if fn is not None:
                    sol[key] = fn; del unsolved[key]; progress = True
        if unsolved and ex.invariants: by_invariant = True
        elif unsolved:
            raise Unsupported('loop recurrence not solved for %s' % [(k_, str(merged(lambda o: read(o.st, *k_)))[:200]) for k_ in unsolved])
        C = lambda kk: simp(to_bool(subst_solved(cval, kk)))
        if by_invariant:
            free = list(unsolved); counted = not mentions(cval, set().union(*[ph.names for ph in unsolved.values()]))

            def havoc(kk):
                st = S0.clone()
                for key, fnk in sol.items(): write(st, key[0], key[1], fnk(kk))
                for key in free:
                    ph = mod[key]
                    if ph.kind == 'scalar': val = fresh('h', ph.sort)
                    else: val = Vec(n=fresh('hn'), get=(lambda g: lambda i: g(i))(elem_fn(ph.val.get(fresh('z')), 'h', ('Int',))[0]))
                    write(st, key[0], key[1], val)
                return st
            roots = list(dict.fromkeys(r for r, _ in free))
            forms = lambda st: [to_bool(f) for c in ex.invariants for f in c([st.mem[r] for r in roots])]

            def holds(pc, f):
                s = z3.Solver(); s.set('timeout', 3000); s.add(*[c for c in pc]); s.add(z3.Not(f))
                return s.check() == z3.unsat
            n, nfacts = trip_count(ex, C, k) if counted else (None, [])
            here = lambda kk: [kk >= 0] + ([kk < to_int(n)] if counted else [])
            active = [i for i, f in enumerate(forms(S0)) if holds(S0.pc, f)]
            while True:
                st = havoc(k); fs = forms(st); st.pc = st.pc + nfacts + here(k) + [fs[i] for i in active]; drop = set()
                for o in ex.explore(iteration, st):
                    if o.kind != 'normal': continue
                    fs = forms(o.st); drop |= {i for i in active if i not in drop and not holds(o.st.pc, fs[i])}
                if not drop: break
                active = [i for i in active if i not in drop]
    finally: ex.record = rec
    if by_invariant:
        if not counted and not ex.loop_bound: raise Unsupported('loop without a bound on its iterations')
        fs = forms(S0)
        for i in active: ex.oblige('loop invariant holds before the loop', fs[i])
        kv = fresh('k'); st = havoc(kv); fs = forms(st); st.pc = st.pc + nfacts + here(kv) + [fs[i] for i in active]; st.next = max(st.next, ex.st.next)

        def verify_inv():
            c = cond()
            if counted: ex.oblige('loop condition holds before the computed trip count', c)
            ex.assume(c)
            try: body()
            except execu.ContinueEx: pass
            inc(); fs = forms(ex.st)
            for i in active: ex.oblige('loop invariant is kept', fs[i])
            for key, fnk in sol.items(): ex.oblige('loop description is inductive', generic_eq(read(ex.st, *key), fnk(kv + 1)))
            if not counted: ex.oblige(f'the loop ends after at most {ex.loop_bound} iterations', kv + 1 < ex.loop_bound)
        for o in ex.explore(verify_inv, st): pass
        kk = fresh('k'); ex.st.pc.extend(nfacts); pc0 = list(ex.st.pc)
        if early and ex.choose(fresh('left', 'Bool')):
            st = havoc(kk); fs = forms(st); ex.st.mem = st.mem; ex.st.pc.extend(here(kk) + [fs[i] for i in active]); ex.assume(cond())
            try: body()
            except execu.ContinueEx: raise execu.PathDead()
            except execu.BreakEx: return
            raise execu.PathDead()
        st = havoc(to_int(n) if counted else kk); fs = forms(st); ex.st.mem = st.mem; ex.st.pc.extend([kk >= 0] + [fs[i] for i in active])
        ex.assume(lnot(cond()))
        return
    try:
        ext = [f for fnk in sol.values() for f in getattr(fnk, 'facts', ())]
        ex.st.pc.extend(ext); S0.pc.extend(ext)
        n, nfacts = trip_count(ex, C, k)
        E = []
        for o in early:
            g = z3.And(*[to_bool(x) for x in o.st.pc[base_n:]]) if len(o.st.pc) > base_n else z3.BoolVal(True)
            if fresh_since(g, c0) & set(): pass
            E.append(g)
        Eany = (lambda kk: to_bool(subst_solved(z3.Or(*E), kk))) if E else None
    finally:
        ex.record = rec

    def state_at(kk):
        st = S0.clone()
        for key, fnk in sol.items(): write(st, key[0], key[1], fnk(kk))
        return st
    # the description is inductive, and the body is safe in every iteration
    kv = fresh('k'); st = state_at(kv)
    st.next = max(st.next, ex.st.next)
    st.pc = st.pc + nfacts + [kv >= 0, kv < to_int(n)]
    if Eany is not None:
        q = fresh('q'); st.pc.append(z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < kv), z3.Not(Eany(q)))))
    def verify_iter():
        c = cond(); ex.oblige('loop condition holds before the computed trip count', c); ex.assume(c)
        try: body()
        except execu.ContinueEx: pass
        inc()
        for key, fnk in sol.items():
            now = read(ex.st, *key); want = fnk(kv + 1)
            ex.oblige('loop description is inductive', generic_eq(now, want))
    for o in ex.explore(verify_iter, st): pass
    # leave the loop
    ex.st.pc.extend(nfacts)
    if Eany is not None:
        left = fresh('left', 'Bool')
        if ex.choose(left):
            ks = fresh('k'); s2 = state_at(ks)
            ex.st.mem = s2.mem
            q = fresh('q')
            ex.st.pc.append(z3.And(ks >= 0, ks < to_int(n))); ex.st.pc.append(z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < ks), z3.Not(Eany(q)))))
            ex.st.pc.append(Eany(ks))
            c = cond(); ex.assume(c)
            try: body()
            except execu.ContinueEx: raise execu.PathDead()
            except execu.BreakEx: return
            raise execu.PathDead()     # paths that do not leave are covered by the other case
        q = fresh('q')
        ex.st.pc.append(z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < to_int(n)), z3.Not(Eany(q)))))
    ex.st.mem = state_at(n).mem
    ex.st.next = max(ex.st.next, st.next)
    c = cond()
    ex.oblige('loop condition fails at the computed trip count', lnot(c))
    ex.assume(lnot(c))


def coerce_to(v, sort):
    if sort == z3.RealSort(): return to_real(v)
    if sort == z3.IntSort(): return to_int(v)
    return to_bool(v)


def generic_eq(a, b):
    if isinstance(a, Vec) or isinstance(b, Vec):
        if a.items is not None and b.items is not None and len(a.items) == len(b.items): return land(*[generic_eq(x, y) for x, y in zip(a.items, b.items)])
        i = fresh('gi')
        el = generic_eq(a.get(i), b.get(i))
        return land(eq(a.n, b.n), lor(to_int(i) < 0, to_int(i) >= to_int(a.n), el))
    if isinstance(a, Obj): return land(*[generic_eq(a.f[k], b.f[k]) for k in a.f])
    if isinstance(a, Arr): return land(*[generic_eq(x, y) for x, y in zip(a.items, b.items)])
    return val_eq(a, b)


def minus(t, p):
    """t - p with the subtraction pushed into conditionals"""
    if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_ITE:
        c, a, b = t.children()
        return z3.If(c, minus(a, p), minus(b, p))
    return z3.simplify(t - p, som=True)


def solve_one(ex, key, ph, merged, normal, read, close, k, others, c0):
    if ph.kind == 'scalar':
        T = merged(lambda o: read(o.st, *key))
        if isinstance(T, Undef): return None
        T = {'Int': to_int, 'Real': to_real, 'Bool': to_bool}[ph.sort](T)
        if mentions(T, others): return None
        T = close(T)
        p = ph.val; nm = {p.decl().name()}; v0 = ph.v0
        if ph.sort == 'Int' and has_ite_on(T, nm): T = reduce_ite(ex, T, [p >= 0, k >= 0])      # a guess for unsigned counters; the induction step proves it
        if fresh_since(T, c0) - {k.decl().name()}:
            bad = fresh_since(T, c0) - {k.decl().name()}
            if ex.invariants: return None
            raise Unsupported(f'loop variable depends on values made in the iteration: {bad}')
        if not mentions(T, nm):
            f = lambda kk: sub(T, [(k, to_int(kk) - 1)])
            T1 = z3.simplify(T)
            if not mentions(T1, {k.decl().name()}):
                return lambda kk: ite(eq(simp(kk) if is_z3(kk) else kk, 0), v0, simp(T1)) if not isinstance(v0, Undef) else simp(T1)
            if isinstance(v0, Undef): return lambda kk: simp(f(kk))
            # frequently the closed form already covers k = 0
            at0 = simp(f(z3.IntVal(0)))
            if same_leaf(at0, simp(v0) if is_z3(v0) else v0): return lambda kk: simp(f(kk))
            return lambda kk: ite(eq(kk, 0), v0, simp(f(kk)))
        if isinstance(v0, Undef): return None
        if ph.sort in ('Int', 'Real'):
            d = z3.simplify(minus(T, p))
            if not mentions(d, nm):
                if not mentions(d, {k.decl().name()}):
                    cv = {'Int': to_int, 'Real': to_real}[ph.sort]
                    return lambda kk: simp(cv(v0) + d * (to_int(kk) if ph.sort == 'Int' else z3.ToReal(to_int(kk))))
                S = lambda kk: Sum(lambda j: sub(d, [(k, to_int(j))]), kk, 'R' if ph.sort == 'Real' else 'I')
                cv = {'Int': to_int, 'Real': to_real}[ph.sort]
                if isnum(v0) and v0 == 0: return lambda kk: S(kk)
                return lambda kk: simp(cv(v0)) + S(kk) if is_z3(S(kk)) else simp(cv(v0) + cv(S(kk)))
            # product
            c1 = z3.simplify(z3.substitute(T, (p, z3.RealVal(1) if ph.sort == 'Real' else z3.IntVal(1))))
            s = z3.Solver(); s.set('timeout', 2000); s.add(T != c1 * p)
            if s.check() == z3.unsat:
                cv = {'Int': to_int, 'Real': to_real}[ph.sort]
                return lambda kk: simp(cv(v0) * cv(Prod(lambda j: sub(c1, [(k, to_int(j))]), kk, 'R' if ph.sort == 'Real' else 'I')))
            return None if ex.invariants else solve_extremum(T, p, v0, k, ph.sort)
        t1 = z3.simplify(z3.substitute(T, (p, z3.BoolVal(True)))); t0 = z3.simplify(z3.substitute(T, (p, z3.BoolVal(False))))
        j = fresh('bj')
        if z3.is_false(t0):
            return lambda kk: land(v0, z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < to_int(kk)), sub(t1, [(k, j)]))))
        if z3.is_true(t1):
            return lambda kk: lor(v0, z3.Exists([j], z3.And(j >= 0, j < to_int(kk), sub(t0, [(k, j)]))))
        return None
    # vectors
    chains = [chain(read(o.st, *key), ph.val) for o in normal]
    if any(c is None for c in chains): return elementwise_rec(ph, merged(lambda o: read(o.st, *key)) if len(normal) > 1 else read(normal[0].st, *key), close, k, others, c0)
    kinds = {tuple(op[0] for op in c) for c in chains}
    v0 = ph.v0; P = ph.val; own = ph.names; kn = k.decl().name()

    def ok(v):
        ts = list(terms_of(v))
        if any(mentions(t, others) for t in ts): return None
        v = close(v)
        bad = set()
        for t in terms_of(v): bad |= {x for x in fresh_since(t, c0) if x != kn and not x.startswith('z!')}
        if bad: raise Unsupported(f'stored value depends on values made in the iteration: {bad}')
        return v
    if kinds == {('push',)}:
        it = ok(merged_op(normal, chains, lambda op: op[1]))
        if it is None or value_mentions(it, own): return None
        L0 = v0.n

        def fn(kk):
            n = simp(to_int(L0) + to_int(kk))
            if conc_int(L0) == 0: return Vec(n=n, get=lambda i: sub(it, [(k, to_int(i))]))
            return Vec(n=n, get=lambda i: ite(simp(to_int(i) < to_int(L0)), v0.get(i), sub(it, [(k, simp_t(to_int(i) - to_int(L0)))])))
        return fn
    m = max(len(t) for t in kinds)
    if kinds == {('push',) * m} and m > 1:
        its = [ok(merged_op(normal, chains, lambda op, j=j: op[1], j=j)) for j in range(m)]
        if any(x is None or value_mentions(x, own) for x in its): return None
        L0 = v0.n

        def fn(kk):
            n = simp(to_int(L0) + m * to_int(kk))

            def get(i):
                q, r = divmod_lin(simp_t(to_int(i) - to_int(L0)), m)
                cr = conc_int(r)
                if cr is not None: v = sub(its[cr], [(k, q)])
                else:
                    v = sub(its[m - 1], [(k, q)])
                    for j in range(m - 2, -1, -1): v = ite(r == j, sub(its[j], [(k, q)]), v)
                return v if conc_int(L0) == 0 else ite(simp(to_int(i) < to_int(L0)), v0.get(i), v)
            return Vec(n=n, get=get)
        return fn
    if m and all(t in ((), ('set',) * m) for t in kinds):
        idxs = [[op[1] for op in c] for c in chains if c]
        ids = []
        for j in range(m):
            x = ok(idxs[0][j])
            if x is None: return None
            for other in idxs[1:]:
                y = ok(other[j])
                if y is None or not same_leaf(simp(to_int(y)), simp(to_int(x))): return None
            x = reduce_ite(ex, to_int(x), [k >= 0])
            if mentions(x, own): return None
            ids.append(z3.simplify(x, som=True))
        vals = []
        for j in range(m):
            val = ok(merged_op(normal, chains, lambda op: op[2], default=lambda j=j: P.get(idxs[0][j]), j=j))
            if val is None: return None
            vals.append(val)
        a0 = z3.simplify(z3.substitute(ids[0], (k, z3.IntVal(0))), som=True)
        steps = [conc_int(z3.simplify(z3.substitute(x, (k, k + 1)) - x, som=True)) for x in ids]
        offs = [conc_int(z3.simplify(z3.substitute(x, (k, z3.IntVal(0))) - a0, som=True)) for x in ids]
        s = steps[0]
        if s is not None and all(x == s for x in steps) and None not in offs and abs(s) == m and sorted(offs) == list(range(min(offs), min(offs) + m)):
            # every position is stored once; an element read at a position not stored yet has its initial value (a guess that the induction step proves)
            nv = []
            for val in vals:
                if value_mentions(val, own):
                    val = replace_own(val, ph, v0)
                    if val is None: return None
                nv.append(val)
            lo = min(offs); slot = {o - lo: j for j, o in enumerate(offs)}

            def fn(kk):
                def get(i):
                    if s > 0: q, r = divmod_lin(simp_t(to_int(i) - a0 - lo), m)
                    else:
                        q, r = divmod_lin(simp_t(a0 + lo + m - 1 - to_int(i)), m); r = simp_t(m - 1 - r)
                    inside = simp(z3.And(q >= 0, q < to_int(kk)))
                    cr = conc_int(simp(r))
                    if cr is not None: v = sub(nv[slot[cr]], [(k, q)])
                    else:
                        v = sub(nv[slot[m - 1]], [(k, q)])
                        for j in range(m - 2, -1, -1): v = ite(r == j, sub(nv[slot[j]], [(k, q)]), v)
                    return ite(inside, v, v0.get(i))
                return Vec(n=v0.n, get=get)
            return fn
        # accumulation into arbitrary positions
        if m == 1 and is_z3(vals[0]) and z3.is_real(vals[0]):
            idx, val = ids[0], vals[0]
            cur = P.get(idx)
            d = z3.simplify(minus(val, cur))
            if not mentions(d, own):
                def fn(kk):
                    return Vec(n=v0.n, get=lambda i: to_real(v0.get(i)) + Sum(lambda j: z3.If(sub(idx, [(k, to_int(j))]) == to_int(i), sub(d, [(k, to_int(j))]), z3.RealVal(0)), kk))
                return fn
        return None
    return None


def elementwise_rec(ph, new, close, k, others, c0):
    """a vector rebuilt in every iteration (by a loop inside): element by element accumulation, or replacement"""
    if not isinstance(new, Vec) or new.items is not None: return None
    z = fresh('z'); P = ph.val; v0 = ph.v0; own = ph.names; kn = k.decl().name()
    if not to_int(new.n).eq(ph.n): return None
    T = new.get(z)
    if not is_z3(T) or mentions(T, others): return None
    T = close(T)
    if {x for x in fresh_since(T, c0) if x != kn and x != z.decl().name() and x not in own}: return None
    if z3.is_bool(T): return None
    d = z3.simplify(minus(T, P.get(z)))
    if mentions(d, own): return None
    real = z3.is_real(T); cv = to_real if real else to_int

    def fn(kk):
        def get(i):
            di = sub(d, [(z, to_int(i))])
            return simp(cv(v0.get(i)) + cv(Sum(lambda j: sub(di, [(k, to_int(j))]), kk, 'R' if real else 'I')))
        return Vec(n=v0.n, get=get)
    return fn


def divmod_lin(t, m):
    """quotient and remainder by a constant; exact on sums whose other coefficients are multiples of m"""
    if m == 1: return to_int(t), z3.IntVal(0)
    t = z3.simplify(to_int(t), som=True)
    c = conc_int(t)
    if c is not None: return z3.IntVal(c // m), z3.IntVal(c % m)
    args = t.children() if z3.is_add(t) else [t]
    q = []; rest = []; const = 0
    for x in args:
        cx = conc_int(x)
        if cx is not None: const += cx; continue
        if z3.is_mul(x) and z3.is_int_value(x.arg(0)) and x.arg(0).as_long() % m == 0:
            co = x.arg(0).as_long() // m; f = x.children()[1:]
            p = f[0]
            for y in f[1:]: p = p * y
            q.append(co * p)
        else: rest.append(x)
    if not rest:
        s = z3.IntVal(const // m)
        for x in q: s = s + x
        return to_int(simp(s)), z3.IntVal(const % m)
    return t / m, t % m


EXT_USES = []


def extremum_instances(i):
    """instances of the laws of the running extrema met so far, at index i"""
    out = []
    for F, G, w, le, v0, n in EXT_USES:
        i = to_int(i)
        out.append(z3.Implies(z3.And(0 <= i, i < n), le(G(i), F(n))))
        out.append(z3.Implies(n >= 0, z3.Or(F(n) == v0, z3.And(w(n) >= 0, w(n) < n, F(n) == G(w(n))))))
        out.append(z3.Implies(n >= 0, le(v0, F(n))))
    return out


def solve_extremum(T, p, v0, k, sort):
    """x := max(x, g(k)) or min(x, g(k)): the running extremum, known through its defining laws"""
    nm = {p.decl().name()}; cands = {}
    todo = [T]
    while todo:
        t = todo.pop()
        if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_ITE:
            for b in t.children()[1:]:
                if not mentions(b, nm): cands[b.get_id()] = b
                if b.decl().kind() == z3.Z3_OP_ITE: todo.append(b)
    for g in cands.values():
        for up in (True, False):
            s = z3.Solver(); s.set('timeout', 1000); s.add(T != z3.If(g > p if up else g < p, g, p))
            if s.check() != z3.unsat: continue
            F = fresh_fn('ext', 'Int', sort); a, b, w = fresh('a'), fresh('b'), fresh_fn('wit', 'Int', 'Int')
            le = (lambda x, y: x <= y) if up else (lambda x, y: y <= x)
            cv = {'Int': to_int, 'Real': to_real}[sort]; G = lambda j: sub(g, [(k, to_int(j))])
            facts = [F(0) == cv(v0), z3.ForAll([b], z3.Implies(b >= 0, le(cv(v0), F(b))), patterns=[F(b)]),
                     forall_pat([a, b], z3.Implies(z3.And(0 <= a, a < b), le(G(a), F(b))), [F(b)], G(a), a),
                     z3.ForAll([b], z3.Implies(b >= 0, z3.Or(F(b) == cv(v0), z3.And(w(b) >= 0, w(b) < b, F(b) == G(w(b))))), patterns=[F(b)]),
                     z3.ForAll([b], z3.Implies(b >= 0, F(b + 1) == z3.If(G(b) > F(b) if up else G(b) < F(b), G(b), F(b))), patterns=[F(b + 1)])]
            def fn(kk):
                EXT_USES.append((F, G, w, le, cv(v0), to_int(kk)))
                return F(to_int(kk))
            fn.facts = facts
            return fn
    return None


def forall_pat(vs, body, always, t, v):
    """quantifier triggered by the given terms together with an uninterpreted subterm of t that mentions v"""
    todo = [t]; seen = set(); subs = []
    while todo:
        x = todo.pop()
        if x.get_id() in seen or not z3.is_app(x): continue
        seen.add(x.get_id())
        if pattern_ok(x, v) and clean(x): subs.append(x)
        else: todo.extend(x.children())
    try:
        if subs: return z3.ForAll(vs, body, patterns=[z3.MultiPattern(*always, x) for x in subs])
    except z3.Z3Exception: pass
    return z3.ForAll(vs, body)


def clean(t):
    todo = [t]
    while todo:
        x = todo.pop()
        if not z3.is_app(x): return False
        if x.decl().kind() not in (z3.Z3_OP_UNINTERPRETED, z3.Z3_OP_ANUM, z3.Z3_OP_ADD, z3.Z3_OP_SUB, z3.Z3_OP_MUL): return False
        todo.extend(x.children())
    return True


def pattern_ok(t, v):
    return z3.is_app(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED and t.num_args() > 0 and mentions(t, {v.decl().name()})


def has_ite_on(t, names):
    todo = [t]
    while todo:
        x = todo.pop()
        if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_ITE and mentions(x.arg(0), names): return True
        todo.extend(x.children())
    return False


def reduce_ite(ex, t, facts):
    """conditionals decided by the path condition and the given facts are resolved"""
    for _ in range(8):
        found = None; todo = [t]; seen = set()
        while todo and found is None:
            x = todo.pop()
            if x.get_id() in seen or not z3.is_app(x): continue
            seen.add(x.get_id())
            if x.decl().kind() == z3.Z3_OP_ITE:
                c = x.arg(0)
                if not ex.feasible(ex.st.pc + facts + [c]): found = (x, x.arg(2))
                elif not ex.feasible(ex.st.pc + facts + [z3.Not(c)]): found = (x, x.arg(1))
            if found is None: todo.extend(x.children())
        if found is None: return t
        t = z3.simplify(z3.substitute(t, found))
    return t


def simp_t(t):
    r = simp(t)
    return to_int(r)


def merged_op(normal, chains, f, default=None, j=0):
    vals = [(f(c[j]) if c else default()) for c in chains]
    val = vals[-1]
    n0 = min(len(o.st.pc) for o in normal)
    # common prefix of the path conditions
    pcs = [o.st.pc for o in normal]; m = 0
    while m < n0 and all(p[m].eq(pcs[0][m]) for p in pcs): m += 1
    common = set.intersection(*[{c.get_id() for c in p[m:]} for p in pcs])
    for o, v in reversed(list(zip(normal[:-1], vals[:-1]))):
        g = [c for c in o.st.pc[m:] if c.get_id() not in common]
        val = ite(z3.And(*g) if g else True, v, val)
    return val


def replace_own(val, ph, v0):
    """elements of the vector itself -> their initial values"""
    tmpl = ph.val.get(fresh('z')); fp = []

    def walk(t, pick):
        if is_z3(t): fp.append((t.decl(), lambda *a, d=t.decl(): coerce_to(pick(v0.get(a[0])), d.range())))
        elif isinstance(t, Obj):
            for f in t.f: walk(t.f[f], lambda v, f=f: pick(v).f[f])
        elif isinstance(t, Arr):
            for j in range(len(t.items)): walk(t.items[j], lambda v, j=j: pick(v).items[j])
        else: raise Unsupported('vector of ' + type(t).__name__ + ' updated in place')
    walk(tmpl, lambda v: v)
    return sub(val, [(ph.n, to_int(v0.n))], fp)


def trip_count(ex, C, k):
    """number of iterations: solved when the condition is a linear comparison, otherwise characterised"""
    c = C(k)
    if isinstance(c, bool):
        if not c: return 0, []
        raise Unsupported('loop without end')
    t = c
    neg = False
    t = z3.simplify(t, arith_lhs=True)
    if z3.is_not(t): neg = True; t = t.children()[0]
    kind = t.decl().kind() if z3.is_app(t) else None
    if kind in (z3.Z3_OP_LE, z3.Z3_OP_GE, z3.Z3_OP_LT, z3.Z3_OP_GT, z3.Z3_OP_EQ, z3.Z3_OP_DISTINCT) and z3.is_int(t.children()[0]):
        l, r = t.children(); d = l - r
        d0 = z3.simplify(z3.substitute(d, (k, z3.IntVal(0)))); s = conc_int(z3.simplify(z3.substitute(d, (k, k + 1)) - d))
        if s is not None and s != 0:
            # normalise to  d0 + s*k  OP 0
            ops = {z3.Z3_OP_LE: '<=', z3.Z3_OP_GE: '>=', z3.Z3_OP_LT: '<', z3.Z3_OP_GT: '>', z3.Z3_OP_EQ: '==', z3.Z3_OP_DISTINCT: '!='}
            op = ops[kind]
            if neg: op = {'<=': '>', '>=': '<', '<': '>=', '>': '<=', '==': '!=', '!=': '=='}[op]
            if op in ('>', '>='): d0, s = z3.simplify(-d0), -s; op = {'>': '<', '>=': '<='}[op]
            if op == '<=': d0 = z3.simplify(d0 - 1); op = '<'
            if op == '<' and s > 0:      # d0 + s k < 0
                n = z3.simplify(-d0) if s == 1 else z3.simplify((-d0 + (s - 1)) / s)
                if not ex.feasible(ex.st.pc + [n < 0]): return simp(n), []
                return simp(z3.If(n > 0, n, 0)), []
            if op == '!=' and s in (1, -1):
                n = z3.simplify(-d0 if s == 1 else d0)
                if not ex.feasible(ex.st.pc + [n < 0]): return simp(n), []
    n = fresh('trips'); q = fresh('q')
    facts = [n >= 0, z3.Not(to_bool(C(n))), z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < n), to_bool(C(q))))]
    facts.append(z3.Implies(n > 0, to_bool(C(n - 1))))
    ex.assumed_std.add('termination of a loop with a data-dependent condition')
    return n, facts
