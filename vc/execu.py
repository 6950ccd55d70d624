"""Symbolic execution of the exported C++ function bodies, path by path.

Forking is by replay: a path is identified by the list of its branch decisions and every new alternative is executed
again from the start of the enclosing `explore`. Calls to functions under contract use the contract; other functions of
the repository are entered. Anything not modelled raises Unsupported, which is never turned into a verdict."""
from fractions import Fraction
import math, z3
from values import *
from program import parse_type, strip_type, is_ref, is_ptr, INT_TYPES, REAL_TYPES
import values as V


class ReturnEx(Exception):
    def __init__(self, v): self.v = v


class BreakEx(Exception): pass
class ContinueEx(Exception): pass


class ThrowEx(Exception):
    def __init__(self, etype, what=None): self.etype, self.what = etype, what


class PathDead(Exception): pass
class ImpureError(Unsupported): pass


class Frame:
    __slots__ = ('fn', 'this', 'vars', 'name')

    def __init__(self, fn, this, name): self.fn, self.this, self.vars, self.name = fn, this, {}, name

    def clone(self):
        f = Frame(self.fn, self.this, self.name); f.vars = dict(self.vars); return f


class State:
    def __init__(self): self.mem = {}; self.pc = []; self.frames = []; self.next = 1

    def clone(self):
        s = State(); s.mem = dict(self.mem); s.pc = list(self.pc); s.frames = [f.clone() for f in self.frames]; s.next = self.next
        return s


class Dec:
    def __init__(self, prefix): self.prefix = list(prefix); self.pos = 0; self.pending = []

    @property
    def replaying(self): return self.pos < len(self.prefix)


class Outcome:
    def __init__(self, kind, val, st, etype=None): self.kind, self.val, self.st, self.etype = kind, val, st, etype


class Obligation:
    def __init__(self, fn, kind, hyps, goal, loc, facts=()):
        self.fn, self.kind, self.hyps, self.goal, self.loc = fn, kind, hyps, goal, loc
        self.facts = list(facts); self.status = None; self.backend = None; self.time = 0.0; self.model = None


def exact_div(x, y):
    """x / y for y != 0: cancelled when y is a constant symbol that divides every monomial of x"""
    if z3.is_const(y) and y.decl().kind() == z3.Z3_OP_UNINTERPRETED:
        t = z3.simplify(x, som=True); out = []
        for m in (t.children() if z3.is_add(t) else [t]):
            fs = list(m.children()) if z3.is_mul(m) else [m]
            i = next((i for i, f in enumerate(fs) if f.eq(y)), None)
            if i is None: return x / y
            del fs[i]
            p = z3.IntVal(1)
            for f in fs: p = p * f
            out.append(p)
        r = out[0]
        for p in out[1:]: r = r + p
        return z3.simplify(r)
    return x / y


LIMITS = {f'std::numeric_limits<{t}>::{n}': v for t, n, v in (('int', 'digits', 31), ('float', 'digits', 24), ('double', 'digits', 53), ('float', 'max_exponent', 128), ('double', 'max_exponent', 1024), ('double', 'digits10', 15), ('double', 'max_digits10', 17), ('float', 'max_exponent10', 38), ('double', 'max_exponent10', 308), ('int', 'digits10', 9))}


class Exec:
    def __init__(self, prog, contracts=None, bounded=False, unroll=400):
        self.prog = prog; self.contracts = contracts or {}; self.bounded = bounded; self.unroll = unroll
        self.st = State(); self.decs = []; self.obls = []; self.record = True; self.cur_fn = '?'; self.line = 0
        self.calls = {}; self.max_paths = 4000; self.axioms = []; self.depth = 0; self.entered = set(); self.used_contracts = set()
        self.feas_timeout = 400; self.assumed_std = set(); self.globals = {}; self.check_div = True
        self.loop_depth = 0; self.stats = dict(paths=0, feas=0, loops=0)
        self.feas_cache = {}; self.invariants = []; self.loop_bound = 0      # candidate loop invariants given by the task (kept only where they are proved)

    # ---------------------------------------------------------------- state helpers
    def alloc(self, v):
        r = self.st.next; self.st.next += 1; self.st.mem[r] = v
        return r

    def load(self, lv):
        v = self.st.mem[lv.root]
        try: return get_path(v, lv.path)
        except CannotMerge: pass
        for p in lv.path:           # elements that no single term can describe: one path per value of the index
            try: v = step(v, p)
            except CannotMerge: v = self.element(v, p)
        return v

    def element(self, v, i):
        if v.items is None: raise CannotMerge(type(v).__name__)
        for j, x in enumerate(v.items):
            if self.choose(eq(i, j)): return x
        raise Unsupported('index out of bounds')

    def store(self, lv, v): self.st.mem[lv.root] = set_path(self.st.mem[lv.root], lv.path, v)

    def assume(self, c):
        p = py_bool(c)
        if p is True: return
        if p is False: raise PathDead()
        self.st.pc.append(to_bool(c))

    def replaying(self): return any(d.replaying for d in self.decs)

    def oblige(self, kind, goal):
        p = py_bool(goal)
        if p is True: return
        if not self.record or self.replaying(): return
        self.obls.append(Obligation(self.cur_fn, kind, list(self.st.pc), to_bool(goal) if p is None else z3.BoolVal(False), f'{self.fname()}:{self.line}'))

    def fname(self): return self.st.frames[-1].name if self.st.frames else '?'

    def feasible(self, conds):
        key = tuple(c.get_id() for c in conds)
        if key in self.feas_cache: return self.feas_cache[key][0]
        self.stats['feas'] += 1
        s = z3.Solver(); s.set('timeout', self.feas_timeout)
        for c in conds: s.add(c)
        r = s.check() != z3.unsat
        self.feas_cache[key] = (r, conds)
        return r

    def choose(self, cond):
        p = py_bool(cond)
        if p is not None: return p
        cond = to_bool(cond)
        if not self.decs: raise Unsupported('fork outside explore')
        d = self.decs[-1]
        if d.replaying:
            b = d.prefix[d.pos]; d.pos += 1
            self.st.pc.append(cond if b else z3.Not(cond))
            return b
        t = self.feasible(self.st.pc + [cond]); f = self.feasible(self.st.pc + [z3.Not(cond)])
        if not t and not f: raise PathDead()
        b = t
        if t and f: d.pending.append(d.prefix[:d.pos] + [False])
        d.prefix = d.prefix[:d.pos] + [b]; d.pos += 1
        self.st.pc.append(cond if b else z3.Not(cond))
        return b

    def explore(self, thunk, state=None):
        """all paths of thunk from the given (or current) state; the current state is left untouched"""
        saved = self.st; base = (state or self.st).clone()
        work = [[]]; outs = []
        try:
            while work:
                pre = work.pop()
                self.st = base.clone(); d = Dec(pre); self.decs.append(d)
                nfr = len(self.st.frames)
                try:
                    kind, val, et = 'normal', None, None
                    try: val = thunk()
                    except ReturnEx as r: kind, val = 'return', r.v
                    except BreakEx: kind = 'break'
                    except ContinueEx: kind = 'continue'
                    except ThrowEx as t: kind, val, et = 'throw', t, t.etype
                    except PathDead: kind = None
                    del self.st.frames[nfr:]
                    if kind: outs.append(Outcome(kind, val, self.st, et))
                finally:
                    self.decs.pop()
                work.extend(d.pending)
                self.stats['paths'] += 1
                if len(outs) > self.max_paths: raise Unsupported('too many paths')
        finally:
            self.st = saved
        return outs

    def pure_try(self, thunk, cond):
        """evaluate a scalar expression under cond without forking the enclosing path; (ok, value)"""
        n0 = len(self.obls); npc = len(self.st.pc)
        try: return True, self.merge_eval(thunk, cond, scalar=True)
        except (Unsupported, CannotMerge, ImpureError):
            del self.obls[n0:]; del self.st.pc[npc:]
            return False, None

    def merge_eval(self, thunk, cond, scalar=False):
        """value of a side-effect free thunk under cond, its paths merged into one value"""
        st = self.st.clone(); st.pc = st.pc + [to_bool(cond)]
        mem0 = st.mem; c0 = V.COUNTER[0]
        outs = self.explore(thunk, st)
        if not outs: raise ImpureError('no path')
        for o in outs:
            if o.kind not in ('normal', 'return'): raise ImpureError('exit by ' + o.kind)
            for r, v in mem0.items():
                if o.st.mem.get(r) is not v: raise ImpureError('side effect')
            if isinstance(o.val, Ref): o.val = get_path(o.st.mem[o.val.root], o.val.path)
            if scalar and not is_scalar(o.val): raise ImpureError('not a scalar')
        sufs = [o.st.pc[len(st.pc):] for o in outs]
        if len(outs) == 1:
            # facts assumed inside (contract postconditions) are kept as implications
            for e in sufs[0]: self.st.pc.append(z3.Implies(to_bool(cond), e))
            return outs[0].val
        val = outs[-1].val
        for o, s in reversed(list(zip(outs[:-1], sufs[:-1]))):
            val = ite(z3.And(*s) if len(s) != 1 else s[0], o.val, val)
        return val

    # ---------------------------------------------------------------- calls
    def find_fn(self, ref):
        return self.prog.fns.get(ref['key'])

    def call_fn(self, f, this, args, name=None):
        """call function record f with evaluated args (values or Refs)"""
        q = f['f']['q']
        self.depth += 1
        if self.depth > 200: raise Unsupported('recursion too deep')
        try:
            c = self.contracts.get(self.contract_key(f))
            if c is not None and not (self.verifying is c and self.depth == 1):
                if c.applies(self, this, args):
                    self.used_contracts.add(c.name)
                    return c.apply(self, this, args, f)
            return self.run_body(f, this, args)
        finally:
            self.depth -= 1

    verifying = None

    def contract_key(self, f): return (f['f']['q'], len(f['params']))

    def run_body(self, f, this, args):
        if f['f'].get('defaulted') or f['f'].get('implicit'):
            if f.get('body') is None or f['f'].get('copy') or f['f'].get('move'):
                return self.defaulted(f, this, args)
        if 'body' not in f: raise Unsupported('no body: ' + f['f']['q'])
        self.entered.add(f['f']['q'])
        fr = Frame(f, this, f['f']['q'])
        for p, a in zip(f['params'], args):
            if is_ref(p['t']):
                if not isinstance(a, Ref): a = Ref(self.alloc(a))
                fr.vars[p['id']] = a
            else:
                if isinstance(a, Ref): a = self.load(a)
                fr.vars[p['id']] = Ref(self.alloc(a))
        self.st.frames.append(fr)
        try:
            if f['f'].get('ctor'): self.run_inits(f, this)
            try:
                self.stmt(f['body']); ret = None
            except ReturnEx as r: ret = r.v
        finally:
            if self.st.frames and self.st.frames[-1] is fr: self.st.frames.pop()
        return ret

    def defaulted(self, f, this, args):
        r = f['f']
        if r.get('copy') or r.get('move'):
            src = args[0]; v = self.load(src) if isinstance(src, Ref) else src
            tgt = self.load(this)
            if isinstance(v, Obj) and isinstance(tgt, Obj) and v.cls != tgt.cls:   # slice copy into base part
                for fd in self.prog.all_fields(r['cls']): tgt = tgt.with_field(fd['n'], v.f[fd['n']])
                self.store(this, tgt)
            else: self.store(this, v)
            return this
        if r.get('ctor') and not f['params']:
            if 'inits' in f:
                self.st.frames.append(Frame(f, this, r['q']))
                try: self.run_inits(f, this)
                finally: self.st.frames.pop()
            return None
        raise Unsupported('defaulted ' + r['q'])

    def run_inits(self, f, this):
        for i in f.get('inits', []):
            if 'field' in i:
                fty = None
                for fd in self.prog.all_fields(f['f']['cls']) or []:
                    if fd['n'] == i['field']: fty = fd['t']
                v = self.init_value(i['init'], fty)
                self.store(Ref(this.root, this.path + (i['field'],)), v)
            elif 'base' in i or 'deleg' in i:
                e = i['init']
                if e['k'] in ('CXXConstructExpr', 'CXXTemporaryObjectExpr'): self.construct_into(e, this)
                else: raise Unsupported('base init ' + e['k'])

    def default_obj(self, cls):
        fs = self.prog.all_fields(cls)
        if fs is None: raise Unsupported('unknown class ' + cls)
        o = {}
        for fd in fs:
            t = parse_type(fd['t'])
            if fd['t'] in INT_TYPES or fd['t'] in REAL_TYPES or fd['t'] == 'bool' or fd['t'].endswith('*'): o[fd['n']] = UNDEF
            else: o[fd['n']] = self.default_value(fd['t'])
        return Obj(cls, o)

    def default_value(self, t, zero=False):
        t = strip_type(t); n, a = parse_type(t)
        if t in INT_TYPES: return 0 if zero else UNDEF
        if t in REAL_TYPES: return Fraction(0) if zero else UNDEF
        if t == 'bool': return False if zero else UNDEF
        if t.endswith('*'): return NULL if zero else UNDEF
        if n == 'std::array': return Arr([self.default_value(a[0], zero) for _ in range(int(a[1].rstrip('UL')))])
        if n in ('std::vector',): return Vec(items=())
        if n in ('std::shared_ptr', 'std::unique_ptr', 'std::__shared_ptr'): return NULL
        if n == 'std::basic_string': return Str()
        if n.startswith('std::basic_') and 'stream' in n: return Stream('file' if 'fstream' in n else 'string')
        if t.startswith('pugi::'):
            import pugimodel
            return pugimodel.default(self, t)
        if n == 'std::any': return Any(None, None)
        if t.endswith(']'):
            k = t.rindex('['); return Arr([self.default_value(t[:k], zero) for _ in range(int(t[k + 1:-1]))])
        if t in self.prog.recs:
            o = self.default_obj(t)
            if zero:
                o = Obj(t, {fd['n']: self.default_value(fd['t'], True) for fd in self.prog.all_fields(t)})
            return o
        if n in ('std::function',): return UNDEF
        return Opaque(t)

    # construct a class object of type t from a CXXConstructExpr node
    def construct_into(self, e, this):
        ref = e['fn']; f = self.find_fn(ref)
        if f is None:
            if ref.get('copy') or ref.get('move'):
                v = self.arg(e['c'][0], ref['pt'][0]); v = self.load(v) if isinstance(v, Ref) else v
                cur = self.load(this)
                if isinstance(v, Obj) and isinstance(cur, Obj) and v.cls != cur.cls:
                    for fd in self.prog.all_fields(ref['cls']): cur = cur.with_field(fd['n'], v.f[fd['n']])
                    v = cur
                self.store(this, v); return
            if not e['c'] or all(x['k'] == 'CXXDefaultArgExpr' for x in e['c']): return
            raise Unsupported('constructor without body ' + ref['q'])
        args = self.args(e['c'], [p['t'] for p in f['params']])
        self.call_fn(f, this, args)

    def construct(self, e):
        import stdmodel
        t = strip_type(e['t']); ref = e['fn']
        if t.startswith('pugi::'):
            import pugimodel
            return pugimodel.construct(self, e, t)
        if t in self.prog.recs:
            if (ref.get('copy') or ref.get('move')):
                f = self.find_fn(ref)
                if f is None or f['f'].get('defaulted') or f['f'].get('implicit'):
                    a = self.arg(e['c'][0], ref['pt'][0]); v = self.load(a) if isinstance(a, Ref) else a
                    if isinstance(v, Obj) and v.cls != t:  # slicing copy
                        v = Obj(t, {fd['n']: v.f[fd['n']] for fd in self.prog.all_fields(t)})
                    return v
                if e.get('elid') and e['c'][0]['vk'] == 'r': return self.rv(e['c'][0])
            r = self.alloc(self.default_obj(t))
            if e.get('zero'): self.st.mem[r] = self.default_value(t, True)
            self.construct_into(e, Ref(r))
            return self.st.mem[r]
        return stdmodel.construct(self, e, t)

    def construct_args(self, t, args, argtypes=None):
        """make_shared / emplace: build an object of type t from values"""
        t = strip_type(t)
        if t in self.prog.recs:
            if len(args) == 1:
                v = self.load(args[0]) if isinstance(args[0], Ref) else args[0]
                if isinstance(v, Obj) and self.prog.is_derived(v.cls, t):
                    cs = [f for f in self.prog.ctors.get(t, []) if f['f'].get('copy') and not f['f'].get('defaulted')]
                    ms = [f for f in self.prog.ctors.get(t, []) if f['f'].get('move') and not f['f'].get('defaulted')]
                    rvalue = not (argtypes and argtypes[0].rstrip().endswith('&') and not argtypes[0].rstrip().endswith('&&'))
                    use = (ms if rvalue and ms else cs)
                    if use:
                        r = self.alloc(self.default_obj(t))
                        a = args[0] if isinstance(args[0], Ref) else Ref(self.alloc(args[0]))
                        self.call_fn(use[0], Ref(r), [a])
                        return self.st.mem[r]
                    if v.cls != t: v = Obj(t, {fd['n']: v.f[fd['n']] for fd in self.prog.all_fields(t)})
                    return v
            cands = [f for f in self.prog.ctors.get(t, []) if len(f['params']) == len(args) and not f['f'].get('copy') and not f['f'].get('move')]
            if len(cands) > 1 and argtypes:
                def score(f): return sum(2 * (strip_type(p['t']) == strip_type(a)) + (parse_type(p['t'])[0] == parse_type(a)[0]) + (0.25 if p['t'].rstrip().endswith('&&') != (a.rstrip().endswith('&') and not a.rstrip().endswith('&&')) else 0) for p, a in zip(f['params'], argtypes))
                cands.sort(key=score, reverse=True)
                if score(cands[0]) == score(cands[1]): raise Unsupported('ambiguous constructor ' + t)
            if not cands: raise Unsupported(f'no constructor of {t} for {len(args)} arguments')
            r = self.alloc(self.default_obj(t))
            self.call_fn(cands[0], Ref(r), args)
            return self.st.mem[r]
        import stdmodel
        return stdmodel.construct_args(self, t, args, argtypes)

    # ---------------------------------------------------------------- statements
    def stmt(self, s):
        if s is None: return
        k = s['k']; self.line = s.get('l', self.line)
        m = getattr(self, 's_' + k, None)
        if m is None: raise Unsupported('statement ' + k)
        return m(s)

    def s_Expr(self, s): self.effect(s['e'])
    def s_NullStmt(self, s): pass

    def s_CompoundStmt(self, s):
        for c in s['c']: self.stmt(c)

    def s_DeclStmt(self, s):
        for d in s['c']:
            if d['k'] == 'Var': self.declare(d)
            elif d['dk'] in ('TypeAlias', 'Typedef', 'Using', 'StaticAssert', 'UsingDirective', 'CXXRecord', 'Record', 'Enum'): pass
            else: raise Unsupported('declaration ' + d['dk'])

    def declare(self, d):
        fr = self.st.frames[-1]
        if d.get('staticlocal') and parse_type(d['t'])[0] not in __import__('stdmodel').ENGINES: raise Unsupported('static local')
        if is_ref(d['t']):
            fr.vars[d['id']] = self.lv(d['init'])
            return
        if 'init' in d: v = self.init_value(d['init'], d['t'])
        else: v = self.default_value(d['t'])
        fr.vars[d['id']] = Ref(self.alloc(v))

    def init_value(self, e, t):
        v = self.rv(e)
        if isinstance(v, Ref): v = self.load(v)
        return v

    def s_IfStmt(self, s):
        if s.get('init'): self.stmt(s['init'])
        if s.get('cv'): self.declare(s['cv'])
        c = self.rv(s['cond'])
        if self.choose(c): self.stmt(s['then'])
        elif s.get('else'): self.stmt(s['else'])

    def s_ReturnStmt(self, s):
        f = self.st.frames[-1].fn
        if 'e' not in s: raise ReturnEx(None)
        rt = f['rt']
        if is_ref(rt): raise ReturnEx(self.lv(s['e']))
        if rt == 'void':
            self.effect(s['e']); raise ReturnEx(None)
        v = self.rv(s['e'])
        if isinstance(v, Ref): v = self.load(v)
        raise ReturnEx(v)

    def s_BreakStmt(self, s): raise BreakEx()
    def s_ContinueStmt(self, s): raise ContinueEx()

    def s_ForStmt(self, s):
        if s.get('init'): self.stmt(s['init'])
        cond = (lambda: self.rv(s['cond'])) if 'cond' in s else (lambda: True)
        inc = (lambda: self.effect(s['inc'])) if 'inc' in s else (lambda: None)
        self.loop(cond, lambda: self.stmt(s['body']), inc, s)

    def s_WhileStmt(self, s):
        if s.get('cv'): raise Unsupported('condition variable')
        self.loop(lambda: self.rv(s['cond']), lambda: self.stmt(s['body']), lambda: None, s)

    def s_DoStmt(self, s):
        try: self.stmt(s['body'])
        except ContinueEx: pass
        except BreakEx: return
        self.loop(lambda: self.rv(s['cond']), lambda: self.stmt(s['body']), lambda: None, s)

    def s_CXXForRangeStmt(self, s):
        if s.get('init'): self.stmt(s['init'])
        rg = self.lv(s['range']); fr = self.st.frames[-1]
        v = self.load(rg); var = s['var']
        if isinstance(v, Obj):  # class with begin()/end(): use them
            b = self.call_named(rg, 'begin'); e = self.call_named(rg, 'end')
            if not isinstance(b, Iter): raise Unsupported('range over ' + v.cls)
            rg = Ref(b.root, b.path); v = self.load(rg)
            if conc_int(b.idx) != 0: raise Unsupported('range begin')
        idx = Ref(self.alloc(0))

        def size():
            w = self.load(rg)
            return len(w.items) if isinstance(w, Arr) else w.n

        def body():
            i = self.load(idx)
            fr = self.st.frames[-1]
            if is_ref(var['t']): fr.vars[var['id']] = Ref(rg.root, rg.path + (i,))
            else:
                # the initialiser in the AST copies *__begin; value semantics of all element types make that a load
                fr.vars[var['id']] = Ref(self.alloc(self.load(Ref(rg.root, rg.path + (i,)))))
            self.stmt(s['body'])

        def inc():
            self.store(idx, self.int_op('+', self.load(idx), 1))
        self.loop(lambda: self.cmp('<', self.load(idx), size()), body, inc, s)

    def call_named(self, lv, name):
        v = self.load(lv)
        cands = [f for c in [v.cls] + self.prog.bases(v.cls) for f in self.prog.by_q.get(c + '::' + name, [])]
        const = [f for f in cands if f.get('tconst')]
        if not cands: raise Unsupported('no method ' + name)
        return self.call_fn((const or cands)[0], lv, [])

    def s_SwitchStmt(self, s):
        c = self.rv(s['cond']); body = s['body']
        if body['k'] != 'CompoundStmt': raise Unsupported('switch body')
        items = []  # flatten cases: (list of labels | None, stmt)
        for x in body['c']:
            labels = []; isdef = False
            while x['k'] in ('CaseStmt', 'DefaultStmt'):
                if x['k'] == 'CaseStmt': labels.append(x['v'])
                else: isdef = True
                x = x['sub']
            items.append((labels, isdef, x))
        start = None
        for i, (labels, isdef, x) in enumerate(items):
            hit = False
            for l in labels:
                if self.choose(self.cmp('==', c, self.rv(l))): hit = True; break
            if hit: start = i; break
        if start is None:
            for i, (labels, isdef, x) in enumerate(items):
                if isdef: start = i
        if start is None: return
        try:
            for labels, isdef, x in items[start:]: self.stmt(x)
        except BreakEx: pass

    def s_CXXTryStmt(self, s):
        nfr = len(self.st.frames)
        try: self.stmt(s['body'])
        except ThrowEx as t:
            del self.st.frames[nfr:]
            for h in s['handlers']:
                if 't' not in h or self.catches(strip_type(h['t']), t.etype):
                    if 'id' in h: self.st.frames[-1].vars[h['id']] = Ref(self.alloc(Opaque('exception')))
                    self.stmt(h['body']); return
            raise

    STD_EXC = {'std::runtime_error': ['std::exception'], 'std::range_error': ['std::runtime_error', 'std::exception'], 'std::logic_error': ['std::exception'],
               'std::invalid_argument': ['std::logic_error', 'std::exception'], 'std::out_of_range': ['std::logic_error', 'std::exception'], 'std::bad_any_cast': ['std::bad_cast', 'std::exception']}

    def catches(self, ht, et): return ht == et or ht in self.STD_EXC.get(et, [])

    def s_CXXTryStmtHandlers(self, s): raise Unsupported('try')

    # ---------------------------------------------------------------- loops
    def loop(self, cond, body, inc, node):
        first = True; n = 0
        while True:
            c = cond()
            p = py_bool(c)
            if p is True and first and not self.bounded and (self.long_loop(node) or (self.invariants and node and node.get('k') in ('WhileStmt', 'DoStmt'))):
                import loops
                return loops.summarise(self, cond, body, inc, node)
            if p is None:
                if first and not self.bounded:
                    import loops
                    return loops.summarise(self, cond, body, inc, node)
                n += 1
                if n > self.unroll: raise Unsupported('loop unrolling limit')
                p = self.choose(c)
            if not p: return
            first = False if not self.bounded else first
            try: body()
            except BreakEx: return
            except ContinueEx: pass
            inc()
            n += 1
            if n > 20000: raise Unsupported('loop too long')

    def long_loop(self, node):
        """a counting loop with a concrete but large number of iterations is summarised like a symbolic one"""
        c = node.get('cond') if node else None
        while c and c['k'] in ('ParenExpr', 'ImplicitCastExpr', 'ExprWithCleanups'): c = c['c'][0]
        if not c or c['k'] != 'BinaryOperator' or c['op'] not in ('<', '<='): return False
        a, b = conc_int(self.rv(c['c'][0])), conc_int(self.rv(c['c'][1]))
        return a is not None and b is not None and b - a > 48

    # ---------------------------------------------------------------- scalar operations
    def wrap(self, t, v):
        """bring an exact integer into the range of the C++ type (unsigned wraps; signed overflow is an obligation)"""
        bits, signed = INT_TYPES[t]
        cv = conc_int(v)
        if signed:
            if cv is not None and not -(1 << bits - 1) <= cv < 1 << (bits - 1):
                self.oblige('signed overflow', False)
            return v
        if cv is not None: return cv % (1 << bits)
        v = simp(v); cv = conc_int(v)
        if cv is not None: return cv % (1 << bits)
        # symbolic unsigned: assume no wrap when the path condition implies it, otherwise reduce
        if not self.feasible(self.st.pc + [v < 0]): return v
        M = 1 << bits
        return z3.If(v < 0, v + M, v)

    def int_op(self, op, a, b, t='int'):
        if isinstance(a, Undef) or isinstance(b, Undef): raise Unsupported('use of an uninitialised value')
        ca, cb = conc_int(a), conc_int(b)
        if ca is not None and cb is not None:
            if op == '+': r = ca + cb
            elif op == '-': r = ca - cb
            elif op == '*': r = ca * cb
            elif op in '/%':
                if cb == 0: self.oblige('division by zero', False); raise PathDead()
                q = abs(ca) // abs(cb); q = q if (ca < 0) == (cb < 0) else -q
                r = q if op == '/' else ca - q * cb
            elif op == '<<': r = ca << cb
            elif op == '>>': r = ca >> cb
            elif op == '&': r = ca & cb
            elif op == '|': r = ca | cb
            elif op == '^': r = ca ^ cb
            else: raise Unsupported('int op ' + op)
            return self.wrap(t, r)
        if op == '+' and ca == 0: return b
        if op in '+-' and cb == 0: return a
        if op == '*':
            if ca == 1: return b
            if cb == 1: return a
            if ca == 0 or cb == 0: return 0
        if op in '/%' and cb == 1: return a if op == '/' else 0
        x, y = to_int(a), to_int(b)
        if op == '+': r = x + y
        elif op == '-': r = x - y
        elif op == '*': r = x * y
        elif op in '/%':
            self.oblige('division by zero', y != 0)
            self.assume(y != 0)
            # C++ division truncates; identical to Euclidean division for non-negative operands
            if cb is not None and cb > 0 or not self.feasible(self.st.pc + [y <= 0]):
                if not self.feasible(self.st.pc + [x < 0]):
                    return exact_div(x, y) if op == '/' else x % y
                q = z3.If(x >= 0, x / y, -((-x) / y))
                return q if op == '/' else x - q * y
            raise Unsupported('division with operand of unknown sign')
        else: raise Unsupported('symbolic int op ' + op)
        return self.wrap(t, simp(r))

    def real_op(self, op, a, b):
        if isinstance(a, Undef) or isinstance(b, Undef): raise Unsupported('use of an uninitialised value')
        if isnum(a) and isnum(b):
            a, b = Fraction(a), Fraction(b)
            if op == '+': return a + b
            if op == '-': return a - b
            if op == '*': return a * b
            if op == '/':
                if b == 0:
                    self.oblige('division by zero (double)', False); raise Unsupported('division by concrete zero')
                return a / b
        if op == '+':
            if isnum(a) and a == 0: return b
            if isnum(b) and b == 0: return a
        if op == '-' and isnum(b) and b == 0: return a
        if op == '*':
            if (isnum(a) and a == 0) or (isnum(b) and b == 0): return Fraction(0)
            if isnum(a) and a == 1: return b
            if isnum(b) and b == 1: return a
        if op == '/':
            if isnum(b) and b == 1: return a
            if not isnum(b):
                if self.check_div: self.oblige('division by zero (double)', to_real(b) != 0)
                self.assume(to_real(b) != 0)
            elif b == 0:
                self.oblige('division by zero (double)', False); raise Unsupported('division by concrete zero')
            if isnum(a) and a == 0: return Fraction(0)
        x, y = to_real(a), to_real(b)
        return {'+': lambda: x + y, '-': lambda: x - y, '*': lambda: x * y, '/': lambda: x / y}[op]()

    def cmp(self, op, a, b):
        if isinstance(a, TokCh) or isinstance(b, TokCh):
            import strmodel
            return strmodel.tok_cmp(op, a, b)
        if isinstance(a, Undef) or isinstance(b, Undef): raise Unsupported('use of an uninitialised value')
        if isinstance(a, (Ptr, GPtr)) or isinstance(b, (Ptr, GPtr)):
            if isinstance(a, Ptr) and isinstance(b, Ptr): r = a.same(b)
            elif isinstance(a, GPtr) and isinstance(b, GPtr): raise Unsupported('ghost pointer comparison')
            else: r = False
            return r if op == '==' else not r
        if isinstance(a, Fn) or isinstance(b, Fn):
            r = isinstance(a, Fn) and isinstance(b, Fn) and a.key == b.key
            return r if op == '==' else not r
        if isinstance(a, RIter): return self.cmp(op, Iter(b.root, b.path, b.idx), Iter(a.root, a.path, a.idx))
        if isinstance(a, Iter):
            if (a.root, a.path) != (b.root, b.path): raise Unsupported('iterators of different containers')
            return self.cmp(op, a.idx, b.idx)
        if isnum(a) and isnum(b):
            return {'<': a < b, '<=': a <= b, '>': a > b, '>=': a >= b, '==': a == b, '!=': a != b}[op]
        x, y = coerce2(a, b)
        if x.eq(y): return op in ('<=', '>=', '==')
        if op == '==': return x == y
        if op == '!=': return x != y
        if z3.is_bool(x): x, y = to_int(x), to_int(y)
        r = {'<': lambda: x < y, '<=': lambda: x <= y, '>': lambda: x > y, '>=': lambda: x >= y}[op]()
        p = py_bool(r)
        return r if p is None else p

    def arith(self, op, a, b, t):
        t = strip_type(t)
        if t in INT_TYPES: return self.int_op(op, a, b, t)
        if t in REAL_TYPES: return self.real_op(op, a, b)
        if t == 'bool' and op in '&|^':
            x, y = to_bool(a), to_bool(b)
            return {'&': land(x, y), '|': lor(x, y), '^': z3.Xor(x, y)}[op]
        raise Unsupported(f'arith {op} on {t}')

    def cast_scalar(self, v, src, dst):
        src, dst = strip_type(src), strip_type(dst)
        if isinstance(v, TokCh): return v
        if isinstance(v, Undef): raise Unsupported('use of an uninitialised value')
        if dst == 'bool':
            p = py_bool(v)
            return p if p is not None else to_bool(v)
        if dst in REAL_TYPES:
            if isinstance(v, bool): return Fraction(int(v))
            if isinstance(v, (int, Fraction)): return Fraction(v)
            return to_real(to_int(v)) if not z3.is_real(v) else v
        if dst in INT_TYPES:
            if src in REAL_TYPES:
                if isnum(v):
                    return self.wrap(dst, int(v))
                x = to_real(v)
                if not self.feasible(self.st.pc + [x < 0]): return z3.ToInt(x)
                return z3.If(x >= 0, z3.ToInt(x), -z3.ToInt(-x))
            if isinstance(v, bool): return int(v)
            if is_z3(v) and z3.is_bool(v): return to_int(v)
            if isinstance(v, (int,)):
                bits, signed = INT_TYPES[dst]
                r = v % (1 << bits)
                return r - (1 << bits) if signed and r >= 1 << (bits - 1) else r
            bits, signed = INT_TYPES[dst]
            if not signed: return self.wrap(dst, v)
            sb, ss = INT_TYPES.get(src, (32, True))
            if not ss:  # unsigned -> signed: only the wrapped negative case changes the value
                M = 1 << sb
                if not self.feasible(self.st.pc + [v >= (1 << (min(bits, sb) - 1))]): return v
                v2 = z3.If(v >= (1 << (sb - 1)), v - M, v)
                return v2
            return v
        raise Unsupported(f'cast {src} -> {dst}')

    # ---------------------------------------------------------------- expressions
    def effect(self, e):
        if e['vk'] == 'r' or e['t'] == 'void': self.rv(e)
        else: self.lv(e) if e['k'] not in ('CallExpr', 'CXXMemberCallExpr', 'CXXOperatorCallExpr') else self.rv_any(e)

    def rv_any(self, e): return getattr(self, 'e_' + e['k'])(e)

    def rv(self, e):
        m = getattr(self, 'e_' + e['k'], None)
        if m is None: raise Unsupported('expression ' + e['k'])
        self.line = e.get('l', self.line)
        return m(e)

    def lv(self, e):
        """lvalue of a glvalue expression (temporaries are materialised)"""
        k = e['k']; self.line = e.get('l', self.line)
        if e['vk'] == 'r':
            v = self.rv(e)
            if isinstance(v, Ref): return v
            return Ref(self.alloc(v))
        m = getattr(self, 'l_' + k, None)
        if m is not None: return m(e)
        v = self.rv(e)
        if isinstance(v, Ref): return v
        return Ref(self.alloc(v))

    def arg(self, e, pt):
        """evaluate an argument for a parameter of type pt"""
        if is_ref(pt): return self.lv(e)
        v = self.rv(e)
        if isinstance(v, Ref): v = self.load(v)
        return v

    def args(self, es, pts):
        out = []
        for i, e in enumerate(es):
            if e['k'] == 'CXXDefaultArgExpr': out.append(self.arg(e['c'][0], pts[i] if i < len(pts) else e['t']))
            else: out.append(self.arg(e, pts[i] if i < len(pts) else (e['t'] + (' &' if e['vk'] != 'r' else ''))))
        return out

    def e_IntegerLiteral(self, e): return int(e['v'])
    def e_CharacterLiteral(self, e): return int(e['v'])
    def e_CXXBoolLiteralExpr(self, e): return bool(e['v'])
    def e_FloatingLiteral(self, e): return Fraction(float.fromhex(e['hex']))
    def e_StringLiteral(self, e): return Str([chr(c) for c in e['bytes']])
    def e_CXXNullPtrLiteralExpr(self, e): return NULL
    def e_ImplicitValueInitExpr(self, e): return self.default_value(e['t'], True)
    def e_CXXScalarValueInitExpr(self, e): return self.default_value(e['t'], True)
    def e_UnaryExprOrTypeTraitExpr(self, e): return int(e['v'])
    def e_CXXThisExpr(self, e):
        t = self.st.frames[-1].this
        if isinstance(t, (GPtr,)): return t
        return Ptr(t.root, t.path)

    def e_CXXDefaultArgExpr(self, e): return self.rv(e['c'][0])

    def var_lv(self, d):
        for fr in reversed(self.st.frames):
            if d['id'] in fr.vars: return fr.vars[d['id']]
            break
        fr = self.st.frames[-1]
        if 'init' in d:
            if d['id'] not in self.globals:
                self.globals[d['id']] = self.rv(d['init'])
            return Ref(self.alloc(self.globals[d['id']]))
        k = LIMITS.get(d.get('q', ''))
        if k is not None: return Ref(self.alloc(k))
        raise Unsupported('unknown variable ' + d.get('q', d['n']))

    def l_DeclRefExpr(self, e):
        d = e['d']
        if 'fn' in d: return Ref(self.alloc(Fn(d['fn']['key'], d['fn'])))
        if d.get('n') == 'npos' and d.get('q', '').startswith('std::'): return Ref(self.alloc(2 ** 64 - 1))
        if d.get('q', '').startswith('std::placeholders::_'): return Ref(self.alloc(Functor('placeholder', (int(d['q'].rsplit('_', 1)[1]),))))
        return self.var_lv(d)

    def e_DeclRefExpr(self, e):
        d = e['d']
        if 'fn' in d: return Fn(d['fn']['key'], d['fn'])
        if 'enum' in d: return int(d['enum'])
        q = d.get('q', '')
        if q.startswith('std::') and q.endswith('::npos'): return 2 ** 64 - 1
        if q.startswith('std::placeholders::_'): return Functor('placeholder', (int(q.rsplit('_', 1)[1]),))
        return self.load(self.var_lv(d))

    def l_MemberExpr(self, e):
        b = e['c'][0]; d = e['d']
        if d.get('dk') == 'static': return self.var_lv(d)
        if e['arrow']:
            p = self.rv(b)
            if isinstance(p, Ref): p = self.load(p)
            if isinstance(p, GPtr): raise Unsupported('field of a ghost object')
            if p.root is None: self.oblige('null dereference', False); raise PathDead()
            base = Ref(p.root, p.path)
        else: base = self.lv(b)
        return Ref(base.root, base.path + (d['n'],))

    def e_MemberExpr(self, e):
        if 'fn' in e['d']: raise Unsupported('bound member')
        if 'enum' in e['d']: return int(e['d']['enum'])
        if e['vk'] == 'r' and not e['arrow']:
            v = self.rv(e['c'][0])
            if isinstance(v, Ref): v = self.load(v)
            return step(v, e['d']['n'])
        return self.load(self.l_MemberExpr(e))

    def e_cast(self, e):
        ck = e['ck']; s = e['c'][0]
        if ck == 'LValueToRValue':
            v = self.load(self.lv(s))
            if isinstance(v, Undef): raise Unsupported('use of an uninitialised value')
            return v
        if ck in ('NoOp', 'ConstructorConversion', 'UserDefinedConversion', 'FunctionToPointerDecay', 'DerivedToBase', 'UncheckedDerivedToBase', 'BuiltinFnToFnPtr', 'ArrayToPointerDecay', 'BaseToDerived', 'Dynamic'):
            if e['vk'] != 'r': return self.lv(s)
            v = self.rv(s)
            if ck in ('DerivedToBase', 'UncheckedDerivedToBase'): return v
            return v
        if ck in ('IntegralCast', 'IntegralToFloating', 'FloatingToIntegral', 'IntegralToBoolean', 'FloatingCast', 'FloatingToBoolean', 'BooleanToSignedIntegral'):
            return self.cast_scalar(self.rv(s), s['t'], e['t'])
        if ck == 'NullToPointer': return NULL
        if ck == 'PointerToBoolean':
            v = self.rv(s); return to_bool(v) if py_bool(v) is None else py_bool(v)
        if ck == 'ToVoid': self.effect(s); return None
        raise Unsupported('cast ' + ck)
    e_ImplicitCastExpr = e_CStyleCastExpr = e_CXXStaticCastExpr = e_CXXFunctionalCastExpr = e_CXXConstCastExpr = e_cast

    def l_cast(self, e):
        if e['ck'] in ('NoOp', 'DerivedToBase', 'UncheckedDerivedToBase', 'ConstructorConversion', 'UserDefinedConversion', 'BaseToDerived'): return self.lv(e['c'][0])
        v = self.rv(e)
        return v if isinstance(v, Ref) else Ref(self.alloc(v))
    l_ImplicitCastExpr = l_CXXStaticCastExpr = l_CStyleCastExpr = l_CXXFunctionalCastExpr = l_CXXConstCastExpr = l_cast

    def l_UnaryOperator(self, e):
        op = e['op']
        if op == '*':
            p = self.rv(e['c'][0])
            if isinstance(p, Ref): p = self.load(p)
            if isinstance(p, Iter): return Ref(p.root, p.path + (p.idx,))
            if isinstance(p, Fn): return Ref(self.alloc(p))
            if isinstance(p, GPtr): return p
            if p.root is None: self.oblige('null dereference', False); raise PathDead()
            return Ref(p.root, p.path)
        if op in ('++', '--'):
            l = self.lv(e['c'][0]); old = self.load(l)
            self.store(l, self.incdec(old, op, e['t']))
            return l
        raise Unsupported('lvalue unary ' + op)

    def incdec(self, old, op, t):
        if isinstance(old, Iter): return Iter(old.root, old.path, self.int_op('+' if op == '++' else '-', old.idx, 1, 'long'))
        t = strip_type(t)
        return self.arith('+' if op == '++' else '-', old, 1 if t in INT_TYPES else Fraction(1), t)

    def e_UnaryOperator(self, e):
        op = e['op']; s = e['c'][0]
        if op in ('++', '--'):
            l = self.lv(s); old = self.load(l)
            self.store(l, self.incdec(old, op, e['t'] if e['post'] else s['t']))
            return old if e['post'] else l
        if op == '*':
            r = self.l_UnaryOperator(e)
            return r
        if op == '&':
            l = self.lv(s)
            if isinstance(self.load(l), Fn): return self.load(l)
            return Ptr(l.root, l.path)
        v = self.rv(s)
        if op == '!':
            p = py_bool(v)
            return (not p) if p is not None else z3.Not(to_bool(v))
        if op == '-':
            t = strip_type(e['t'])
            return self.arith('-', 0 if t in INT_TYPES else Fraction(0), v, t)
        if op == '+': return v
        raise Unsupported('unary ' + op)

    def e_BinaryOperator(self, e):
        op = e['op']; a, b = e['c']
        if op == ',':
            self.effect(a)
            if b['vk'] == 'r': return self.rv(b)
            return self.lv(b)
        if op == '=':
            v = self.rv(b)
            if isinstance(v, Ref): v = self.load(v)
            l = self.lv(a)
            self.store(l, v)
            return l
        if op in ('&&', '||'):
            x = self.rv(a); p = py_bool(x)
            if p is not None:
                if p == (op == '||'): return p
                y = self.rv(b); q = py_bool(y)
                return q if q is not None else to_bool(y)
            cond = to_bool(x) if op == '&&' else z3.Not(to_bool(x))
            ok, y = self.pure_try(lambda: self.rv(b), cond)
            if ok: return land(to_bool(x), to_bool(y)) if op == '&&' else lor(to_bool(x), to_bool(y))
            if self.choose(x): return True if op == '||' else self.rv(b)
            return False if op == '&&' else self.rv(b)
        x = self.rv(a); y = self.rv(b)
        if op in ('<', '<=', '>', '>=', '==', '!='): return self.cmp(op, x, y)
        if isinstance(x, Ptr) or isinstance(x, Iter): raise Unsupported('pointer arithmetic')
        return self.arith(op, x, y, e['t'])

    def l_BinaryOperator(self, e):
        r = self.e_BinaryOperator(e)
        return r if isinstance(r, Ref) else Ref(self.alloc(r))

    def e_CompoundAssignOperator(self, e):
        op = e['op'][:-1]; b = self.rv(e['c'][1]); l = self.lv(e['c'][0]); a = self.load(l)
        lt = e['c'][0]['t']
        a2 = self.cast_scalar(a, lt, e['clt']) if strip_type(lt) != strip_type(e['clt']) else a
        r = self.arith(op, a2, b, e['ct'])
        if strip_type(lt) != strip_type(e['ct']): r = self.cast_scalar(r, e['ct'], lt)
        self.store(l, r)
        return l
    l_CompoundAssignOperator = e_CompoundAssignOperator

    def e_ConditionalOperator(self, e):
        c = self.rv(e['c'][0]); p = py_bool(c)
        if p is not None: return self.rv(e['c'][1 if p else 2])
        if e['vk'] == 'r' and (strip_type(e['t']) in INT_TYPES or strip_type(e['t']) in REAL_TYPES or strip_type(e['t']) == 'bool'):
            ok1, a = self.pure_try(lambda: self.rv(e['c'][1]), to_bool(c))
            if ok1:
                ok2, b = self.pure_try(lambda: self.rv(e['c'][2]), z3.Not(to_bool(c)))
                if ok2: return ite(c, a, b)
        return self.rv(e['c'][1 if self.choose(c) else 2])

    def l_ConditionalOperator(self, e):
        c = self.rv(e['c'][0])
        return self.lv(e['c'][1 if self.choose(c) else 2])

    def e_InitListExpr(self, e):
        t = strip_type(e['t']); n, a = parse_type(t)
        if n == 'std::array':
            cnt = int(a[1].rstrip('UL'))
            if len(e['c']) == 0: return self.default_value(t, True)
            inner = e['c'][0]
            if len(e['c']) == 1 and inner['k'] == 'InitListExpr' and strip_type(inner['t']).endswith(']'):
                v = self.rv(inner)
            elif len(e['c']) == 1 and strip_type(inner['t']).endswith(']'): v = self.rv(inner)
            else: v = Arr([self.val(x) for x in e['c']])
            items = list(v.items)
            while len(items) < cnt: items.append(self.default_value(a[0], True))
            return Arr(items)
        if t.endswith(']'):
            k = t.rindex('['); cnt = int(t[k + 1:-1])
            items = [self.val(x) for x in e['c']]
            while len(items) < cnt: items.append(self.val(e['filler']) if 'filler' in e else self.default_value(t[:k], True))
            return Arr(items)
        if t in INT_TYPES or t in REAL_TYPES or t == 'bool' or t.endswith('*'):
            return self.val(e['c'][0]) if e['c'] else self.default_value(t, True)
        if t in self.prog.recs and 'fields' in e and not e.get('nbases'):
            return Obj(t, {f: self.val(x) for f, x in zip(e['fields'], e['c'])})
        if len(e['c']) == 1: return self.val(e['c'][0])
        raise Unsupported('init list of ' + t)

    def val(self, e):
        v = self.rv(e)
        return self.load(v) if isinstance(v, Ref) else v

    def e_CXXStdInitializerListExpr(self, e):
        v = self.val(e['c'][0])
        return v

    def e_CXXConstructExpr(self, e): return self.construct(e)
    e_CXXTemporaryObjectExpr = e_CXXConstructExpr

    def e_CXXNewExpr(self, e):
        if e.get('arr'): raise Unsupported('new[]')
        if e.get('c'): v = self.val(e['c'][0])
        else: v = self.default_value(e['at'])
        return Ptr(self.alloc(v))

    def e_CXXDeleteExpr(self, e):
        self.rv(e['c'][0]); return None

    def e_CXXThrowExpr(self, e):
        raise ThrowEx(strip_type(e['et']) if 'et' in e else '?')

    def e_LambdaExpr(self, e):
        caps = {}
        for c in e['caps']:
            if c.get('this'): continue
            l = self.var_lv(c['d'])
            caps[c['d']['id']] = l if c['byref'] else Ref(self.alloc(self.load(l)))
        return Lam(e, caps, self.st.frames[-1].this)

    def e_ExprWithCleanups(self, e): return self.rv(e['c'][0])

    def e_ArraySubscriptExpr(self, e): return self.load(self.l_ArraySubscriptExpr(e))

    def l_ArraySubscriptExpr(self, e):
        a, b = e['c']
        base = self.lv(a) if a['k'] == 'ImplicitCastExpr' and a.get('ck') == 'ArrayToPointerDecay' else None
        if base is None:
            p = self.val(a)
            if isinstance(p, Ptr) and p.root is not None and isinstance(get_path(self.st.mem[p.root], p.path), (Arr, Vec, Str)): base = Ref(p.root, p.path)      # pointer to the first element of an array
            elif isinstance(p, Str): base = Ref(self.alloc(p))
            else: raise Unsupported('subscript of pointer')
        return Ref(base.root, base.path + (self.rv(b),))

    # calls ------------------------------------------------------------------------------------------------------
    def invoke(self, callee, args):
        """call a function value (pointer, lambda, functor) with evaluated arguments"""
        import stdmodel
        if isinstance(callee, Ref): callee = self.load(callee)
        if isinstance(callee, Fn):
            f = self.prog.fns.get(callee.key)
            if f is None: return stdmodel.free_call(self, callee.name, args, None)
            return self.call_fn(f, None, self.match_args(f, args))
        if isinstance(callee, Lam):
            key = callee.node['fn']['key'] if 'fn' in callee.node else None
            if key is None:
                specs = callee.node.get('specs', [])
                if len(specs) != 1: raise Unsupported('generic lambda')
                key = specs[0]
            f = self.prog.fns[key]
            fr = Frame(f, callee.this, 'lambda@' + f['loc'])
            fr.vars.update(callee.caps)
            for p, a in zip(f['params'], self.match_args(f, args)):
                if is_ref(p['t']): fr.vars[p['id']] = a
                else: fr.vars[p['id']] = Ref(self.alloc(a))
            self.st.frames.append(fr)
            try:
                try: self.stmt(f['body']); return None
                except ReturnEx as r: return r.v
            finally:
                if self.st.frames and self.st.frames[-1] is fr: self.st.frames.pop()
        if isinstance(callee, Functor): return stdmodel.functor_call(self, callee, args)
        raise Unsupported('call of ' + type(callee).__name__)

    def match_args(self, f, args):
        out = []
        for p, a in zip(f['params'], args):
            if is_ref(p['t']): out.append(a if isinstance(a, Ref) else Ref(self.alloc(a)))
            else: out.append(self.load(a) if isinstance(a, Ref) else a)
        return out

    def e_CallExpr(self, e):
        import stdmodel
        if 'fn' not in e:
            c = self.val(e['callee'])
            return self.invoke(c, [self.lv(x) if x['vk'] != 'r' else self.rv(x) for x in e['c']])
        f = self.find_fn(e['fn'])
        if f is None: return stdmodel.free_call(self, e['fn'], None, e)
        args = self.args(e['c'], [p['t'] for p in f['params']])
        return self.call_fn(f, None, args)

    def method_call(self, ref, this, argexprs, e):
        """this: Ref or GPtr"""
        import stdmodel
        if ref['q'].startswith('pugi::'):
            import pugimodel
            return pugimodel.method(self, ref, this, argexprs, e)
        if isinstance(this, GPtr):
            args = self.args(argexprs, ref['pt'])
            return self.ghost_call(this, ref, args)
        key = ref['key']
        if ref.get('virt') and not (e.get('qual')):
            v = self.load(this)
            if isinstance(v, Ghost):
                return self.ghost_call(GPtr(v), ref, self.args(argexprs, ref['pt']))
            if isinstance(v, Obj): key = self.prog.resolve_virtual(v.cls, key)
        f = self.prog.fns.get(key)
        if f is None:
            if ref['q'].startswith('std::') or ref['q'].startswith('__gnu_cxx') or 'cls' in ref and ref['cls'] not in self.prog.recs:
                return stdmodel.method(self, ref, this, argexprs, e)
            if ref.get('copy') or ref.get('move'):  # implicit assignment
                a = self.arg(argexprs[0], ref['pt'][0]); v = self.load(a) if isinstance(a, Ref) else a
                self.store(this, v); return this
            raise Unsupported('no body for ' + ref['q'])
        args = self.args(argexprs, [p['t'] for p in f['params']])
        return self.call_fn(f, this, args)

    def ghost_call(self, gp, ref, args):
        h = self.ghost_methods.get((gp.ghost.kind, ref['n']))
        if h is None: raise Unsupported(f'{ref["n"]} on ghost {gp.ghost.kind}')
        return h(self, gp.ghost, args)
    ghost_methods = {}

    def e_CXXMemberCallExpr(self, e):
        ref = e.get('fn')
        if ref is None: raise Unsupported('indirect member call')
        if e['arrow']:
            p = self.rv(e['obj'])
            if isinstance(p, Ref): p = self.load(p)
            if isinstance(p, GPtr): this = p
            elif isinstance(p, Ptr):
                if p.root is None: self.oblige('null dereference', False); raise PathDead()
                this = Ref(p.root, p.path)
            else: raise Unsupported('arrow call on ' + type(p).__name__)
        else: this = self.lv(e['obj'])
        return self.method_call(ref, this, e['c'], e)

    def e_CXXOperatorCallExpr(self, e):
        import stdmodel
        if 'fn' not in e: raise Unsupported('operator call')
        ref = e['fn']
        if e.get('ismeth'):
            this = self.lv(e['c'][0])
            v0 = self.load(this) if isinstance(this, Ref) else None
            if isinstance(v0, (Lam,)) and e['op'] == '()':
                return self.invoke(v0, [self.lv(x) if x['vk'] != 'r' else self.rv(x) for x in e['c'][1:]])
            return self.method_call(ref, this, e['c'][1:], e)
        f = self.find_fn(ref)
        if f is None: return stdmodel.free_call(self, ref, None, e)
        return self.call_fn(f, None, self.args(e['c'], [p['t'] for p in f['params']]))

    def e_CXXTypeidExpr(self, e): raise Unsupported('typeid')
