"""Tasks: pieces of specification run against the exported code. A task is a Python function that builds an arbitrary
(symbolic) pre-state, runs real functions of /repo on it and states postconditions as obligations."""
import time, traceback, os, signal, json, sys, multiprocessing
import z3
from values import *
import values as V
import execu, prove, loops
from execu import Exec, Obligation


class Task:
    def __init__(self, name, fn, contracts=None, bounded=None, timeout=8, axioms=None, limit=240, ghosts=None, setup=None, backends=('z3', 'cvc5'), thorough_only=False, feas=400, exact=False, small=()):
        self.name, self.fn, self.contracts, self.bounded, self.timeout, self.axioms, self.limit = name, fn, contracts, bounded, timeout, axioms, limit
        self.ghosts = ghosts or {}; self.setup = setup; self.backends = backends; self.thorough_only = thorough_only; self.feas = feas; self.exact = exact
        self.small = small    # sizes at which an undecided obligation is searched for a counterexample


class Api:
    def __init__(self, ex, small=None): self.ex = ex; self.prog = ex.prog; self.small = small

    def new(self, cls, *args):
        """construct an object of a repository class; returns a Ref"""
        return Ref(self.ex.alloc(self.ex.construct_args(cls, list(args), [cls + ' &'] if len(args) == 1 and isinstance(args[0], Ref) else None)))

    def new_with(self, cls, types, *args):
        return Ref(self.ex.alloc(self.ex.construct_args(cls, list(args), types)))

    def method(self, cls, name, n, pt=None, const=None):
        c = []
        for k in [cls] + self.prog.bases(cls):
            c = [f for f in self.prog.by_q.get(k + '::' + name, []) if len(f['params']) == n]
            if pt is not None: c = [f for f in c if all(w in p['t'] for w, p in zip(pt, f['params']))]
            if const is not None: c = [f for f in c if bool(f.get('tconst')) == const]
            if c: break
        if not c: raise Unsupported(f'the code has no function {cls}::{name}/{n}')
        if len(c) > 1:
            cc = [f for f in c if f.get('tconst')]
            if len(cc) == 1: return cc[0]
            raise Unsupported(f'{cls}::{name}/{n} is ambiguous')
        return c[0]

    def call(self, ref, name, *args, pt=None, const=None):
        v = self.ex.load(ref)
        if isinstance(v, Ptr): ref = Ref(v.root, v.path); v = self.ex.load(ref)
        f = self.method(v.cls, name, len(args), pt, const)
        r = self.ex.call_fn(f, ref, self.ex.match_args(f, list(args)))
        return self.ex.load(r) if isinstance(r, Ref) else r

    def static(self, q, *args):
        c = self.prog.find(q, len(args))
        if len(c) != 1: raise Unsupported(f'no unique function {q}/{len(args)}')
        r = self.ex.call_fn(c[0], None, self.ex.match_args(c[0], list(args)))
        return self.ex.load(r) if isinstance(r, Ref) else r

    def assume(self, c): self.ex.assume(c)

    def ensure(self, what, goal):
        if py_bool(goal) is True and self.ex.record and not self.ex.replaying():
            self.ex.obls.append(Obligation(self.ex.cur_fn, what, list(self.ex.st.pc), z3.BoolVal(True), 'postcondition'))
        else: self.ex.oblige(what, goal)

    def extremum_at(self, *idx):
        for i in idx:
            for c in loops.extremum_instances(i): self.ex.assume(c)

    def instantiate(self, *terms):
        """instances of the one-variable facts of this path at the given integer terms (what a prover may do anyway)"""
        new = []
        for c in self.ex.st.pc:
            if z3.is_quantifier(c) and c.is_forall() and c.num_vars() == 1 and c.var_sort(0) == z3.IntSort():
                new += [z3.substitute_vars(c.body(), to_int(t)) for t in terms]
        for c in new: self.ex.assume(c)

    def load(self, r): return self.ex.load(r)

    def ptr(self, v): return Ptr(self.ex.alloc(v))

    def nt(self, cls, v): return Obj(cls, {self.ntfield(cls): v})

    def ntfield(self, cls): return self.prog.recs[cls]['fields'][0]['n']

    def throws(self, thunk):
        """run thunk; returns the exception type name or None (paths split as usual)"""
        depth = self.ex.depth; nfr = len(self.ex.st.frames)
        try: thunk()
        except execu.ThrowEx as t:
            self.ex.depth = depth; del self.ex.st.frames[nfr:]
            return t.etype
        return None


def uniq(obls):
    seen = set(); out = []
    for o in obls:
        k = (o.kind, o.goal.get_id(), tuple(h.get_id() for h in o.hyps))
        if k in seen: continue
        seen.add(k); out.append(o)
    return out


def run_once(prog, task, tier='quick', small=None):
    t0 = time.time(); V.COUNTER[0] = 0; loops.EXT_USES.clear()
    ex = Exec(prog, contracts=task.contracts or {}, bounded=bool(task.bounded)); ex.ghost_methods = dict(task.ghosts); ex.cur_fn = task.name; ex.feas_timeout = task.feas
    res = dict(task=task.name, bounded=task.bounded, obligations=[], undecided=None, functions=[], paths=0)
    api = Api(ex, small)
    try:
        outs = ex.explore(lambda: task.fn(api))
        for o in outs:
            if o.kind == 'throw':
                ex.obls.append(Obligation(task.name, f'no unexpected exception ({o.etype})', list(o.st.pc), z3.BoolVal(False), task.name))
            elif o.kind not in ('normal', 'return'):
                ex.obls.append(Obligation(task.name, 'leaves normally', list(o.st.pc), z3.BoolVal(False), task.name))
        res['paths'] = len(outs)
        # vacuity: some path must be possible
        ok = False
        for o in outs:
            s = z3.Solver(); s.set('timeout', 1500)
            for c in o.st.pc: s.add(c)
            if s.check() != z3.unsat: ok = True; break
        if not ok: res['undecided'] = 'vacuous: no path satisfies the preconditions'
        obls = uniq(ex.obls)
        if not obls and ok: obls = []
        for o in obls:
            st = prove.discharge(o, axioms=task.axioms, timeout=task.timeout, backends=task.backends, exact=task.exact)
            rec = dict(kind=o.kind, at=o.loc, status=st, backend=o.backend, time=round(o.time, 3))
            if st != 'proved':
                rec['goal'] = str(z3.simplify(o.failed))[:1500] if getattr(o, 'failed', None) is not None else ''
                if o.model is not None: rec['model'] = str(o.model)[:3000]
                rec['candidate'] = bool(getattr(o, 'candidate', False))
            res['obligations'].append(rec)
            if time.time() - t0 > task.limit: res['undecided'] = 'time limit of the task'; break
        if not obls: res['trivial'] = True
    except (Unsupported, CannotMerge) as e:
        res['undecided'] = f'{type(e).__name__}: {e}'[:600]
        # obligations met before the unsupported construct were not all collected: nothing is concluded from them
    except RecursionError:
        res['undecided'] = 'recursion limit'
    except z3.Z3Exception as e:
        res['undecided'] = f'z3: {e} ' + traceback.format_exc()[-700:]
    except Exception as e:
        res['undecided'] = f'internal: {type(e).__name__}: {e} ' + traceback.format_exc()[-900:]
    res['functions'] = sorted(ex.entered); res['contracts'] = sorted(ex.used_contracts); res['assumed'] = sorted(ex.assumed_std)
    res['evaluated'] = ex.npost if hasattr(ex, 'npost') else None
    res['wall'] = round(time.time() - t0, 2)
    return res


def run_task(prog, task, tier='quick'):
    """the obligations of a task; undecided ones are searched for a counterexample at small sizes (never used as a proof)"""
    res = run_once(prog, task, tier)
    if task.small and (res['undecided'] or any(o['status'] == 'unknown' for o in res['obligations'])) and not any(o['status'] == 'refuted' for o in res['obligations']):
        for n in task.small:
            r = run_once(prog, task, tier, n)
            bad = [o for o in r['obligations'] if o['status'] == 'refuted']
            if bad:
                for o in bad: o['kind'] += f' (counterexample at size {n})'
                res['obligations'] += bad; break
            if res['wall'] + r['wall'] > task.limit: break
    return res


def _worker(args):
    prog, task, conn, tier = args


def run_all(prog_of, tasks, tier='quick', jobs=7, deadline=None):
    """run tasks in parallel processes, each with its own time limit"""
    results = [None] * len(tasks); running = {}; todo = list(range(len(tasks)))
    ctx = multiprocessing.get_context('fork')

    def start(i):
        r, w = ctx.Pipe(False)

        def body():
            sys.setrecursionlimit(20000)
            try: w.send(run_task(prog_of(tasks[i]), tasks[i], tier))
            except BaseException as e: w.send(dict(task=tasks[i].name, bounded=tasks[i].bounded, obligations=[], undecided=f'internal: {e!r}', functions=[], paths=0, wall=0))
            w.close()
        p = ctx.Process(target=body); p.start(); w.close()
        running[i] = (p, r, time.time())
    while todo or running:
        while todo and len(running) < jobs: start(todo.pop(0))
        time.sleep(0.02)
        for i, (p, r, t0) in list(running.items()):
            lim = tasks[i].limit * (1 if tier == 'quick' else 3)
            if deadline: lim = min(lim, max(5, deadline - t0))
            if r.poll():
                try: results[i] = r.recv()
                except EOFError: results[i] = dict(task=tasks[i].name, bounded=tasks[i].bounded, obligations=[], undecided='the prover process ended', functions=[], paths=0, wall=0)
                p.join(); del running[i]
            elif not p.is_alive():
                results[i] = dict(task=tasks[i].name, bounded=tasks[i].bounded, obligations=[], undecided='the prover process ended', functions=[], paths=0, wall=0); del running[i]
            elif time.time() - t0 > lim + 10:
                p.kill(); p.join(); results[i] = dict(task=tasks[i].name, bounded=tasks[i].bounded, obligations=[], undecided=f'time limit {lim:.0f} s', functions=[], paths=0, wall=lim); del running[i]
    return results
