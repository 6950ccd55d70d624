"""Discharging obligations: z3, then cvc5. Sums are uninterpreted apart from ground instances of their defining laws."""
import time, z3
from values import *
import loops, ring

SUMS = {'Sum', 'SumI', 'Prod', 'ProdI'}


def sum_terms(t, out, seen):
    todo = [t]
    while todo:
        t = todo.pop()
        if t.get_id() in seen: continue
        seen.add(t.get_id())
        if z3.is_quantifier(t): continue
        if z3.is_app(t):
            if t.decl().name() in SUMS and not has_var(t): out[t.get_id()] = t
            todo.extend(t.children())


def has_var(t):
    """does t contain a de Bruijn variable not bound inside"""
    def go(t, depth, memo):
        key = (t.get_id(), depth)
        if key in memo: return memo[key]
        if z3.is_var(t): r = z3.get_var_index(t) >= depth
        elif z3.is_quantifier(t): r = go(t.body(), depth + t.num_vars(), memo)
        else: r = any(go(c, depth, memo) for c in t.children())
        memo[key] = r
        return r
    return go(t, 0, {})


def beta(f, j): return z3.simplify(z3.substitute_vars(f.body(), j)) if z3.is_quantifier(f) else f[j]


def sum_lemmas(formulas, rounds=3, extra=()):
    """ground instances of the laws of Sum/Prod for the terms occurring in the formulas"""
    lemmas = []; done = set(); seen = set(); terms = {}
    work = list(formulas)
    for r in range(rounds):
        new = {}
        for f in work: sum_terms(f, new, seen)
        new = {k: v for k, v in new.items() if k not in terms}
        if not new: break
        old = list(terms.values()); terms.update(new); work = []
        allt = list(terms.values())
        for t in new.values():
            f, n = t.children(); nm = t.decl().name()
            unit = (z3.RealVal(1) if nm == 'Prod' else z3.IntVal(1) if nm == 'ProdI' else z3.RealVal(0) if nm == 'Sum' else z3.IntVal(0))
            work.append(z3.Implies(n <= 0, t == unit))
            if nm == 'SumI':
                w = fresh('w'); work.append(z3.Or(t >= 0, z3.And(w >= 0, w < n, beta(f, w) < 0)))
                w = fresh('w'); work.append(z3.Or(t <= n, n < 0, z3.And(w >= 0, w < n, beta(f, w) > 1)))
            for u in allt:
                if u is t or u.decl().name() != nm: continue
                g, m = u.children()
                key = tuple(sorted((t.get_id(), u.get_id())))
                if key in done: continue
                done.add(key)
                if f.eq(g):
                    # Sum(f, n+1) = Sum(f, n) + f(n)
                    d = conc_int(z3.simplify(m - n))
                    if d == 1: a, b, nn = t, u, n
                    elif d == -1: a, b, nn = u, t, m
                    else:
                        work.append(z3.Implies(n == m, t == u)); continue
                    x = beta(f, nn)
                    work.append(z3.Implies(nn >= 0, b == (a + x if nm in ('Sum', 'SumI') else a * x)))
                else:
                    w = fresh('w')
                    work.append(z3.Or(t == u, n != m, z3.And(w >= 0, w < n, beta(f, w) != beta(g, w))))
                    # one more step: Sum(f,n+1) against Sum(g,n)+g(n) is found through unfolding of equal prefixes
        lemmas += work
    return lemmas


def sqrt_lemmas(formulas):
    """the defining law of the square root for the ground roots occurring in the formulas"""
    out = []; seen = set(); todo = list(formulas)
    while todo:
        t = todo.pop()
        if t.get_id() in seen: continue
        seen.add(t.get_id())
        if z3.is_quantifier(t): continue
        if z3.is_app(t):
            if t.decl().name() == 'sqrt' and t.num_args() == 1 and not has_var(t): out.append(z3.Implies(t.arg(0) >= 0, z3.And(t >= 0, t * t == t.arg(0))))
            todo.extend(t.children())
    return out


def abstract_sums(formulas):
    """replace ground Sum terms by constants so that no lambda reaches the solvers"""
    terms = {}; seen = set()
    for f in formulas: sum_terms(f, terms, seen)
    ts = sorted(terms.values(), key=lambda t: -len(t.sexpr()))
    pairs = [(t, fresh('S', t.sort())) for t in ts]
    out = []
    for f in formulas:
        for p in pairs: f = z3.substitute(f, p)
        out.append(f)
    return out


def unfold_prefix(goal_and_hyps):
    return []


def check(formulas, timeout, solver='z3'):
    if solver == 'z3':
        s = z3.Solver(); s.set('timeout', int(timeout * 1000))
        for f in formulas: s.add(f)
        r = s.check()
        return ('unsat' if r == z3.unsat else 'sat' if r == z3.sat else 'unknown'), (s.model() if r == z3.sat else None)
    if solver == 'z3-nlsat':
        s = z3.Tactic('qfnra-nlsat').solver(); s.set('timeout', int(timeout * 1000))
        for f in formulas: s.add(f)
        try: r = s.check()
        except z3.Z3Exception: return 'unknown', None
        return ('unsat' if r == z3.unsat else 'sat' if r == z3.sat else 'unknown'), (s.model() if r == z3.sat else None)
    if solver == 'cvc5':
        import subprocess
        s = z3.Solver()
        for f in formulas: s.add(f)
        txt = '(set-logic ALL)\n' + s.to_smt2()
        try: out = subprocess.run(['cvc5', '--lang=smt2', f'--tlimit={int(timeout * 1000)}', '-'], input=txt, capture_output=True, text=True, timeout=timeout + 1).stdout
        except (subprocess.TimeoutExpired, OSError): return 'unknown', None
        out = out.strip().split('\n')[0] if out.strip() else 'unknown'
        return (out if out in ('sat', 'unsat') else 'unknown'), None
    raise ValueError(solver)


def conjuncts(g):
    """split a goal: conjunctions apart, universally quantified variables to fresh constants"""
    if z3.is_and(g):
        for c in g.children(): yield from conjuncts(c)
    elif z3.is_quantifier(g) and g.is_forall():
        vs = [fresh('sk', g.var_sort(i)) for i in range(g.num_vars())]
        yield from conjuncts(z3.substitute_vars(g.body(), *reversed(vs)))
    elif z3.is_implies(g) and (z3.is_and(g.arg(1)) or z3.is_quantifier(g.arg(1)) or z3.is_implies(g.arg(1))):
        for c in conjuncts(g.arg(1)): yield z3.Implies(g.arg(0), c)
    else: yield g


def ring_goal(g):
    while z3.is_implies(g): g = g.arg(1)
    if not (z3.is_eq(g) and z3.is_arith(g.arg(0))): return False
    return ring.equal(g.arg(0), g.arg(1))


def has_quant(f):
    todo = [f]; seen = set()
    while todo:
        t = todo.pop()
        if t.get_id() in seen: continue
        seen.add(t.get_id())
        if z3.is_quantifier(t): return True
        todo.extend(t.children())
    return False


def ext_name(f):
    todo = [f]; seen = set()
    while todo:
        t = todo.pop()
        if t.get_id() in seen: continue
        seen.add(t.get_id())
        if z3.is_quantifier(t): todo.append(t.body()); continue
        if z3.is_app(t):
            if t.decl().name().startswith(('ext!', 'DIG', 'SPAN')): return True
            todo.extend(t.children())
    return False


def relevant(hyps, goal): return hyps


def discharge(ob, axioms=None, timeout=8, backends=('z3', 'cvc5'), exact=False):
    """sets ob.status to 'proved' | 'refuted' | 'unknown'"""
    t0 = time.time(); status = 'proved'; used = []
    for g in conjuncts(ob.goal):
        if z3.is_true(z3.simplify(g)): used.append('simplifier'); continue
        if ring_goal(g): used.append('ring'); continue
        fs = list(ob.hyps) + [z3.Not(g)]
        extra = list(ob.facts)
        if axioms: extra += axioms(fs + extra)
        lem = sqrt_lemmas(fs + extra); lem += sum_lemmas(fs + extra + lem)
        if axioms and lem: extra += axioms(lem)
        allf = fs + extra + lem
        hassum = bool(lem) or any(loops.mentions(f, {'sqrt'}) or ext_name(f) for f in allf) or any(loops.mentions(f, SUMS) for f in allf)
        if lem: allf = abstract_sums(allf)
        res = 'unknown'; model = None
        qf = [f for f in allf if not has_quant(f)]
        if len(qf) < len(allf) and hassum:
            # quantified facts are often not needed; leaving hypotheses out is sound
            r0, _ = check(qf, min(2, timeout), 'z3')
            if r0 == 'unsat': used.append('z3'); continue
        for b, to in ([(backends[0], min(2, timeout))] + [(b, timeout) for b in backends[1:]] + [(backends[0], timeout)]):
            res, model = check(allf, to, b)
            if res != 'unknown': used.append(b); break
        if res == 'unsat': continue
        if res == 'sat':
            ob.model = model; ob.failed = g
            status = 'refuted' if (exact or not hassum and not (axioms and extra)) else 'unknown'
            ob.candidate = True
            break
        status = 'unknown'; ob.failed = g
        break
    if status == 'refuted' and ob.kind.startswith('protocol'): status = 'unknown'; ob.candidate = False      # a different way of using the same functions may still be right
    if status == 'refuted' and ob.kind in ('loop description is inductive', 'loop condition holds before the computed trip count', 'loop condition fails at the computed trip count'):
        status = 'unknown'; ob.candidate = False        # the description of the loop was a bad guess; nothing follows about the code
    ob.status = status; ob.backend = '+'.join(sorted(set(used))) or 'none'; ob.time = time.time() - t0
    return status
