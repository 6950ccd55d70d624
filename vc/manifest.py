"""Writes MANIFEST.json from properties.jsonl and the specs that exist (run by hand after adding a spec)."""
import json, os, sys, importlib
HERE = os.path.dirname(os.path.abspath(__file__)); VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE); sys.path.insert(0, os.path.join(VERIF, 'specs'))
NOTE = {}
checks, na = [], []
for l in open(os.path.join(VERIF, 'properties.jsonl')):
    p = json.loads(l); pid = p['id']
    if os.path.exists(os.path.join(VERIF, 'specs', pid + '.py')):
        m = importlib.import_module(pid)
        if getattr(m, 'NA', None): na.append(dict(property=pid, reason=m.NA)); continue
        names = [t.name for t in m.tasks()]
        checks.append(dict(property=pid, quick_cmd=f'bash check.sh {pid} quick', thorough_cmd=f'bash check.sh {pid} thorough', evidence_file=f'evidence/{pid}.json', level=getattr(m, 'LEVEL', 'proof'),
                           technique=getattr(m, 'TECHNIQUE', 'contracts on the real C++ functions, obligations generated from the clang AST of /repo and discharged by z3/cvc5; bounded native contract check as stand-in'),
                           level_note=getattr(m, 'NOTE', 'Doubles are mathematical reals and ints mathematical integers in the proofs; the C++ standard library is assumed through vc/stdmodel.py. Rounding and what the prover cannot reach are covered only by the bounded native stand-in.'),
                           theorems=names))
    else: na.append(dict(property=pid, reason='no check built yet'))
json.dump(dict(version=1, setup_cmd='bash setup.sh', checks=checks, not_applicable=na,
               hooks=dict(guard='none', enable='no hooks are needed: the checks read the sources of /repo as they are', source_commits=[]),
               notes='See DESIGN.md. Checks build into /verif/.build (git-ignored).'), open(os.path.join(VERIF, 'MANIFEST.json'), 'w'), indent=1)
