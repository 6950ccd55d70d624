"""Decide one property: verify its contracts on the code exported from /repo, run the bounded stand-in, write the evidence."""
import sys, os, json, time, subprocess, importlib, threading, hashlib, re
HERE = os.path.dirname(os.path.abspath(__file__)); VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE); sys.path.insert(0, os.path.join(VERIF, 'specs'))
import program, spec
from program import BUILD, REPO

SEED = int(os.environ.get('VERIF_SEED', '1') or 1)


def known_findings(pid):
    out = []
    p = os.path.join(VERIF, 'known_findings.jsonl')
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l:
                d = json.loads(l)
                if d.get('property') == pid: out.append(d)
    return out


def repo_flags(mod):
    R = REPO + '/src'
    return ['-std=c++17', '-O1', '-w', '-D_GLIBCXX_ASSERTIONS', '-include', 'cstdint', '-include', 'stdexcept', f'-I{VERIF}/native', f'-I{R}/baf', f'-I{R}/spl', f'-I{R}/util', f'-I{R}/io',
            f'-I{REPO}/external/pugixml', f'-I{REPO}/example/iga/src', f'-I{REPO}/example/iga/src/itg', f'-I{REPO}']


class Native(threading.Thread):
    """builds and runs native/<pid>.cc against /repo's sources"""

    def __init__(self, pid, mod, tier):
        super().__init__(); self.pid, self.mod, self.tier = pid, mod, tier
        self.status = 'none'; self.fails = []; self.cases = 0; self.log = ''; self.exe = None; self.wall = 0

    def run(self):
        t0 = time.time()
        src = os.path.join(VERIF, 'native', self.pid + '.cc')
        if not os.path.exists(src): return
        work = os.path.join(BUILD, 'native', self.pid); os.makedirs(work, exist_ok=True)
        self.exe = os.path.join(work, 'harness')
        R = REPO + '/src'
        srcs = []
        for d in getattr(self.mod, 'LINK', ()):
            dd = os.path.join(REPO, d)
            srcs += [dd] if dd.endswith('.cpp') or dd.endswith('.cc') else [os.path.join(dd, f) for f in sorted(os.listdir(dd)) if f.endswith('.cc')]
        objs = []; procs = []
        for i, s in enumerate([src] + srcs):
            o = os.path.join(work, f'{i}.o'); objs.append(o)
            procs.append((s, subprocess.Popen(['g++', '-c', s, '-o', o] + repo_flags(self.mod) + list(getattr(self.mod, 'NATIVE_FLAGS', ())), stderr=subprocess.PIPE, text=True)))
        bad = ''
        for s, p in procs:
            _, err = p.communicate()
            if p.returncode: bad += f'{s}: {err[-1500:]}\n'
        if bad: self.status = 'not built'; self.log = bad; return
        p = subprocess.run(['g++'] + objs + ['-o', self.exe] + list(getattr(self.mod, 'NATIVE_LIBS', ())), capture_output=True, text=True)
        if p.returncode: self.status = 'not built'; self.log = p.stderr[-2000:]; return
        self.build_s = time.time() - t0
        self.execute(self.tier == 'thorough', 40 if self.tier == 'quick' else 400)
        self.wall = time.time() - t0

    def execute(self, thorough, budget):
        cwd = os.path.join(BUILD, 'native', self.pid, 'scratch'); os.makedirs(cwd, exist_ok=True)
        cmd = [self.exe, '--seed', str(SEED), '--budget', str(budget)] + (['--thorough'] if thorough else [])
        try: p = subprocess.run(cmd, capture_output=True, text=True, errors='replace', timeout=budget + 200, cwd=cwd)
        except subprocess.TimeoutExpired: self.status = 'timeout'; return
        self.log = p.stdout[-6000:] + p.stderr[-2000:]
        self.fails = [l for l in p.stdout.splitlines() if l.startswith('FAIL ')]
        m = re.search(r'DONE cases=(\d+)', p.stdout)
        self.cases = int(m.group(1)) if m else 0
        self.thorough_run = thorough
        self.status = 'failed' if self.fails else 'passed' if m else 'crashed'


def main():
    pid, tier = sys.argv[1], (sys.argv[2] if len(sys.argv) > 2 else 'quick')
    t0 = time.time()
    mod = importlib.import_module(pid)
    os.makedirs(BUILD, exist_ok=True)
    nat = Native(pid, mod, tier); nat.start()
    progs = {}; results = []; broken = []
    tus = getattr(mod, 'TUS', None) or ([mod.TU] if getattr(mod, 'TU', None) else [])
    only = os.environ.get('VERIF_ONLY')
    for tu in tus:
        out = os.path.join(BUILD, f'{pid}.{tu}.{os.getpid()}.json')
        try:
            program.export(os.path.join(VERIF, 'tu', tu + '.cc'), out)
            progs[tu] = program.Program.load(out)
        except program.ExtractionError as e: broken.append(str(e)[:1500])
        finally:
            if os.path.exists(out): os.remove(out)
    ts = []
    if progs:
        ts = [t for t in mod.tasks() if getattr(t, 'tu', None) is None or t.tu in progs]
        if only: ts = [t for t in ts if re.search(only, t.name)]
        if tier == 'quick': ts = [t for t in ts if not t.thorough_only]
        first = next(iter(progs.values()))
        results = spec.run_all(lambda t: progs[t.tu] if getattr(t, 'tu', None) else first, ts, tier, jobs=int(os.environ.get('VERIF_JOBS', '7')), deadline=t0 + (600 if tier == 'quick' else 3000))
    nat.join()
    # ---- verdict
    kf = known_findings(pid)
    open_kf = [k for k in kf if k.get('status') == 'open']
    obls = [(r, o) for r in results for o in r['obligations']]
    refuted = [(r, o) for r, o in obls if o['status'] == 'refuted']
    unknown = [(r, o) for r, o in obls if o['status'] == 'unknown']
    undec = [r for r in results if r['undecided']]
    fails = list(nat.fails); known_hit = []
    for k in open_kf:
        if k.get('native'):
            hit = [f for f in fails if re.search(k['native'], f)]
            fails = [f for f in fails if f not in hit]
            known_hit.append(k)
        elif k.get('obligation'):
            refuted = [(r, o) for r, o in refuted if not re.search(k['obligation'], r['task'] + ' :: ' + o['kind'])]
            known_hit.append(k)
    for k in known_hit: print(f'KNOWN-FINDING: property={pid} {k["what"]}')
    if refuted and not fails and nat.exe and os.path.exists(nat.exe) and nat.status == 'passed' and tier == 'quick':
        nat.execute(True, 120)      # look harder for a failing input
        fails = list(nat.fails)
        for k in open_kf:
            if k.get('native'): fails = [f for f in fails if not re.search(k['native'], f)]
    violation = None
    if fails or refuted:
        rd = os.path.join(VERIF, 'replay'); os.makedirs(rd, exist_ok=True)
        path = os.path.join(rd, f'{pid}.{tier}.json')
        rep = dict(property=pid, failed_obligations=[dict(task=r['task'], **o) for r, o in refuted][:20], failing_inputs=fails[:10])
        if fails:
            n = fails[0].split()[1]
            rep['replay'] = f'bash /verif/check.sh {pid} replay {n} {SEED}' + (' --thorough' if getattr(nat, 'thorough_run', False) else '')
        json.dump(rep, open(path, 'w'), indent=1)
        violation = f'VIOLATION property={pid} replay={path}' + ('' if fails else ' no-failing-input-found')
        for f in fails[:5]: print(f)
        for r, o in refuted[:8]: print(f'failed obligation: {r["task"]} :: {o["kind"]} at {o["at"]}')
    proved = [(r, o) for r, o in obls if o['status'] == 'proved']
    unb = [(r, o) for r, o in obls if not r['bounded']]; unbp = [x for x in unb if x[1]['status'] == 'proved']
    bnd = [(r, o) for r, o in obls if r['bounded']]; bndp = [x for x in bnd if x[1]['status'] == 'proved']
    complete = not unknown and not undec and not broken and not refuted
    level = getattr(mod, 'LEVEL', 'proof')
    fnames = sorted({f for r in results for f in r['functions']})
    ev = dict(property=pid, tier=tier, seed=SEED, level=level,
              coverage=dict(obligations=len(obls) + len(undec), discharged=len(proved), checker_cmd=f'bash /verif/check.sh {pid} {tier}',
                                       trusted_base=['clang 18 front end and /verif/vc/export/astexport.cc (extraction)', '/verif/vc (VC generation)', 'z3 5.3.2 / cvc5', '/verif/vc/stdmodel.py (contracts assumed for the C++ standard library)'] + list(getattr(mod, 'TRUSTED', ())),
                            unbounded=dict(obligations=len(unb), discharged=len(unbp)),
                            bounded=dict(obligations=len(bnd), discharged=len(bndp), bounds=sorted({r['bounded'] for r in results if r['bounded']})),
                            backends=count(o['backend'] for r, o in proved), solver_s=round(sum(o['time'] for r, o in obls), 2),
                            functions_under_contract=fnames, tasks=[dict(task=r['task'], obligations=len(r['obligations']), proved=sum(o['status'] == 'proved' for o in r['obligations']), bounded=r['bounded'], undecided=r['undecided'], paths=r['paths'], wall=r['wall'], contracts=r.get('contracts', [])) for r in results],
                            stand_in=dict(harness=f'native/{pid}.cc', status=nat.status, cases=nat.cases, seed=SEED, wall=round(nat.wall, 1), label='bounded: sampled inputs, never counted as proved')),
              assumptions=list(getattr(mod, 'ASSUME', ())) + ['double is treated as a mathematical real in the proofs; rounding is only seen by the bounded stand-in', 'signed int is treated as a mathematical integer except for literals; unsigned wrap-around is modelled'] + sorted({a for r in results for a in r.get('assumed', [])}),
              wall_s=round(time.time() - t0, 1), violations=1 if violation else 0)
    if broken: ev['coverage']['extraction_problem'] = broken
    if nat.status not in ('passed', 'failed', 'none'): ev['coverage']['stand_in']['log'] = nat.log[-1500:]
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    json.dump(ev, open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w'), indent=1)
    print(f'{pid} [{tier}] obligations {len(proved)}/{len(obls)} discharged (unbounded {len(unbp)}/{len(unb)}, bounded {len(bndp)}/{len(bnd)}), undecided tasks {len(undec)}, stand-in {nat.status} ({nat.cases} cases), {time.time() - t0:.1f} s')
    if os.environ.get('VERIF_VERBOSE'):
        for r in sorted(results, key=lambda r: -r['wall']):
            print(f"  {r['task']}: {sum(o['status'] == 'proved' for o in r['obligations'])}/{len(r['obligations'])} paths={r['paths']} {r['wall']}s {r['undecided'] or ''}")
            for o in [o for o in r['obligations'] if o['status'] != 'proved'][:2]:
                print('     ', o['status'], o['kind'], o['at'], o.get('goal', '')[:300], '\n         model:', o.get('model', '')[:300].replace('\n', ' '))
        if nat.status != 'passed': print(nat.log[-3000:])
    if violation:
        print(violation); return 1
    return 0


def count(xs):
    d = {}
    for x in xs: d[x] = d.get(x, 0) + 1
    return d


if __name__ == '__main__':
    if len(sys.argv) > 2 and sys.argv[2] == 'replay':
        pid = sys.argv[1]; mod = importlib.import_module(pid)
        nat = Native(pid, mod, 'quick')
        nat.execute = lambda *a: None
        nat.run()
        sys.exit(subprocess.run([nat.exe, '--case', sys.argv[3], '--seed', sys.argv[4]] + sys.argv[5:]).returncode)
    sys.exit(main())
