"""Loads what astexport wrote for one translation unit and answers questions about types and functions."""
import json, os, subprocess, hashlib, sys, functools

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get('VERIF_REPO', '/repo')
BUILD = os.path.join(VERIF, '.build')


def ensure_exporter():
    os.makedirs(BUILD, exist_ok=True)
    exe = os.path.join(BUILD, 'astexport')
    src = os.path.join(HERE, 'export', 'astexport.cc')
    stamp = exe + '.sha'
    h = hashlib.sha256(open(src, 'rb').read()).hexdigest()
    if os.path.exists(exe) and os.path.exists(stamp) and open(stamp).read() == h: return exe
    import fcntl
    with open(exe + '.lock', 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if os.path.exists(exe) and os.path.exists(stamp) and open(stamp).read() == h: return exe
        subprocess.run(['bash', os.path.join(HERE, 'export', 'build.sh'), exe], check=True)
        open(stamp, 'w').write(h)
    return exe


class ExtractionError(Exception):
    pass


def export(tu_path, out, extra=()):
    exe = ensure_exporter()
    R = REPO + '/src'
    flags = ['-std=c++17', '-resource-dir', '/usr/lib/llvm-18/lib/clang/18', '-include', 'cstdint', '-include', 'stdexcept',
             '-w', f'-I{R}/baf', f'-I{R}/spl', f'-I{R}/util', f'-I{R}/io', f'-I{REPO}/external/pugixml',
             f'-I{REPO}/example/iga/src', f'-I{REPO}/example/iga/src/itg', f'-I{REPO}'] + list(extra)
    p = subprocess.run([exe, out, tu_path, REPO + '/', '--'] + flags, capture_output=True, text=True)
    if p.returncode != 0 or not os.path.exists(out):
        raise ExtractionError('clang could not process the translation unit:\n' + p.stderr[-4000:])
    return out


@functools.lru_cache(None)
def parse_type(t):
    """'const std::vector<double, A> &' -> (name, [args])  (cv and reference stripped)"""
    t = strip_type(t)
    i = t.find('<')
    if i < 0 or not t.endswith('>'): return (t, ())
    name = t[:i]; depth = 0; args = []; cur = ''
    for ch in t[i + 1:-1]:
        if ch in '<([': depth += 1
        if ch in '>)]': depth -= 1
        if ch == ',' and depth == 0: args.append(cur.strip()); cur = ''
        else: cur += ch
    args.append(cur.strip())
    return (name, tuple(args))


@functools.lru_cache(None)
def strip_type(t):
    t = t.strip()
    while True:
        if t.endswith('&&'): t = t[:-2].strip()
        elif t.endswith('&'): t = t[:-1].strip()
        elif t.startswith('const ') and not t.endswith('*'): t = t[6:].strip()
        elif t.endswith(' const') : t = t[:-6].strip()
        elif t.endswith('*const'): t = t[:-5].strip()
        else: return t


def is_ref(t): return t.rstrip().endswith('&')


def is_ptr(t): return strip_type(t).endswith('*')


INT_TYPES = {'int': (32, True), 'long': (64, True), 'unsigned long': (64, False), 'unsigned int': (32, False), 'short': (16, True),
             'char': (8, True), 'unsigned char': (8, False), 'long long': (64, True), 'unsigned long long': (64, False), 'signed char': (8, True), 'unsigned short': (16, False)}
REAL_TYPES = {'double', 'float', 'long double'}


class Program:
    def __init__(self, data):
        self.fns = data['functions']; self.recs = data['records']
        self.by_q = {}
        for k, f in self.fns.items(): self.by_q.setdefault(f['f']['q'], []).append(f)
        self.ctors = {}
        for k, f in self.fns.items():
            if f['f'].get('ctor'): self.ctors.setdefault(f['f']['cls'], []).append(f)
        self._bases = {}
        self.overriders = {}

    @staticmethod
    def load(path): return Program(json.load(open(path)))

    def all_fields(self, cls):
        """fields of cls including those of its bases"""
        r = self.recs.get(cls)
        if r is None: return None
        out = []
        for b in r['bases']:
            bf = self.all_fields(b)
            if bf: out += bf
        return out + r['fields']

    def bases(self, cls):
        if cls in self._bases: return self._bases[cls]
        r = self.recs.get(cls); out = []
        if r:
            for b in r['bases']: out += [b] + self.bases(b)
        self._bases[cls] = out
        return out

    def is_derived(self, cls, base): return cls == base or base in self.bases(cls)

    def resolve_virtual(self, cls, key):
        """final overrider of method key in dynamic class cls"""
        c = cls
        order = [cls] + self.bases(cls)
        for c in order:
            r = self.recs.get(c)
            if not r: continue
            for m in r['methods']:
                if m['key'] == key: return key
                if key in m['ov'] or self._ov_trans(m, key): return m['key']
        return key

    def _ov_trans(self, m, key):
        todo = list(m['ov']); seen = set()
        while todo:
            k = todo.pop()
            if k == key: return True
            if k in seen: continue
            seen.add(k)
            for r in self.recs.values():
                for mm in r['methods']:
                    if mm['key'] == k: todo += mm['ov']
        return False

    def find(self, q, nparams=None):
        c = self.by_q.get(q, [])
        if nparams is not None: c = [f for f in c if len(f['params']) == nparams]
        return c
