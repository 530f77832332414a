"""Loads the extractor's output: types, records, functions of /repo's current tree."""
import json, os, subprocess, sys, tempfile, shutil

HERE = os.path.dirname(os.path.abspath(__file__))
BUILD = os.path.join(os.path.dirname(HERE), 'build')
REPO = os.environ.get('YAGA_REPO', '/repo')
SUBDIRS = ['bool', 'lra', 'uf', 'terms', 'parser', 'variable_order', 'utils']


class ExtractError(Exception):
    pass


def include_flags(repo=None):
    r = repo or REPO
    return ['-I%s/src' % r] + ['-I%s/src/%s' % (r, d) for d in SUBDIRS]


def unity_text(repo=None):
    r = repo or REPO
    src = os.path.join(r, 'src')
    files = []
    for base, dirs, fs in os.walk(src):
        dirs.sort()
        for f in sorted(fs):
            if f.endswith('.cpp') and 'test' not in f and f not in ('sat_solver.cpp', 'smt_solver.cpp'):
                files.append(os.path.join(base, f))
    files.append(os.path.join(src, 'sat_solver.cpp'))
    return ''.join('#include "%s"\n' % f for f in files if os.path.exists(f)), files


class Ty:
    __slots__ = ('prog', 'idx', 'k', 's', 'q', 'd', '_targs', 'bits', 'signed')

    def __init__(self, prog, idx, d):
        self.prog, self.idx, self.d = prog, idx, d
        self.k = d['k']; self.s = d['s']; self.q = d.get('q', '')
        self.bits = d.get('bits', 32); self.signed = d.get('signed', True)
        self._targs = None

    @property
    def elem(self):
        return self.prog.types[self.d['t']]

    @property
    def targs(self):
        if self._targs is None:
            r = []
            for a in self.d.get('targs', []):
                if 't' in a: r.append(self.prog.types[a['t']])
                elif 'i' in a: r.append(int(a['i']))
                else: r.append(None)
            self._targs = r
        return self._targs

    def nonref(self):
        t = self
        while t.k == 'ref':
            t = t.elem
        return t

    @property
    def rec(self):
        return self.prog.records.get(self.s)

    def is_std(self, *names):
        return self.k == 'rec' and self.q in names

    def __repr__(self):
        return '<%s>' % self.s


def strip_targs(q):
    out = []; d = 0
    i = 0
    while i < len(q):
        c = q[i]
        if q.startswith('operator<=>', i): out.append('operator<=>') if d == 0 else None; i += 11; continue
        if q.startswith('operator<', i) or q.startswith('operator>', i) or q.startswith('operator->', i):
            j = i + 8
            while j < len(q) and q[j] in '<>=-*': j += 1
            if d == 0: out.append(q[i:j])
            i = j; continue
        if c == '<': d += 1
        elif c == '>': d -= 1
        elif d == 0: out.append(c)
        i += 1
    return ''.join(out)


class Prog:
    def __init__(self, path):
        d = json.load(open(path))
        if d.get('errors'):
            raise ExtractError('clang reported errors')
        self.types = []
        for i, t in enumerate(d['types']):
            self.types.append(Ty(self, i, t))
        self.funcs = d['funcs']
        for k in list(self.funcs):
            if self.funcs[k] is None:
                del self.funcs[k]
            else:
                self.funcs[k]['key'] = k
        self.records = d['records']
        self.globals = d['globals']
        self.bystr = {t.s: t for t in self.types}
        self.byq = {}
        for k, f in self.funcs.items():
            f['qs'] = strip_targs(f['q'])
            self.byq.setdefault(f['q'], []).append(f)
            if f['qs'] != f['q']: self.byq.setdefault(f['qs'], []).append(f)
        self._n = 0
        for k in sorted(self.funcs):
            self.number(self.funcs[k])
        for k in sorted(self.globals):
            self.number(self.globals[k])
        for k in sorted(self.records):
            self.number(self.records[k])
        self.ctors = {}
        for f in self.funcs.values():
            if f['kind'] == 'ctor':
                self.ctors.setdefault(self.types[f['cls']].s, []).append(f)
        self.overriders = {}
        for f in self.funcs.values():
            for o in f.get('overrides', []) or []:
                self.overriders.setdefault(o, []).append(f)

    def number(self, x):
        """stable node numbers (names of temporaries and loops)"""
        st = [x]
        while st:
            x = st.pop()
            if isinstance(x, dict):
                self._n += 1
                x['_i'] = self._n
                st.extend(v for v in x.values() if isinstance(v, (dict, list)))
            else:
                st.extend(v for v in x if isinstance(v, (dict, list)))

    def ty(self, i):
        return self.types[i]

    def find(self, q, pred=None):
        fs = self.byq.get(q, [])
        if pred:
            fs = [f for f in fs if pred(f)]
        return fs

    def ptypes(self, f):
        return [self.types[p['t']].s for p in f['params']]


def extract(repo=None, extra=None, keep=None):
    """Run the extractor over one translation unit that includes every source file of /repo."""
    r = repo or REPO
    subprocess.run([os.path.join(HERE, 'build_extractor.sh')], check=True, stdout=subprocess.DEVNULL)
    tmp = tempfile.mkdtemp(prefix='yagavc.')
    try:
        src = os.path.join(tmp, 'unity.cpp')
        text, files = unity_text(r)
        with open(src, 'w') as f:
            f.write(text)
            f.write(extra or '')
        out = os.path.join(tmp, 'u.json')
        p = subprocess.run([os.path.join(BUILD, 'yagax'), r + '/src/', out, src, '-std=c++20', '-w'] + include_flags(r),
                           capture_output=True, text=True)
        if p.returncode != 0 or not os.path.exists(out):
            raise ExtractError('extraction failed: ' + p.stderr[-2000:])
        if keep:
            shutil.copy(out, keep)
        return Prog(out)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


if __name__ == '__main__':
    p = extract(keep=sys.argv[1] if len(sys.argv) > 1 else None)
    print(len(p.funcs), 'functions')
