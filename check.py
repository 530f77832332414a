#!/usr/bin/env python3-vt
"""check.py PROPERTY quick|thorough -- decides one property on /repo's current tree.

Extracts the code with clang, generates the proof obligations of every function under contract for the property,
discharges them, and on a failed obligation searches for a failing input on the real code (native/<property>.cpp).
"""
import sys, os, time, json, subprocess, tempfile, shutil, importlib, signal, glob
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, 'yagavc')); sys.path.insert(0, os.path.join(HERE, 'contracts'))
REPO = os.environ.get('YAGA_REPO', '/repo')
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
T0 = time.time()


def log(*a):
    print(*a, flush=True)


# ---------------------------------------------------------------------------------------------
# proof part (runs in worker processes)
# ---------------------------------------------------------------------------------------------
_prog = None
_spec = None


def mkworld():
    import stl
    from vcg import World
    w = World(_prog); stl.install(w)
    w.contracts = []
    for m in _spec['modules'] + _spec.get('uses', []):
        mod = importlib.import_module(m)
        w.contracts += mod.CONTRACTS
        if hasattr(mod, 'world'): mod.world(w)
    return w


def worker(job):
    import verify
    i, key, wall = job
    os.setpgrp() if False else None
    try:
        w = mkworld()
        con = w.contracts[i]
        r = verify.verify_function(w, _prog.funcs[key], con, wall=wall)
        r['inlined'] = sorted(w.inlined)
        return r
    except Exception as x:
        import traceback
        return {'function': key, 'contract': '?', 'status': 'unsupported', 'reason': 'internal: %r' % x, 'obligations': 0, 'discharged': 0, 'failed': [], 'backends': {}, 'wall_s': 0, 'solver_s': 0, 'used': [], 'inlined': [], 'paths': 0}


def prove(pid, spec, tier):
    global _prog, _spec
    import prog as P, verify
    from multiprocessing import Pool
    _spec = spec
    t = time.time()
    _prog = P.extract(extra=spec.get('extra'))
    log('extracted %d functions in %.1fs' % (len(_prog.funcs), time.time() - t))
    w = mkworld()
    mine = set()
    for m in spec['modules']:
        for c in importlib.import_module(m).CONTRACTS: mine.add(id(c))
    jobs = []; missing = []
    wall = spec.get('wall', 240) * (2 if tier == 'thorough' else 1)
    only = spec.get('only')
    for i, c in enumerate(w.contracts):
        if id(c) not in mine or c.trusted: continue
        if only and c.name not in only: continue
        ts = verify.targets(w, c)
        if not ts: missing.append(c.name + ' (' + c.q + ')')
        for f in ts: jobs.append((getattr(c, 'weight', 1), i, f['key']))
    jobs.sort(key=lambda j: -j[0])
    res = []
    with Pool(min(8, max(1, len(jobs))), maxtasksperchild=1) as pool:     # each function in a fresh process: results do not depend on scheduling
        it = pool.imap_unordered(worker, [(i, k, wall) for _, i, k in jobs])
        for r in it:
            res.append(r)
            if r['status'] != 'ok':
                log('  %s %s: %s %s' % (r['contract'], r['function'], r['status'], r.get('reason', '')))
                for f in r['failed']: log('     failed obligation: %s (in %s, line %s, %s)' % (f['obligation'], f['in'], f['line'], f['result']))
    for m in spec['modules'] + spec.get('uses', []):
        for n, f in getattr(importlib.import_module(m), 'LEMMAS', []):
            t1 = time.time(); ok = f()
            res.append({'function': 'lemma: ' + n, 'contract': 'lemma', 'status': 'ok' if ok else 'unsupported', 'reason': '' if ok else 'lemma not proved', 'obligations': 1, 'discharged': int(ok), 'failed': [], 'backends': {'z3': int(ok)}, 'wall_s': time.time() - t1, 'solver_s': time.time() - t1, 'used': [], 'inlined': [], 'paths': 0})
    trusted = [c for c in w.contracts if c.trusted]
    return res, missing, trusted, w


# ---------------------------------------------------------------------------------------------
# native part: the real code, compiled from /repo's tree
# ---------------------------------------------------------------------------------------------
class Native:
    def __init__(self, pid, spec):
        self.pid = pid; self.spec = spec; self.dir = None

    def build(self):
        import prog as P
        self.dir = tempfile.mkdtemp(prefix='yaganat.')
        inc = P.include_flags(REPO)
        _, files = P.unity_text(REPO)
        files = [f for f in files if not f.endswith('sat_solver.cpp') and ('/parser/' not in f or self.spec.get('parser'))]
        drv = os.path.join(HERE, 'native', self.spec['native'])
        jobs = [(drv, os.path.join(self.dir, 'driver.o'), ['-I' + os.path.join(HERE, 'native')])]
        for k, f in enumerate(files): jobs.append((f, os.path.join(self.dir, 'f%d.o' % k), []))
        if self.spec.get('parser'):
            lexer = os.path.join(self.dir, 'smt2_lexer.cpp')
            r = subprocess.run(['flex', '-o', lexer, os.path.join(REPO, 'src/parser/smt2_lexer.ll')], capture_output=True, text=True)
            if r.returncode: return 'flex failed: ' + r.stderr[-800:]
            jobs.append((lexer, os.path.join(self.dir, 'lexer.o'), []))
        flags = ['-std=c++20', '-O1', '-w', '-fno-omit-frame-pointer'] + self.spec.get('cxxflags', [])

        def comp(j):
            return subprocess.run(['g++'] + flags + inc + j[2] + ['-c', j[0], '-o', j[1]], capture_output=True, text=True)
        with ThreadPoolExecutor(8) as ex: rs = list(ex.map(comp, jobs))
        for r, j in zip(rs, jobs):
            if r.returncode: return 'cannot compile %s: %s' % (j[0], (' | '.join(l for l in r.stderr.split(chr(10)) if 'error' in l) or r.stderr)[:1500])
        self.exe = os.path.join(self.dir, 'driver')
        r = subprocess.run(['g++'] + [j[1] for j in jobs] + ['-o', self.exe, '-lgmp', '-lgmpxx'] + self.spec.get('ldflags', []), capture_output=True, text=True)
        if r.returncode: return 'link failed: ' + r.stderr[-800:]
        return None

    def run(self, seconds):
        """(found, text, evaluations, distinct)"""
        work = os.path.join(self.dir, 'work'); os.makedirs(work, exist_ok=True)
        n = self.spec.get('procs', 4)
        ps = []
        for k in range(n):
            ps.append(subprocess.Popen([self.exe, str(SEED * 1000 + k), str(seconds)], cwd=work, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', start_new_session=True))
        found = None; ev = di = 0; sample = ''
        for p in ps:
            try: out, _ = p.communicate(timeout=seconds + 40)
            except subprocess.TimeoutExpired:
                os.killpg(p.pid, signal.SIGKILL); out, _ = p.communicate()
                out += '\nFAIL no answer within %d s (the code under test does not terminate)\n' % (seconds + 40)
            for l in out.split('\n'):
                if l.startswith('STAT '):
                    a = l.split(); ev += int(a[1]); di += int(a[2])
                elif l.startswith('SAMPLE '): sample = l[7:]
            if 'FAIL ' in out or p.returncode not in (0,):
                if found is None: found = '\n'.join(l for l in out.split('\n') if not l.startswith('STAT'))[-4000:] + '\nexit status %s' % p.returncode
        return found, ev, di, sample

    def close(self):
        if self.dir: shutil.rmtree(self.dir, ignore_errors=True)


def known(pid):
    out = []
    p = os.path.join(HERE, 'KNOWN_FINDINGS')
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith('known: property=%s ' % pid): out.append(l.split(' ', 2)[2])
    return out


def main():
    pid = sys.argv[1]; tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    import properties
    spec = properties.SPECS[pid]
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    replay = os.path.join(HERE, 'evidence', 'replay-%s.txt' % pid)
    if os.path.exists(replay): os.unlink(replay)
    ev = {'property': pid, 'tier': tier, 'seed': SEED, 'level': spec.get('level', 'proof')}
    failed = []; undecided = []; res = []; missing = []; trusted = []; inl = set(); err = None
    try:
        res, missing, trusted, w = prove(pid, spec, tier)
    except Exception as x:
        err = 'extraction or tool failure: %s' % str(x)[-1500:]
        log(err)
    for r in res:
        inl |= set(r.get('inlined', []))
        if r['status'] == 'failed': failed.append(r)
        elif r['status'] != 'ok': undecided.append('%s [%s]: %s %s' % (r['function'], r['contract'], r['status'], r.get('reason', '')))
    for m in missing: undecided.append('no function for contract ' + m)
    if err: undecided.append(err)
    kf = known(pid)
    # native search: on a failed or undecided obligation, and for the functions listed as bounded
    nat = None; found = None; evals = dist = 0; sample = ''
    if spec.get('native') and (failed or undecided or spec.get('bounded')):
        nat = Native(pid, spec)
        t = time.time()
        e = nat.build()
        if e:
            log('native driver: ' + e); undecided.append('native driver not usable: ' + e[:300])
        else:
            secs = spec.get('seconds', 20) * (6 if tier == 'thorough' else 1)
            if failed or undecided: secs = max(secs, spec.get('search_seconds', 45))
            found, evals, dist, sample = nat.run(secs)
            log('native search: %d evaluations, %s' % (evals, 'FAILURE' if found else 'no failure'))
        nat.close()
    viol = 0
    if found or failed:
        viol = 1
        with open(replay, 'w') as f:
            f.write('property %s violated on %s\n' % (pid, REPO))
            for r in failed:
                for x in r['failed']:
                    f.write('failed obligation: %s\n  function %s (contract %s), in %s line %s, kind %s, solver result %s\n' % (x['obligation'], r['function'], r['contract'], x['in'], x['line'], x['kind'], x['result']))
                    if x.get('model'): f.write('  verifier model: %s\n' % ' '.join(x['model'].split())[:3000])
            for u in undecided: f.write('undecided: %s\n' % u)
            if found: f.write('failing input on the real code (seed %d, driver native/%s):\n%s\n' % (SEED, spec['native'], found))
            else: f.write('no failing input found by the native search (%d evaluations)\n' % evals)
    obl = sum(r['obligations'] for r in res); dis = sum(r['discharged'] for r in res)
    be = {}
    for r in res:
        for k, v in r['backends'].items(): be[k] = be.get(k, 0) + v
    cov = {'obligations': obl, 'discharged': dis, 'checker_cmd': 'python3-vt /verif/check.py %s %s' % (pid, tier),
           'trusted_base': ['clang 18 AST and the extractor yagavc/extract.cpp', 'VC generator yagavc/vcg.py', 'standard library models yagavc/stl.py', 'z3 ' + z3v(), 'cvc5 1.1.2'] + [t.name + ' (assumed contract on ' + t.q + ')' for t in trusted] + spec.get('trusted', []),
           'functions_under_contract': sorted({r['function'] for r in res if r['status'] == 'ok'}), 'functions_inlined': sorted(inl), 'back_ends': be,
           'solver_time_s': round(sum(r.get('solver_s', 0) for r in res), 1), 'paths': sum(r.get('paths', 0) for r in res),
           'not_proved_on_this_run': undecided}
    if spec.get('bounded') or nat is not None:
        cov['bounded_stand_in'] = {'functions': spec.get('bounded', []), 'evaluations': evals, 'distinct_nontrivial': dist, 'rule': spec.get('rule', 'random and small exhaustive inputs against an independent oracle'), 'sample': sample, 'note': 'bounded, not counted as proved'}
    if ev['level'] != 'proof':
        cov['evaluations'] = evals; cov['distinct_nontrivial'] = dist; cov['rule'] = spec.get('rule', ''); cov['samples'] = [sample]; cov['explanation'] = spec.get('explanation', '')
    ev['coverage'] = cov
    ev['assumptions'] = spec.get('assumptions', [])
    ev['wall_s'] = round(time.time() - T0, 1); ev['violations'] = viol
    json.dump(ev, open(os.path.join(HERE, 'evidence', pid + '.json'), 'w'), indent=1)
    log('%s: %d functions, %d/%d obligations discharged, %d undecided, %.1fs' % (pid, len(res), dis, obl, len(undecided), time.time() - T0))
    for k in kf: log('KNOWN-FINDING: property=%s %s' % (pid, k))
    if viol:
        log('VIOLATION property=%s replay=%s%s' % (pid, replay, '' if found else ' no-failing-input-found'))
        sys.exit(1)
    sys.exit(0)


def z3v():
    try:
        import z3; return z3.get_version_string()
    except Exception: return ''


if __name__ == '__main__':
    main()
