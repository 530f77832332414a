"""Verification of one function against its contract: path exploration, invariant inference, discharge."""
import z3, time, os, subprocess, tempfile, sys, signal
from vcg import *

FEAS_RL = 60000
CAND_RL = 1500000
OBL_RL = 6000000

z3.set_param('smt.random_seed', 0)


def vars_of(e, cache={}):
    """uninterpreted constants / functions occurring in e"""
    k = e.get_id()
    if k in cache: return cache[k][1]
    out = set(); st = [e]; seen = set()
    while st:
        x = st.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if z3.is_quantifier(x): st.append(x.body()); continue
        if z3.is_app(x):
            if x.decl().kind() == z3.Z3_OP_UNINTERPRETED: out.add(x.decl().name())
            st.extend(x.children())
    cache[k] = (e, out)
    return out


def relevant(pc, goal, depth=3):
    """facts connected to the goal by shared symbols (a sound weakening of the hypotheses)"""
    vs = set(vars_of(goal)); out = []; rest = [(f, vars_of(f)) for f in pc]
    for _ in range(depth):
        new = []; add = set()
        for f, v in rest:
            if v & vs or not v: out.append(f); add |= v
            else: new.append((f, v))
        rest = new
        if add <= vs: break
        vs |= add
    return out


class Solverx:
    """incremental quantifier-free solver following the path condition"""
    def __init__(self):
        self.s = None; self.stack = []

    def sync(self, fs):
        ids = [f.get_id() for f in fs]
        if self.s is None:
            self.s = z3.SimpleSolver(); self.s.set('random_seed', 0)
        n = 0
        while n < len(ids) and n < len(self.stack) and self.stack[n][0] == ids[n]: n += 1
        if n < len(self.stack):
            self.s.pop(len(self.stack) - n); del self.stack[n:]
        for f, i in zip(fs[n:], ids[n:]):
            self.s.push(); self.s.add(f); self.stack.append((i, f))


class Timeout(Exception):
    pass


class VF:
    def __init__(self, w, fn, con, wall=300, verbose=False):
        self.w = w; self.fn = fn; self.con = con
        self.loops = {}; self.dirty = False; self.leafsort = {}; self.written = set()
        self.used_contracts = set()
        self.inc = Solverx()
        self.fcache = {}; self.vcache = {}; self.keep = []
        self.obls = []; self.oblkeys = set(); self.trivial = set()
        self.t0 = time.time(); self.wall = wall; self.solver_time = 0.0
        self.verbose = verbose
        self.reach = 0; self.paths = 0
        self.checked = {}
        self.stats = {'feas': 0, 'cand': 0}

    # ---- callbacks from Exec ------------------------------------------
    def clock(self):
        if time.time() - self.t0 > self.wall: raise Timeout()

    def qf(self, pc):
        return [f for f in pc if not has_quant(f)]

    def feasible(self, pc, cond):
        self.clock()
        fs = self.qf(pc)
        key = (tuple(f.get_id() for f in fs), cond.get_id())
        r = self.fcache.get(key)
        if r is not None: return r
        self.stats['feas'] += 1
        t = time.time()
        self.inc.sync(fs)
        s = self.inc.s
        s.push(); s.set('rlimit', FEAS_RL)
        s.add(cond)
        x = s.check()
        s.pop()
        self.solver_time += time.time() - t
        r = x != z3.unsat
        self.fcache[key] = r; self.keep.append((fs, cond))
        return r

    def valid(self, pc, goal, rl, qf=False):
        self.clock()
        if qf:
            return not self.feasible(pc, z3.Not(goal)) if not has_quant(goal) else False
        key = (tuple(f.get_id() for f in pc), goal.get_id())
        r = self.vcache.get(key)
        if r is not None: return r
        r = False
        if not has_quant(goal) and not self.feasible(pc, z3.Not(goal)): r = True
        else:
            st, _, _ = self.solve(pc, goal, rl)
            r = st == 'unsat'
        self.vcache[key] = r; self.keep.append((list(pc), goal))
        return r

    def solve(self, pc, goal, rl, opts=None, rel=True, mbqi=False):
        t = time.time()
        s = z3.SimpleSolver()
        s.set('rlimit', rl); s.set('mbqi', mbqi); s.set('timeout', 60000)
        for k, v in (opts or {}).items(): s.set(k, v)
        fs = relevant(pc, goal) if rel else pc
        s.add(*fs)
        s.add(z3.Not(goal))
        r = s.check()
        d = time.time() - t
        self.solver_time += d
        m = None
        if r == z3.sat:
            try: m = s.model()
            except Exception: m = None
        return ('sat' if r == z3.sat else 'unsat' if r == z3.unsat else 'unknown'), m, d

    def obligation(self, ex, name, goal, kind):
        pc = [f for f, _ in ex.pc]
        key = (tuple(f.get_id() for f in pc), goal.get_id(), name)
        if key in self.oblkeys: return
        self.oblkeys.add(key)
        fq = ex.frames[-1].fn['q'] if ex.frames else self.fn['q']
        o = Obl(name, pc, goal, ex.curline, fq, kind); o.lems = list(ex.lems)
        self.obls.append(o)

    def on_div(self, ex, a, b, q, r):
        h = getattr(self.w, 'on_div', None)
        if h: h(ex, a, b, q, r)

    def on_bitop(self, ex, op, a, b, r, ty):
        h = getattr(self.w, 'on_bitop', None)
        if h: h(ex, op, a, b, r, ty)

    def resolve_virtual(self, ex, fn, this):
        h = getattr(self.w, 'resolve_virtual', None)
        if h: return h(ex, fn, this)
        return None

    def toplevel_inline(self, con, key):
        return False

    def loop_facts(self, ex, lid, L, s, entry_st):
        return self.con.loop_facts(ex, lid, L, s, entry_st) if hasattr(self.con, 'loop_facts') else []

    # ---- invariant candidates -----------------------------------------
    def scope_terms(self, ex):
        """[(name, reader(ex)->term)] of integer-valued things in scope: locals, lengths of containers, iterators"""
        out = []
        seen = set()

        def addv(nm, lv, depth=0):
            ty = lv.ty
            if ty is None: return
            k = (lv.root, lv.path, tuple(i.get_id() for i in lv.idx))
            if k in seen: return
            seen.add(k)
            try:
                if ty.k in ('int',) and not lv.idx: out.append((nm, lambda e, lv=lv: e.rd_raw(e.st, lv, ()), 'int', (lv.root, lv.path)))
                elif ty.k == 'rec' and (self.w.is_seq(ty)) and ty.s not in self.w.abstract and ty.q not in self.w.abstract:
                    out.append((nm + '.len', lambda e, lv=lv: e.rd_raw(e.st, lv, ('len',)), 'len', (lv.root, lv.path + ('len',))))
                elif ty.k == 'rec' and ex.w.shape(ty) == {(): PY} or ty.k == 'ptr':
                    m = ex.st.mem.get(lv.root); x = m.get(lv.path) if m else None
                    if isinstance(x, Iter): out.append((nm + '.idx', lambda e, lv=lv: e.st.mem[lv.root][lv.path].idx, 'iter', (lv.root, lv.path)))
                    elif isinstance(x, Range) and isinstance(x.b, Iter) and isinstance(x.e, Iter):
                        for w in 'be': out.append((nm + '.' + w, lambda e, lv=lv, w=w: getattr(e.st.mem[lv.root][lv.path], w).idx, 'iter', (lv.root, lv.path)))
                elif ty.k == 'rec' and ty.s not in self.w.abstract and ty.q not in self.w.abstract and ty.rec and ty.rec.get('mine') and depth < 2:
                    for n, t, p in ex.w.fields(ty):
                        if t.k == 'ref': continue
                        addv(nm + '.' + n, lv.f(p, t), depth + 1)
                elif ty.is_std('std::pair') and not lv.idx:
                    for n, t in zip(('first', 'second'), ty.targs): addv(nm + '.' + n, lv.f(n, t), depth + 1)
            except (Unsupported, NotPure):
                pass
        for fi, fr in enumerate(ex.frames):
            if fr.this is not None and fi == len(ex.frames) - 1 or fi == 0 and fr.this is not None: addv('this%d' % fi, fr.this)
            for vid, lv in sorted(fr.vars.items()):
                if isinstance(lv, LV): addv('%d:%d' % (fi, vid), lv)
        return out

    def candidates(self, ex, lid, L, s, entry_st):
        terms = self.scope_terms(ex)
        cands = []
        modset = L.mods
        ent = ex  # entry values are taken from entry_st

        def entry_val(rd):
            save = ex.st; ex.st = entry_st
            try: return rd(ex)
            except Exception: return None
            finally: ex.st = save
        mod = [(n, rd, k, entry_val(rd)) for n, rd, k, loc in terms if loc in modset]
        unm = [(n, rd, k, entry_val(rd)) for n, rd, k, loc in terms if loc not in modset]
        mod = [m for m in mod if m[3] is not None]; unm = [m for m in unm if m[3] is not None]
        L.mod = mod; L.unm = unm
        L.counters = [(n, rd) for n, rd, k, e0 in mod if k in ('int', 'iter')]
        for n, rd, k, e0 in mod:
            cands.append((n + '>=0', lambda e, rd=rd: rd(e) >= 0))
            cands.append((n + '>=entry', lambda e, rd=rd, e0=e0: rd(e) >= e0))
            cands.append((n + '<=entry', lambda e, rd=rd, e0=e0: rd(e) <= e0))
            cands.append((n + '>=-1', lambda e, rd=rd: rd(e) >= -1))
            cands.append((n + '>=1', lambda e, rd=rd: rd(e) >= 1))
            bounds = [(n2, e2) for n2, rd2, k2, e2 in unm if k2 != 'int' or k != 'len'][:24]
            for n2, e2 in bounds:
                if z3.is_int_value(e2): continue
                cands.append(('%s<=%s' % (n, n2), lambda e, rd=rd, e2=e2: rd(e) <= e2))
                cands.append(('%s<%s' % (n, n2), lambda e, rd=rd, e2=e2: rd(e) < e2))
                if k != 'len': cands.append(('%s>=%s' % (n, n2), lambda e, rd=rd, e2=e2: rd(e) >= e2))
        for i in range(len(mod)):
            for j in range(i):
                a, b = mod[i], mod[j]
                cands.append(('%s<=%s' % (a[0], b[0]), lambda e, a=a, b=b: a[1](e) <= b[1](e)))
                cands.append(('%s>=%s' % (a[0], b[0]), lambda e, a=a, b=b: a[1](e) >= b[1](e)))
                cands.append(('%s<%s' % (a[0], b[0]), lambda e, a=a, b=b: a[1](e) < b[1](e)))
                cands.append(('%s>%s' % (a[0], b[0]), lambda e, a=a, b=b: a[1](e) > b[1](e)))
                cands.append(('d%s=d%s' % (a[0], b[0]), lambda e, a=a, b=b: a[1](e) - a[3] == b[1](e) - b[3]))
                cands.append(('s%s=s%s' % (a[0], b[0]), lambda e, a=a, b=b: a[1](e) + b[1](e) == a[3] + b[3]))
                cands.append(('d%s<=d%s' % (a[0], b[0]), lambda e, a=a, b=b: a[1](e) - a[3] <= b[1](e) - b[3]))
                cands.append(('d%s>=d%s' % (a[0], b[0]), lambda e, a=a, b=b: a[1](e) - a[3] >= b[1](e) - b[3]))
        for root, path in sorted(modset):
            if path and path[-1] in ('len', 'has', 'size') or getattr(self.con, 'eq_templates', False):
                e0 = entry_st.mem.get(root, {}).get(path)
                srt = self.leafsort.get((root, path))
                if e0 is None and srt is not None and (root in entry_st.types or root.startswith(('heap:', 'global:'))): e0 = z3.Const('%s.%s' % (root, '.'.join(path)), srt)
                if e0 is None or not is_z3(e0): continue
                cands.append(('same %s.%s' % (root, '.'.join(path)), lambda e, root=root, path=path, e0=e0: e.st.mem.get(root, {}).get(path, e0) == e0))
        n0 = len(cands)
        for x in self.con.templates(ex, lid, L) or []: cands.append(x)
        L.tmpl = {x[0] for x in cands[n0:]}
        for x in self.w.templates:
            cands.extend(x(ex, lid, L, self.con) or [])
        out = []

        def safe(fn, n=None):
            def g(e):
                try: return fn(e)
                except (Unsupported, NotPure, KeyError, IndexError, AttributeError, z3.Z3Exception) as x:
                    if os.environ.get('TMPLDBG'): print('template', n, repr(x))
                    return z3.BoolVal(False)
            return g
        for n, fn in cands:
            if n in L.dead: continue
            out.append((n, safe(fn, n)))
        return out

    def check_candidate(self, ex, L, nm, f, where):
        if nm in L.dead: return
        if z3.is_true(f): return
        g = z3.simplify(f)
        if z3.is_true(g): return
        self.stats['cand'] += 1
        ok = False
        if not z3.is_false(g):
            pc = [x for x, _ in ex.pc]
            ok = self.valid(pc, f, CAND_RL)
            if not ok and getattr(self, 'retries', False) and nm in getattr(L, 'tmpl', ()): ok = self.retry(pc, f)
        else:
            ok = not self.feasible([x for x, _ in ex.pc], z3.BoolVal(True))
        if not ok:
            L.dead.add(nm); self.dirty = True
            if self.verbose > 1: print('   kill', where, L.fn, L.line, nm)

    def retry(self, pc, f):
        """a template candidate the solver did not settle: tried again in a fresh context (other term order) with other seeds"""
        key = ('retry', tuple(x.get_id() for x in pc), f.get_id())
        r = self.vcache.get(key)
        if r is not None: return r
        r = False
        if has_quant(f) or any(has_quant(x) for x in pc):
            for opts in (None, {'random_seed': 7, 'arith.solver': 2}):
                self.clock()
                t = time.time()
                ctx = z3.Context(); s = z3.SimpleSolver(ctx=ctx) if opts is not None else z3.Solver(ctx=ctx)
                s.set('rlimit', CAND_RL); s.set('mbqi', False); s.set('timeout', 20000)
                for k, v in (opts or {}).items(): s.set(k, v)
                for x in relevant(pc, f): s.add(x.translate(ctx))
                s.add(z3.Not(f).translate(ctx))
                x = s.check(); self.solver_time += time.time() - t
                if x == z3.unsat: r = True; break
                if x == z3.sat: break
        self.vcache[key] = r; self.keep.append((list(pc), f))
        return r

    # ---- driving -------------------------------------------------------
    def setup(self, ex):
        w = self.w; fn = self.fn; con = self.con; prog = w.prog
        ex.reset()
        self.written = set()
        this = None
        if 'cls' in fn and not fn.get('static'):
            cty = prog.types[fn['cls']]
            if getattr(con, 'this_heap', False):
                a = z3.Int('this@'); ex.fact(a > 0)
                this = ex.heap_lv(cty, a)
            else:
                this = ex.new_root('this', cty)
        args = []
        for i, p in enumerate(fn['params']):
            pt = prog.types[p['t']]
            nm = 'arg%d' % i
            if pt.k == 'ref':
                if i in getattr(con, 'heap_args', ()):
                    a = z3.Int(nm + '@'); ex.fact(a > 0)
                    args.append(ex.heap_lv(pt.elem, a))
                else: args.append(ex.new_root(nm, pt.elem))
            else:
                out = {}
                for pp, srt in w.shape(pt).items():
                    if srt == PY: continue
                    out[pp] = z3.Const(nm + '.' + '.'.join(pp), srt)
                v = Val(pt, out)
                for pp, x in out.items(): ex.typefacts(pt, pp, x)
                args.append(v)
        c = Ctx(ex, fn, this, args, None)
        con.setup(c)
        this, args = c.thislv, c.args
        if fn['kind'] == 'ctor':
            c.is_ctor = True
        # type facts of scalar leaves of by-reference parameters and this
        for lv in [this] + [a for a in args if isinstance(a, LV)]:
            if lv is None or lv.idx: continue
            for pp, srt in w.shape(lv.ty).items():
                if srt == I:
                    try: ex.rdl(lv, *pp)
                    except Unsupported: pass
        c.prest = ex.st.copy()
        ex.topspec = c
        for nm, g in con.requires(c): ex.fact(g)
        for g in con.lemmas(c): ex.fact(g)
        return c

    def run_path(self, ex, prefix):
        c = self.setup(ex)
        d = Decider(prefix)
        ex.dstack = [d]
        fn = self.fn; con = self.con
        self.paths += 1
        try:
            a = [x for x in c.args]
            if fn['kind'] == 'ctor':
                ex.construct_with(c.thislv, fn, a, 'top')
                r = None
            else:
                r = ex.run_body(fn, c.thislv, a, 'top')
            c.postst = ex.st.copy(); c.res = r
            if not ex.vf.feasible([f for f, _ in ex.pc], z3.BoolVal(True)): return d
            self.reach += 1
            self.last_pc = [f for f, _ in ex.pc]
            ex.curline = fn['body'].get('l', 0) if fn['body'] else 0
            ghost = getattr(con, 'final_facts', None)
            if ghost:
                for g in ghost(c): ex.fact(g)
            for nm, g in con.ensures(c):
                ex.oblige('ensures ' + nm, g, 'post', assume=False)
            self.frame_check(ex, c)
        except Thrown:
            if not con.allow_throw:
                ex.oblige('no exception', z3.BoolVal(False), 'throw')
            else: self.reach += 1
        except PathEnd:
            pass
        return d

    def frame_check(self, ex, c):
        if getattr(self.con, 'no_frame', False): return
        pre = c.prest
        allow = []
        for m in self.con.modifies(c):
            if isinstance(m, tuple): allow.append((m[0], m[1], None))
            else: allow.append((m.root, m.path, m.idx))
        preroots = set()
        if c.thislv is not None: preroots.add(c.thislv.root)
        for a in c.args:
            if isinstance(a, LV): preroots.add(a.root)
        for root in list(ex.st.mem):
            if not (root in preroots or root.startswith('heap:') or root.startswith('global:') or root in getattr(c, 'roots', ())): continue
            if self.fn['kind'] == 'ctor' and c.thislv.root == root: continue
            for path, x in ex.st.mem[root].items():
                if not is_z3(x): continue
                pm = pre.mem.get(root, {}).get(path)
                if pm is None: pm = z3.Const('%s.%s' % (root, '.'.join(path)), x.sort())
                if pm.eq(x): continue
                ok = False; fr = pm
                for (r, p, idx) in allow:
                    if r == root and path[:len(p)] == p:
                        if not idx: ok = True; break
                        fr = ex.store(fr, idx, self.selall(ex, x, idx))
                if ok: continue
                if root.startswith('global:') and root not in pre.mem: continue
                al = getattr(c, 'fresh_addrs', None)
                ex.oblige('frame: %s.%s unchanged' % (root, '.'.join(path)), fr == x, 'frame', assume=False)

    def selall(self, ex, t, idx):
        for i in idx: t = ex.sel(t, i)
        return t

    def run(self):
        res = {'function': self.fn['q'], 'contract': self.con.name, 'status': 'ok', 'obligations': 0, 'discharged': 0, 'failed': [], 'backends': {}}
        ex = Exec(self.w, self)
        try:
            for rnd in range(60):
                self.dirty = False; self.obls = []; self.oblkeys = set(); self.trivial = set(); self.reach = 0; self.paths = 0
                work = [[]]
                while work:
                    prefix = work.pop()
                    self.clock()
                    d = self.run_path(ex, prefix)
                    if self.paths > 4000: raise Unsupported('too many paths')
                    for k in range(len(prefix), len(d.trace)):
                        v, m = d.trace[k]
                        for alt in range(v + 1, m):
                            work.append([t[0] for t in d.trace[:k]] + [alt])
                if self.verbose: print('  round', rnd, 'paths', self.paths, 'obls', len(self.obls), 'dirty', self.dirty, '%.1fs' % (time.time() - self.t0))
                if not self.dirty: break
            else: raise Unsupported('invariant inference did not converge')
            if self.reach == 0:
                res['status'] = 'vacuous'; return res
            self.discharge(res)
        except Unsupported as x:
            res['status'] = 'unsupported'; res['reason'] = '%s (%s:%s)' % (x, ex.frames[-1].fn['q'] if ex.frames else '', ex.curline)
        except NotPure as x:
            res['status'] = 'unsupported'; res['reason'] = 'NotPure %s (line %s)' % (x, ex.curline)
        except Timeout:
            res['status'] = 'timeout'
        except (z3.Z3Exception, KeyError, AttributeError, IndexError, TypeError, ValueError, RecursionError) as x:
            import traceback
            tb = traceback.extract_tb(sys.exc_info()[2])[-1]
            res['status'] = 'unsupported'; res['reason'] = 'internal %s %r line %s (%s:%d)' % (type(x).__name__, str(x)[:200], ex.curline, os.path.basename(tb.filename), tb.lineno)
            if self.verbose: traceback.print_exc()
        res['paths'] = self.paths; res['wall_s'] = round(time.time() - self.t0, 2); res['solver_s'] = round(self.solver_time, 2)
        res['used'] = sorted(self.used_contracts)
        res['loops'] = len(self.loops)
        return res

    def discharge(self, res):
        # precondition consistency / vacuity of the whole function
        if self.trivial:
            n = len(self.trivial); res['obligations'] += n; res['discharged'] += n; res['backends']['z3-simplify'] = n
        fails = {}
        for o in self.obls:
            res['obligations'] += 1
            t = time.time()
            st, be, m = self.discharge1(o)
            o.time = time.time() - t
            if self.verbose > 1 or (self.verbose and o.time > 3): print('    obl %-60s %s %s %.2fs' % (o.name[:60], st, be, o.time))
            if st == 'unsat':
                res['discharged'] += 1
                res['backends'][be] = res['backends'].get(be, 0) + 1
            else:
                k = (o.name, o.fn, o.line)
                if k in fails:
                    continue
                fails[k] = 1
                res['failed'].append({'obligation': o.name, 'in': o.fn, 'line': o.line, 'kind': o.kind, 'result': st, 'model': m})
                if len(res['failed']) >= 3: 
                    break
        if res['failed']: res['status'] = 'failed'
        elif getattr(self, 'last_pc', None):
            st, m, d = self.solve(self.last_pc, z3.BoolVal(False), 2000000, rel=False)
            if st == 'unsat':
                res['status'] = 'vacuous'

    def discharge1(self, o):
        self.clock()
        g = o.goal
        if not has_quant(g) and not self.feasible(o.pc, z3.Not(g)): return 'unsat', 'z3-qf', None
        # a conjunction is proved part by part
        if z3.is_and(g):
            be = ''
            for c in g.children():
                o2 = Obl(o.name, o.pc, c, o.line, o.fn, o.kind); o2.lems = o.lems
                st, be, m = self.discharge1(o2)
                if st != 'unsat': return st, be, m
            return 'unsat', be, None
        key = (tuple(f.get_id() for f in o.pc), g.get_id())
        if self.vcache.get(key): return 'unsat', 'z3', None
        qf = self.qf(o.pc)
        anyq = len(qf) != len(o.pc) or has_quant(g)
        st, m, d = self.solve(o.pc, g, 1500000 if o.lems else OBL_RL)
        if st == 'unsat': return st, 'z3', None
        model = None
        if o.lems:
            r = self.lemma_try(o, qf, g)
            if r: return 'unsat', r, None
            if self.alg_try(o, qf, g): return 'unsat', 'z3-lia+groebner', None
            if self.nonlinear_try(o, qf, g): return 'unsat', 'z3-nlsat', None
            for fs in (o.pc, o.pc + o.lems):
                st, m, d = self.solve(fs, g, OBL_RL)
                if st == 'unsat': return st, 'z3', None
        if st == 'sat' and not anyq: model = str(m)[:3000]; return 'sat', 'z3', model
        extra = getattr(self.con, 'portfolio', None) or [
            ({'random_seed': 7, 'arith.solver': 2}, False, True), ({'random_seed': 3}, False, False), ({'arith.nl.nra': False} if False else {'random_seed': 11, 'auto_config': False, 'relevancy': 0}, False, True)]
        for opts, mbqi, rel in extra:
            self.clock()
            try: st2, m2, d = self.solve(o.pc, g, OBL_RL, opts, rel=rel, mbqi=mbqi)
            except z3.Z3Exception: continue
            if st2 == 'unsat': return st2, 'z3-' + '-'.join('%s' % v for v in opts.values()), None
        if not o.lems and self.nonlinear_try(o, qf, g): return 'unsat', 'z3-nlsat', None
        for full in (True, False):
            if self.text_try(['z3-new', '-T:10'], o, full) == 'unsat': return 'unsat', 'z3-cli', None
        st3 = self.text_try(['cvc5', '--tlimit=12000', '--nl-ext-tplanes'], o, False)
        if st3 == 'unsat': return 'unsat', 'cvc5', None
        if m is not None:
            try: model = 'candidate ' + str(m)[:3000]
            except Exception: model = None
        return 'unknown', 'z3', model

    def lemma_try(self, o, qf, g):
        # with the lemma instances that mention symbols of the query
        h = getattr(self.w, 'lemma_prover', None)
        if h: return h(self, o, qf, g)
        st, m, d = self.solve(o.pc + o.lems, g, 2500000)
        return 'z3+lemmas' if st == 'unsat' else None

    def nonlinear_try(self, o, qf, g):
        import nra
        t = time.time()
        try: return nra.prove(qf + [f for f in o.lems], g, 8)
        finally: self.solver_time += time.time() - t

    def alg_try(self, o, qf, g):
        import alg
        t = time.time()
        try: return alg.prove(list(qf) + list(o.lems), g, 40)
        except z3.Z3Exception: return False
        finally: self.solver_time += time.time() - t

    def text_try(self, cmd, o, full):
        t = time.time()
        try:
            s = z3.Solver(); s.add(*(o.pc if full else relevant(o.pc, o.goal)))
            if full: s.add(*o.lems)
            s.add(z3.Not(o.goal))
            txt = ('(set-logic ALL)\n' if cmd[0] == 'cvc5' else '') + s.to_smt2()
            with tempfile.NamedTemporaryFile('w', suffix='.smt2', delete=False) as f:
                f.write(txt); n = f.name
            try:
                p = subprocess.run(cmd + [n], capture_output=True, text=True, timeout=20)
                return p.stdout.split('\n')[0].strip()
            finally: os.unlink(n)
        except Exception:
            return 'unknown'
        finally:
            self.solver_time += time.time() - t


def verify_function(w, fn, con, wall=300, verbose=False):
    r = VF(w, fn, con, wall, verbose).run()
    if r['status'] == 'failed':
        # a heuristic of the solver may have dropped an invariant: once more, each candidate tried several times
        v = VF(w, fn, con, wall, verbose); v.retries = True
        try: r2 = v.run()
        except Exception: return r
        if r2['status'] == 'ok':
            r2['wall_s'] = round(r2['wall_s'] + r['wall_s'], 2)
            return r2
    return r


def targets(w, con):
    """functions of the current tree the contract is verified for"""
    return [f for f in w.prog.byq.get(con.q, []) if con.match(w.prog, f) and f.get('body')]
