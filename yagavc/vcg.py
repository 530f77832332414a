"""Verification-condition generator over the extracted semantic AST.

Forward symbolic execution of one function at a time.  Branches fork, loops are cut by invariants
(candidate templates pruned to an inductive subset), calls to functions under contract use the contract,
other /repo functions are inlined, library functions use the models in stl.py.
Mathematical integers carry machine ranges; overflow is an obligation.
"""
import z3, itertools, os, sys, time

I = z3.IntSort(); B = z3.BoolSort(); R = z3.RealSort()
PY = z3.DeclareSort('PY')
MAXLEN = 1 << 58


class Unsupported(Exception):
    pass


class PathEnd(Exception):
    pass


class NotPure(Exception):
    pass


class Thrown(Exception):
    def __init__(self, what):
        self.what = what


class Val:
    __slots__ = ('ty', 'lv')

    def __init__(self, ty, leaves):
        self.ty = ty; self.lv = leaves

    @property
    def z(self):
        return self.lv[()]

    def sub(self, name, ty):
        n = (name,) if not isinstance(name, tuple) else name
        l = len(n)
        return Val(ty, {p[l:]: v for p, v in self.lv.items() if p[:l] == n})

    def __repr__(self):
        return 'Val(%s,%s)' % (self.ty.s if self.ty else None, self.lv)


class LV:
    __slots__ = ('root', 'path', 'idx', 'ty')

    def __init__(self, root, path, idx, ty):
        self.root = root; self.path = path; self.idx = idx; self.ty = ty

    def f(self, name, ty=None):
        n = (name,) if not isinstance(name, tuple) else name
        return LV(self.root, self.path + n, self.idx, ty)

    def at(self, i, ty=None):
        return LV(self.root, self.path + ('[]',), self.idx + (i,), ty)

    def retag(self, ty):
        return LV(self.root, self.path, self.idx, ty)

    def __repr__(self):
        return 'LV(%s%s%s)' % (self.root, '.' + '.'.join(self.path) if self.path else '', list(self.idx) if self.idx else '')


class PtrLV:
    __slots__ = ('lv',)

    def __init__(self, lv):
        self.lv = lv

    def __repr__(self):
        return 'Ptr(%r)' % self.lv


class Iter:
    """position idx in a sequence container at lv (rev: reverse iterator, idx counts from the back)"""
    __slots__ = ('lv', 'idx', 'rev', 'get', 'kind', 'data')

    def __init__(self, lv, idx, rev=False, get=None, kind='seq', data=None):
        self.lv = lv; self.idx = idx; self.rev = rev; self.get = get; self.kind = kind; self.data = data

    def move(self, idx):
        return Iter(self.lv, idx, self.rev, self.get, self.kind, self.data)

    def __repr__(self):
        return 'Iter(%r,%s)' % (self.lv, self.idx)


class Closure:
    def __init__(self, callops, caps, this):
        self.callops = callops; self.caps = caps; self.this = this


class Range:
    """a (begin,end) pair of Iters, possibly mapped"""
    def __init__(self, b, e):
        self.b = b; self.e = e


class State:
    __slots__ = ('mem', 'types')

    def __init__(self):
        self.mem = {}; self.types = {}

    def copy(self):
        s = State(); s.mem = dict(self.mem); s.types = dict(self.types)
        return s


def is_z3(x):
    return isinstance(x, z3.ExprRef)


def has_quant(e, cache={}):
    k = e.get_id()
    if k in cache:
        return cache[k][1]
    r = z3.is_quantifier(e) or any(has_quant(c) for c in e.children()) if not z3.is_quantifier(e) else True
    cache[k] = (e, r)
    return r


def ite(c, a, b):
    if a is b:
        return a
    if is_z3(a) and is_z3(b):
        if a.eq(b):
            return a
        if z3.is_true(c): return a
        if z3.is_false(c): return b
        if a.sort() == B:
            if z3.is_true(a) and z3.is_false(b): return c
            if z3.is_false(a) and z3.is_true(b): return z3.Not(c)
        return z3.If(c, a, b)
    if isinstance(a, PtrLV) and isinstance(b, PtrLV) and a.lv.root == b.lv.root and a.lv.path == b.lv.path:
        return PtrLV(LV(a.lv.root, a.lv.path, tuple(ite(c, x, y) for x, y in zip(a.lv.idx, b.lv.idx)), a.lv.ty))
    if isinstance(a, Iter) and isinstance(b, Iter) and a.kind == b.kind and a.rev == b.rev and a.lv.root == b.lv.root and a.lv.path == b.lv.path \
            and all(x.eq(y) for x, y in zip(a.lv.idx, b.lv.idx)):
        return a.move(ite(c, a.idx, b.idx))
    raise NotPure('cannot merge %r / %r' % (a, b))


def And(*a):
    l = []
    for x in a:
        if isinstance(x, (list, tuple)): l.extend(x)
        else: l.append(x)
    l = [x for x in l if not (is_z3(x) and z3.is_true(x))]
    if not l: return z3.BoolVal(True)
    if len(l) == 1: return l[0]
    return z3.And(*l)


def int_range(ty):
    if ty.k == 'enum':
        if not ty.d.get('scoped'):
            m = max([int(v[1]) for v in ty.d.get('vals', [])] or [0])
            n = min([int(v[1]) for v in ty.d.get('vals', [])] or [0])
            if n >= 0:
                b = 1
                while b <= m: b <<= 1
                return 0, b - 1
    if ty.signed:
        return -(1 << (ty.bits - 1)), (1 << (ty.bits - 1)) - 1
    return 0, (1 << ty.bits) - 1


class World:
    """program + contracts + natives + modelling choices"""
    def __init__(self, prog):
        self.prog = prog
        self.contracts = []
        self.bykey = {}
        self.abstract = {}       # record qname -> {path: sort}
        self.abstract_facts = {}
        self.natives = {}
        self.shape_cache = {}
        self.boxed = set()       # container type strings whose elements live on the heap
        self.opaque_q = set()
        self.templates = []
        self.no_overflow_check = False
        self.assert_mode = 'check'
        self.trusted = {}
        self.inlined = set()
        self.lemma_events = {}
        self.heap_types = {}
        self.force_native = set()
        self.fieldabs = {}
        self.set_hook = self.count_hook = None; self.opt_checked = False; self.callback = None

    # ---- shapes -------------------------------------------------------
    def shape(self, ty):
        s = self.shape_cache.get(ty.s)
        if s is None:
            s = self._shape(ty)
            self.shape_cache[ty.s] = s
        return s

    def wrap(self, sh, sort=I, pre=('[]',)):
        r = {}
        for p, s in sh.items():
            r[pre + p] = PY if s == PY else z3.ArraySort(sort, s)
        return r

    def is_seq(self, ty):
        return ty.is_std('std::vector', 'std::deque', 'std::list', 'std::array', 'std::initializer_list', 'std::stack', 'std::queue')

    def is_iter(self, ty):
        return ty.k == 'rec' and (ty.q.startswith('__gnu_cxx::__normal_iterator') or ty.q in ('std::_Deque_iterator', 'std::_Bit_iterator', 'std::_Bit_const_iterator', 'std::reverse_iterator', 'std::move_iterator', 'std::_List_iterator') or ty.q.startswith('std::__detail::_Node_') or ty.q.startswith('std::_Rb_tree') or 'Iterator' in ty.q or '_Iterator' in ty.q or '_Sentinel' in ty.q)

    def _shape(self, ty):
        k = ty.k
        if k in ('int', 'enum'): return {(): I}
        if k == 'bool': return {(): B}
        if k == 'float': return {(): R}
        if k in ('ptr', 'ref', 'nullptr'): return {(): I}
        if k == 'void': return {}
        if k == 'arr':
            sh = self.wrap(self.shape(ty.elem)); sh[('len',)] = I
            return sh
        if k == 'rec':
            if ty.s in self.abstract: return dict(self.abstract[ty.s])
            if ty.q in self.abstract:
                a = self.abstract[ty.q]
                return dict(a(ty) if callable(a) else a)
            q = ty.q
            if self.is_seq(ty):
                et = ty.targs[0]
                if ty.s in self.boxed:
                    sh = {('[]',): z3.ArraySort(I, I)}
                else:
                    sh = self.wrap(self.shape(et))
                sh[('len',)] = I
                return sh
            if q == 'std::optional':
                sh = {('has',): B}
                for p, s in self.shape(ty.targs[0]).items(): sh[('val',) + p] = s
                return sh
            if q == 'std::pair':
                sh = {}
                for n, t in zip(('first', 'second'), ty.targs):
                    for p, s in self.shape(t).items(): sh[(n,) + p] = s
                return sh
            if q == 'std::tuple':
                sh = {}
                for n, t in enumerate(ty.targs):
                    for p, s in self.shape(t).items(): sh[(str(n),) + p] = s
                return sh
            if q == 'std::variant':
                sh = {('index',): I}
                for n, t in enumerate(ty.targs):
                    for p, s in self.shape(t).items(): sh[('alt%d' % n,) + p] = s
                return sh
            if q in ('std::unique_ptr', 'std::shared_ptr', 'std::reference_wrapper'): return {(): I}
            if q in ('std::basic_string', 'std::basic_string_view'): return {(): I}
            if q in ('std::unordered_set', 'std::set'):
                return {('has',): self.curried(ty.targs[0], B), ('size',): I}
            if q in ('std::unordered_map', 'std::map'):
                sh = {('has',): self.curried(ty.targs[0], B), ('size',): I}
                for p, s in self.shape(ty.targs[1]).items():
                    sh[('{}',) + p] = self.curried(ty.targs[0], s)
                return sh
            if self.is_iter(ty): return {(): PY}
            if q.startswith('std::ranges::'): return {(): PY}
            if ty.d.get('lambda'): return {(): PY}
            rec = ty.rec
            if rec and (rec.get('mine') or rec.get('fields')):
                sh = {}
                for (n, t, path) in self.fields(ty):
                    for p, s in self.shape(t).items(): sh[path + p] = s
                return sh
            return {(): PY}
        return {(): PY}

    def curried(self, kty, s):
        ks = self.shape(kty)
        r = s
        for p in reversed(list(ks)):
            if ks[p] == PY or s == PY: return PY
            r = z3.ArraySort(ks[p], r)
        return r

    def fields(self, ty):
        """[(name, type, path)] with base-class fields first"""
        out = []
        rec = ty.rec
        for b in rec.get('bases', []):
            bt = self.prog.types[b]
            if bt.rec and bt.rec.get('mine'):
                out.extend(self.fields(bt))
        polybase = any(self.prog.types[b].rec and self.prog.types[b].rec.get('poly') for b in rec.get('bases', []))
        for f in rec.get('fields', []):
            nm = f['name']
            if polybase: nm = ty.s + '::' + nm
            out.append((f['name'], self.prog.types[f['t']], (nm,)))
        return out

    def field(self, ty, name):
        for n, t, p in reversed(self.fields(ty)):
            if n == name: return t, p
        raise Unsupported('no field %s in %s' % (name, ty.s))

    def field_opt(self, ty, name):
        for n, t, p in reversed(self.fields(ty)):
            if n == name: return t, p
        return None

    def topbase(self, ty):
        """name of the polymorphic root of a class hierarchy (heap objects of a hierarchy share one heap)"""
        rec = ty.rec
        if ty.k == 'rec' and rec and rec.get('poly'):
            for b in rec.get('bases', []):
                bt = self.prog.types[b]
                if bt.rec and bt.rec.get('poly'): return self.topbase(bt)
        return ty

    # ---- contracts ----------------------------------------------------
    def contract_for(self, key, q=None):
        if key in self.bykey: return self.bykey[key]
        f = self.prog.funcs.get(key)
        r = None
        if f is not None:
            for c in self.contracts:
                if c.q in (f['q'], f['qs']) and c.match(self.prog, f): r = c; break
        self.bykey[key] = r
        return r


class Contract:
    """Base class of contracts.  c is a Ctx."""
    q = ''
    pure = False
    trusted = False        # assumed, body not verified
    inline_only = False    # verified, but callers inline the body
    allow_throw = False

    def match(self, prog, f):
        return True

    def requires(self, c):
        return []

    def ensures(self, c):
        return []

    def modifies(self, c):
        return []

    def setup(self, c):
        pass

    def lemmas(self, c):
        return []

    def templates(self, ex, lid, L):
        return []

    @property
    def name(self):
        return type(self).__name__


class O:
    """read-only view of an object in a given state, for specifications"""
    __slots__ = ('ex', 'st', 'lv')

    def __init__(self, ex, st, lv):
        object.__setattr__(self, 'ex', ex); object.__setattr__(self, 'st', st); object.__setattr__(self, 'lv', lv)

    @property
    def z(self):
        return self.ex.rd_raw(self.st, self.lv, ())

    @property
    def len(self):
        return self.ex.rd_raw(self.st, self.lv, ('len',))

    def leaf(self, *p):
        return self.ex.rd_raw(self.st, self.lv, p)

    def __getattr__(self, name):
        t, p = self.ex.w.field(self.lv.ty, name)
        return O(self.ex, self.st, self.lv.f(p, t))

    def fld(self, name):
        return self.__getattr__(name)

    def __getitem__(self, i):
        ty = self.lv.ty
        if isinstance(i, int): i = z3.IntVal(i)
        if ty.k == 'rec' and ty.s in self.ex.w.boxed:
            a = self.ex.sel(self.ex.rd_raw(self.st, self.lv, ('[]',)), i)
            return O(self.ex, self.st, self.ex.heap_lv(ty.targs[0], a))
        et = ty.targs[0] if ty.k == 'rec' else ty.elem
        return O(self.ex, self.st, self.lv.at(i, et))

    def deref(self, ty=None):
        p = self.z
        return O(self.ex, self.st, self.ex.deref_ptr(p, ty or (self.lv.ty.elem if self.lv.ty.k in ('ptr', 'ref') else self.lv.ty.targs[0])))

    def val(self):
        return self.ex.rd_val(self.st, self.lv)

    # sets / maps
    def hask(self, *ks):
        a = self.leaf('has')
        for k in ks: a = z3.Select(a, k)
        return a

    def arr(self, *p):
        return self.ex.rd_raw(self.st, self.lv, p)


class VO:
    """view of a value"""
    def __init__(self, ex, v):
        self.ex = ex; self.v = v

    @property
    def z(self):
        return self.v.z

    @property
    def len(self):
        return self.v.lv[('len',)]

    def leaf(self, *p):
        return self.v.lv[p]

    def __getattr__(self, name):
        t, p = self.ex.w.field(self.v.ty, name)
        return VO(self.ex, self.v.sub(p, t))

    def fld(self, name):
        return self.__getattr__(name)

    def sub(self, name, ty=None):
        return VO(self.ex, self.v.sub(name, ty))

    def __getitem__(self, i):
        if isinstance(i, int): i = z3.IntVal(i)
        et = self.v.ty.targs[0]
        return VO(self.ex, Val(et, {p[1:]: z3.Select(v, i) for p, v in self.v.lv.items() if p[:1] == ('[]',)}))


class Ctx:
    def __init__(self, ex, fn, this, args, pre):
        self.ex = ex; self.fn = fn; self.thislv = this; self.args = args; self.prest = pre; self.postst = None; self.res = None

    @property
    def this(self):
        return O(self.ex, self.prest, self.thislv)

    @property
    def this_(self):
        return O(self.ex, self.postst, self.thislv)

    def _arg(self, i, st):
        a = self.args[i]
        if isinstance(a, LV): return O(self.ex, st, a)
        return VO(self.ex, a)

    def __getitem__(self, i):
        return self._arg(i, self.prest)

    def post(self, i):
        return self._arg(i, self.postst)

    def at(self, o, st=None):
        return O(self.ex, st or self.postst, o.lv)

    def at_lv(self, lv, st=None):
        return O(self.ex, st or self.prest or self.ex.st, lv)

    def argv(self, i):
        return self.args[i].z

    @property
    def ret(self):
        if isinstance(self.res, LV): return O(self.ex, self.postst, self.res)
        return VO(self.ex, self.res) if self.res is not None else None


class Frame:
    __slots__ = ('fn', 'vars', 'this', 'ctx', 'caps', 'spec')

    def __init__(self, fn, this, ctx):
        self.fn = fn; self.vars = {}; self.this = this; self.ctx = ctx; self.caps = None


class LoopInfo:
    def __init__(self):
        self.mods = set(); self.dead = set(); self.line = 0; self.names = {}; self.fn = ''
        self.alive_last = []


class Obl:
    def __init__(self, name, pc, goal, line, fn, kind):
        self.name = name; self.pc = pc; self.goal = goal; self.line = line; self.fn = fn; self.kind = kind
        self.status = None; self.time = 0; self.backend = ''; self.model = None; self.lems = []


def has_div(*es):
    st = list(es)
    while st:
        x = st.pop()
        if isinstance(x, dict):
            if x.get('e') == 'bin' and x.get('op') == '/': return True
            st.extend(x.values())
        elif isinstance(x, list): st.extend(x)
    return False


class FactList(list):
    """facts of a path, each with the number of decisions taken before it"""
    def __init__(self, items, dec):
        list.__init__(self, [f for _, f in items]); self.items = items; self.total = None


class Decider:
    def __init__(self, prefix):
        self.prefix = prefix; self.trace = []


_uid = [0]


class Exec:
    def __init__(self, w, vf):
        self.w = w; self.prog = w.prog; self.vf = vf
        self.reset()

    def reset(self):
        self.st = State()
        self.pc = []            # (formula, is_decision)
        self.pcset = set()
        self.counter = 0
        self.dstack = []
        self.frames = []
        self.recorders = []
        self.ranged = set()
        self.pure_base = []     # stack of sets of roots that must not be written
        self.quant = 0
        self.encs = {}
        self.curline = 0
        self.initconst = {}
        self.depth = 0
        self.ghost = {}
        self.gcds = []
        self.lems = []          # valid formulas (lemma instances) offered to the prover
        self.log = {}
        self.topspec = None

    # ---- facts, decisions --------------------------------------------
    def fact(self, f, decision=False):
        if z3.is_true(f): return
        i = f.get_id()
        if i in self.pcset: return
        if z3.is_and(f) and not decision:
            for c in f.children(): self.fact(c)
            return
        self.pcset.add(i)
        self.pc.append((f, decision))

    def fresh(self, sort, hint='x'):
        if self.quant: raise NotPure('fresh under quantifier')
        self.counter += 1
        return z3.Const('%s!%d' % (hint, self.counter), sort)

    def choose(self, n):
        """nondeterministic choice without a condition"""
        d = self.dstack[-1]
        k = len(d.trace)
        v = d.prefix[k] if k < len(d.prefix) else 0
        d.trace.append((v, n))
        return v

    def decide(self, cond):
        if isinstance(cond, bool): return cond
        cond = z3.simplify(cond)
        if z3.is_true(cond): return True
        if z3.is_false(cond): return False
        d = self.dstack[-1]
        k = len(d.trace)
        if k < len(d.prefix):
            v = d.prefix[k]
            d.trace.append((v, 2 if v == 0 else 2))
            self.fact(cond if v == 0 else z3.Not(cond), True)
            return v == 0
        ft = self.feasible(cond)
        ff = self.feasible(z3.Not(cond))
        if ft and ff:
            d.trace.append((0, 2)); self.fact(cond, True); return True
        if ft:
            d.trace.append((0, 1)); self.fact(cond); return True
        if ff:
            d.trace.append((1, 2)); self.fact(z3.Not(cond)); return False
        raise PathEnd()

    def feasible(self, cond):
        return self.vf.feasible([f for f, _ in self.pc], cond)

    def proved(self, goal, rl=400000):
        g = z3.simplify(goal)
        if z3.is_true(g): return True
        if z3.is_false(g): return False
        return self.vf.valid([f for f, _ in self.pc], goal, rl, qf=True)

    def assume(self, f):
        self.fact(f)

    def oblige(self, name, goal, kind='ub', assume=True):
        if self.quant and kind in ('ub', 'bounds'):
            pass
        g = z3.simplify(goal)
        if z3.is_true(g):
            self.vf.trivial.add((name, self.curline, self.frames[-1].fn['q'] if self.frames else ''))
            return
        self.vf.obligation(self, name, goal, kind)
        if assume: self.fact(goal)

    def explore(self, thunk):
        """run thunk along all of its paths from the current state; returns [(decisions, facts, result)]"""
        snap = self.snapshot()
        out = []
        work = [[]]
        n = 0; dead = False
        while work:
            prefix = work.pop()
            self.restore(snap)
            d = Decider(prefix)
            self.dstack.append(d)
            base = len(self.pc)
            try:
                r = thunk()
                dec = [f for f, isd in self.pc[base:] if isd]
                fac = []; sofar = []
                for f, isd in self.pc[base:]:
                    if isd: sofar.append(f)
                    else: fac.append((len(sofar), f))
                out.append((dec, FactList(fac, dec), r, self.snapshot(False)))
            except PathEnd:
                dead = True
            except BaseException:
                self.restore(snap)          # nothing learned on an abandoned exploration may survive
                raise
            finally:
                self.dstack.pop()
            for k in range(len(prefix), len(d.trace)):
                v, m = d.trace[k]
                for alt in range(v + 1, m):
                    work.append([t[0] for t in d.trace[:k]] + [alt])
            n += 1
            if n > 400: raise Unsupported('too many sub-paths')
        self.restore(snap)
        if dead and len(out) > 1: out[0][1].total = Or(*[And(*o[0]) for o in out])
        return out

    def snapshot(self, full=True):
        return (self.st.copy(), list(self.pc), set(self.pcset), set(self.ranged), list(self.frames), [dict(f.vars) for f in self.frames], dict(self.ghost), list(self.gcds), {k: (dict(v) if isinstance(v, dict) else list(v)) for k, v in self.log.items()})

    def restore(self, s):
        self.st = s[0].copy(); self.pc = list(s[1]); self.pcset = set(s[2]); self.ranged = set(s[3])
        self.frames = list(s[4])
        for f, v in zip(self.frames, s[5]): f.vars = dict(v)
        self.ghost = dict(s[6]); self.gcds = list(s[7])
        self.log = {k: (dict(v) if isinstance(v, dict) else list(v)) for k, v in s[8].items()}

    def pure(self, thunk):
        """evaluate thunk as a pure expression: all paths merged with if-then-else.  Raises NotPure."""
        self.pure_base.append(set(self.st.mem) | set(self.st.types))
        rdepth = len(self.recorders)
        try:
            res = self.explore(thunk)
        except Thrown:
            raise NotPure('throw')
        finally:
            self.pure_base.pop()
            del self.recorders[rdepth:]
        if not res: raise PathEnd()
        if len(res) == 1:
            dec, fac, r, snap = res[0]
            for f in fac + dec: self.fact(f)
            self.adopt(snap)
            return r
        acc = None
        for dec, fac, r, snap in reversed(res):
            c = And(*dec)
            if acc is None: acc = r
            else: acc = self.merge(c, r, acc)
        for dec, fac, r, snap in res:
            for k, f in fac.items: self.fact(z3.Implies(And(*dec[:k]), f) if k else f)
            if fac.total is not None: self.fact(fac.total)
        return acc

    def adopt(self, snap):
        for r, m in snap[0].mem.items():
            if r not in self.st.mem: self.st.mem[r] = m
        for r, t in snap[0].types.items(): self.st.types.setdefault(r, t)

    def merge(self, c, a, b):
        if isinstance(a, Val) and isinstance(b, Val):
            ks = set(a.lv) | set(b.lv)
            out = {}
            for k in ks:
                if k in a.lv and k in b.lv: out[k] = ite(c, a.lv[k], b.lv[k])
                else: out[k] = a.lv.get(k, b.lv.get(k))
            return Val(a.ty, out)
        if isinstance(a, LV) and isinstance(b, LV) and a.root == b.root and a.path == b.path:
            return LV(a.root, a.path, tuple(ite(c, x, y) for x, y in zip(a.idx, b.idx)), a.ty)
        if a is None and b is None: return None
        if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b) and a and a[0] == b[0] and isinstance(a[0], str):
            return (a[0],) + tuple(self.merge(c, x, y) for x, y in zip(a[1:], b[1:]))
        raise NotPure('merge of %r and %r' % (type(a), type(b)))

    # ---- memory -------------------------------------------------------
    def new_root(self, name, ty):
        self.st.mem[name] = {}
        self.st.types[name] = ty
        return LV(name, (), (), ty)

    def leaf_term(self, st, root, path, sort):
        m = st.mem.get(root)
        if m is not None and path in m: return m[path]
        if sort == PY: raise Unsupported('uninitialised python leaf %s %s' % (root, path))
        nm = '%s.%s' % (root, '.'.join(path))
        return z3.Const(nm, sort)

    def root_sort(self, lv_root, path, ty):
        pass

    def rd_raw(self, st, lv, p):
        """term of leaf p below lv in state st (no type facts)"""
        full = lv.path + tuple(p)
        m = st.mem.get(lv.root)
        if m is not None and full in m:
            t = m[full]
        else:
            sort = self.sort_of(lv, p)
            if sort == PY: raise Unsupported('no value for %r %s' % (lv, p))
            t = z3.Const('%s.%s' % (lv.root, '.'.join(full)), sort)
        if not lv.idx: return t
        for i in lv.idx:
            t = self.sel(t, i)
        return t

    def sel(self, t, i):
        # read over write
        while z3.is_store(t):
            j = t.arg(1)
            if j.eq(i): return t.arg(2)
            if z3.is_int_value(j) and z3.is_int_value(i) and j.as_long() != i.as_long():
                t = t.arg(0); continue
            break
        if z3.is_K(t): return t.arg(0)
        return z3.Select(t, i)

    def sort_of(self, lv, p):
        sh = self.w.shape(lv.ty)
        s = sh.get(tuple(p))
        if s is None: raise Unsupported('no leaf %s in %s' % (p, lv.ty.s))
        if s == PY: return PY
        # wrap by the index markers in lv.path
        n = len(lv.idx)
        sorts = [i.sort() for i in lv.idx]
        for ks in reversed(sorts): s = z3.ArraySort(ks, s)
        return s

    def typefacts(self, ty, p, x):
        """range fact of a scalar leaf"""
        if not is_z3(x) or self.quant: return
        if x.sort() == I and not z3.is_int_value(x):
            i = x.get_id()
            if i in self.ranged: return
            self.ranged.add(i)
            if ty is None: return
            lt = self.leaf_type(ty, p)
            if lt == 'len': self.fact(z3.And(x >= 0, x < MAXLEN))
            elif lt is not None and lt.k in ('int', 'enum'):
                lo, hi = int_range(lt); self.fact(z3.And(x >= lo, x <= hi))
            elif lt is not None and lt.k in ('ptr',) or (lt is not None and lt.is_std('std::unique_ptr')):
                self.fact(x >= 0)
            self._keep = getattr(self, '_keep', []); self._keep.append(x)

    def leaf_type(self, ty, p):
        """type of leaf p of ty, or 'len'"""
        w = self.w
        while True:
            if not p:
                return ty
            if p[0] in ('len', 'size') and len(p) == 1 and ty.k in ('rec', 'arr') and (w.is_seq(ty) or ty.k == 'arr' or ty.is_std('std::unordered_set', 'std::unordered_map', 'std::set', 'std::map')): return 'len'
            if ty.k == 'arr' and p[0] == '[]': ty = ty.elem; p = p[1:]; continue
            if ty.k != 'rec': return None
            if ty.s in w.abstract or ty.q in w.abstract: return None
            if p[0] == '[]':
                if ty.s in w.boxed: return None
                ty = ty.targs[0]; p = p[1:]; continue
            if ty.is_std('std::optional') and p[0] == 'val': ty = ty.targs[0]; p = p[1:]; continue
            if ty.is_std('std::pair'): ty = ty.targs[0 if p[0] == 'first' else 1]; p = p[1:]; continue
            if ty.is_std('std::tuple'): ty = ty.targs[int(p[0])]; p = p[1:]; continue
            if ty.is_std('std::unordered_map', 'std::map') and p[0] == '{}': ty = ty.targs[1]; p = p[1:]; continue
            if ty.is_std('std::variant') and p[0].startswith('alt'): ty = ty.targs[int(p[0][3:])]; p = p[1:]; continue
            if ty.rec:
                for n, t, pp in w.fields(ty):
                    if p[:len(pp)] == pp: ty = t; p = p[len(pp):]; break
                else: return None
                continue
            return None

    def rd_val(self, st, lv):
        return Val(lv.ty, {p: self.rd_raw(st, lv, p) for p in self.w.shape(lv.ty) if self.has_leaf(st, lv, p)})

    def has_leaf(self, st, lv, p):
        sh = self.w.shape(lv.ty)
        if sh[p] != PY: return True
        m = st.mem.get(lv.root)
        return m is not None and (lv.path + p) in m

    def rd(self, lv):
        v = self.rd_val(self.st, lv)
        for p, x in v.lv.items(): self.typefacts(lv.ty, p, x)
        return v

    def rdl(self, lv, *p):
        x = self.rd_raw(self.st, lv, p)
        self.typefacts(lv.ty, tuple(p), x)
        return x

    def touch(self, root, path):
        for s in self.pure_base:
            if root in s: raise NotPure('write to %s' % root)
        for rec in self.recorders:
            if root in rec[0] or root.startswith(('heap:', 'global:')): rec[1].add((root, path))
        self.vf.written.add((root, path))

    def wr_leaf(self, lv, p, x):
        full = lv.path + tuple(p)
        self.touch(lv.root, full)
        if (lv.root, full) not in self.vf.leafsort and (is_z3(x) or lv.idx):
            srt = x.sort() if is_z3(x) else I
            for ks in reversed([i.sort() for i in lv.idx]): srt = z3.ArraySort(ks, srt)
            self.vf.leafsort[(lv.root, full)] = srt
        m = dict(self.st.mem.get(lv.root, {}))
        if lv.root not in self.st.types: self.st.types[lv.root] = None
        if not lv.idx:
            m[full] = x
        else:
            if not is_z3(x): x = self.encode_ptr(x)
            cur = m.get(full)
            if cur is None:
                sort = x.sort()
                for ks in reversed([i.sort() for i in lv.idx]): sort = z3.ArraySort(ks, sort)
                cur = z3.Const('%s.%s' % (lv.root, '.'.join(full)), sort)
            m[full] = self.store(cur, lv.idx, x)
        self.st.mem[lv.root] = m

    def store(self, arr, idx, x):
        if len(idx) == 1:
            return z3.Store(arr, idx[0], x)
        return z3.Store(arr, idx[0], self.store(self.sel(arr, idx[0]), idx[1:], x))

    def wr(self, lv, v):
        for p in self.w.shape(lv.ty):
            if p in v.lv: self.wr_leaf(lv, p, v.lv[p])
            elif lv.idx and self.w.shape(lv.ty)[p] == PY: raise Unsupported('py leaf write')

    def encode_ptr(self, x):
        if isinstance(x, PtrLV):
            lv = x.lv
            if lv.root.startswith('heap:') and lv.path == ('[]',): return lv.idx[0]
            nm = 'addr!%s!%s' % (lv.root, '.'.join(lv.path))
            self.encs[nm] = LV(lv.root, lv.path, None, lv.ty)
            if lv.idx:
                fn = z3.Function(nm, *([i.sort() for i in lv.idx] + [I]))
                t = fn(*lv.idx)
            else: t = z3.Const(nm, I)
            self.fact(t > 0)
            return t
        raise Unsupported('cannot store %r in memory' % (x,))

    def heap_lv(self, ty, a):
        root = 'heap:' + self.w.topbase(ty).s
        if root not in self.st.types: self.st.types[root] = None
        self.w.heap_types[root] = self.w.topbase(ty)
        return LV(root, ('[]',), (a,), ty)

    def deref_ptr(self, p, ty):
        if isinstance(p, PtrLV): return p.lv.retag(ty) if ty is not None else p.lv
        if isinstance(p, Iter): return self.it_deref(p)
        if is_z3(p):
            if z3.is_app(p) and p.decl().name() in self.encs:
                e = self.encs[p.decl().name()]
                return LV(e.root, e.path, tuple(p.children()), ty or e.ty)
            return self.heap_lv(ty, p)
        raise Unsupported('deref of %r' % (p,))

    def default_val(self, ty, zero=True):
        """value-initialised object (zeros)"""
        out = {}
        for p, s in self.w.shape(ty).items():
            if s == PY: continue
            if ty.k == 'arr' and p == ('len',):
                out[p] = z3.IntVal(ty.d.get('n', 0)); continue
            if ty.is_std('std::array') and p == ('len',):
                out[p] = z3.IntVal(ty.targs[1]); continue
            out[p] = self.zero_sort(s)
        return Val(ty, out)

    def zero_sort(self, s):
        if s == I: return z3.IntVal(0)
        if s == B: return z3.BoolVal(False)
        if s == R: return z3.RealVal(0)
        if isinstance(s, z3.ArraySortRef): return z3.K(s.domain(), self.zero_sort(s.range()))
        raise Unsupported('zero of sort')

    def undef_val(self, ty, hint='u'):
        """uninitialised object"""
        out = {}
        for p, s in self.w.shape(ty).items():
            if s == PY: continue
            if p and p[-1] in ('len',) and ty.k == 'arr': out[p] = z3.IntVal(ty.d.get('n', 0)); continue
            out[p] = self.fresh(s, hint)
        return Val(ty, out)

    def havoc_val(self, ty, hint='h'):
        v = self.undef_val(ty, hint)
        for p, x in v.lv.items(): self.typefacts(ty, p, x)
        return v

    def iters_default(self, ty):
        return None

    # ---- initial values by type (ctor-less types) ----------------------
    def fresh_root(self, hint, ty):
        self.counter += 1
        return self.new_root('%s#%d' % (hint, self.counter), ty)

    # ---- function execution -------------------------------------------
    def ctxname(self):
        return self.frames[-1].ctx if self.frames else ''

    def run_body(self, fn, this, argvals, node_id, caps=None):
        """argvals: list of Val (by value) or LV (by reference)"""
        if len(self.frames) > 40: raise Unsupported('inlining too deep: ' + fn['q'])
        if sum(1 for f in self.frames if f.fn is fn) >= 3: raise Unsupported('recursion in ' + fn['q'])
        fr = Frame(fn, this, self.ctxname() + '/%s' % node_id)
        fr.caps = caps
        if caps:
            fr.vars.update(caps)
        for prm, a in zip(fn['params'], argvals):
            pt = self.prog.types[prm['t']]
            if pt.k == 'ref':
                if not isinstance(a, LV):
                    if not (isinstance(a, Val) and a.ty.k == 'rec'): raise Unsupported('reference argument')
                    t = self.new_root('%s:%s%d' % (fr.ctx, prm['name'], prm['id']), a.ty); self.wr(t, a); a = t
                fr.vars[prm['id']] = a
            else:
                lv = self.new_root('%s:%s%d' % (fr.ctx, prm['name'], prm['id']), pt)
                self.wr(lv, a)
                fr.vars[prm['id']] = lv
        fr.spec = self.topspec
        self.frames.append(fr)
        try:
            if fn['kind'] == 'ctor': self.ctor_inits(fn, this)
            out = self.stmt(fn['body']) if fn['body'] else None
        finally:
            self.frames.pop()
        if out is None: return None
        if out[0] == 'ret': return out[1]
        raise Unsupported('outcome %s' % (out,))

    def ctor_inits(self, fn, this):
        ty = this.ty
        for i in fn.get('inits', []):
            if 'f' in i:
                ft, fp = self.w.field(ty, i['f'])
                lv = this.f(fp, ft)
                self.init_lv(lv, i['x'])
            elif 'base' in i:
                bt = self.prog.types[i['base']]
                if bt.rec and bt.rec.get('mine'): self.init_lv(this.retag(bt), i['x'])
            else:
                self.init_lv(this, i['x'])

    def init_lv(self, lv, e):
        """initialise object lv (type lv.ty) from expression e"""
        if e is None:
            self.default_init(lv); return
        if lv.ty.k == 'ref':
            v = self.lv(e)
            self.wr_leaf(lv, (), v_ptr(v)); return
        if e['e'] == 'ctor' and self.prog.types[e['t']].s == lv.ty.s and not self.w.contract_for(e['fn']['key']):
            self.construct(lv, e); return
        v = self.ev(e)
        self.wr(lv, self.coerce(v, lv.ty))

    def default_init(self, lv):
        """default-initialisation: scalars indeterminate, containers empty"""
        self.wr(lv, self.default_val(lv.ty) if self.is_container(lv.ty) else self.undef_val(lv.ty))

    def is_container(self, ty):
        return ty.k == 'rec' and (self.w.is_seq(ty) or ty.is_std('std::optional', 'std::unordered_set', 'std::unordered_map', 'std::map', 'std::set', 'std::unique_ptr', 'std::basic_string', 'std::variant'))

    def coerce(self, v, ty):
        if v is None: raise Unsupported('void value')
        return Val(ty, v.lv)

    # ---- statements ---------------------------------------------------
    def stmt(self, s):
        if s is None: return None
        k = s['s']
        if 'l' in s: self.curline = s['l']
        m = getattr(self, 's_' + k, None)
        if m is None: raise Unsupported('statement ' + k + ' ' + s.get('cls', ''))
        return m(s)

    def s_block(self, s):
        b = s.get('b') or []
        i = 0
        while i < len(b):
            out = self.stmt(b[i])
            if out is None: i += 1; continue
            if out[0] == 'goto':
                tgt = None
                for j, x in enumerate(b):
                    if x and x['s'] == 'label' and x['lab'] == out[1]: tgt = j
                if tgt is None: return out
                if tgt <= i: raise Unsupported('backward goto')
                i = tgt; continue
            return out
        return None

    def s_label(self, s):
        return self.stmt(s['x'])

    def s_goto(self, s):
        return ('goto', s['lab'])

    def s_expr(self, s):
        self.ev_discard(s['x'])
        return None

    def ev_discard(self, e):
        if e.get('lv'):
            self.lv(e)
        else:
            self.ev(e, discard=True)

    def s_decl(self, s):
        for d in s['d']: self.decl(d)
        return None

    def decl(self, d):
        fr = self.frames[-1]
        ty = self.prog.types[d['t']]
        if d.get('static'): raise Unsupported('static local')
        if ty.k == 'ref':
            e = d['init']
            if e.get('lv'):
                fr.vars[d['id']] = self.lv(e)
            else:
                v = self.ev(e)
                lv = self.new_root('%s:%s%d' % (fr.ctx, d['name'], d['id']), ty.elem)
                self.wr(lv, self.coerce(v, ty.elem))
                fr.vars[d['id']] = lv
        else:
            lv = self.new_root('%s:%s%d' % (fr.ctx, d['name'], d['id']), ty)
            if d['init'] is not None:
                self.init_lv(lv, d['init'])
            elif ty.k == 'rec' or ty.k == 'arr':
                self.default_init(lv)
            else:
                self.wr(lv, self.undef_val(ty, d['name']))
            fr.vars[d['id']] = lv
        for b in d.get('bindings', []) or []:
            if b.get('hold'):
                self.decl(b['hold'])
                fr.vars[b['id']] = fr.vars[b['hid']]
            else:
                fr.vars[b['id']] = self.lv(b['x'])

    def cond_val(self, e):
        v = self.ev(e)
        x = v.z
        return self.to_bool(x)

    def to_bool(self, x):
        if isinstance(x, (PtrLV,)): return z3.BoolVal(True)
        if isinstance(x, Closure): return z3.BoolVal(True)
        if x.sort() == B: return x
        return x != 0

    def s_if(self, s):
        if s.get('init'): self.stmt(s['init'])
        if s.get('cv'): self.decl(s['cv'])
        c = self.branch_cond(s['c'])
        if self.decide(c): return self.stmt(s['a'])
        return self.stmt(s['b'])

    def branch_cond(self, e):
        """evaluate a branch condition; && and || fork only when their operands are not pure"""
        return self.cond_val(e)

    def s_ret(self, s):
        e = s['x']
        if e is None: return ('ret', None)
        fn = self.frames[-1].fn
        rt = self.prog.types[fn['ret']]
        if rt.k == 'ref': return ('ret', self.lv(e))
        if rt.k == 'void':
            self.ev(e, discard=True); return ('ret', None)
        return ('ret', self.coerce(self.ev(e), rt))

    def s_break(self, s): return ('break',)

    def s_cont(self, s): return ('cont',)

    def s_throw(self, s): raise Thrown('throw')

    def s_switch(self, s):
        if s.get('init'): self.stmt(s['init'])
        if s.get('cv'): self.decl(s['cv'])
        v = self.ev(s['c']).z
        body = s['body']['b'] if s['body']['s'] == 'block' else [s['body']]
        # flatten case labels
        flat = []
        def add(x):
            if x is None: return
            if x['s'] == 'case': flat.append(('case', x['v'])); add(x['x'])
            elif x['s'] == 'default': flat.append(('default', None)); add(x['x'])
            else: flat.append(('s', x))
        for x in body: add(x)
        start = None
        for i, (k, x) in enumerate(flat):
            if k == 'case':
                c = self.ev(x).z
                if v.sort() == B and c.sort() == I: cc = z3.If(v, 1, 0) == c
                else: cc = v == c
                if self.decide(cc): start = i; break
        if start is None:
            for i, (k, x) in enumerate(flat):
                if k == 'default': start = i
        if start is None: return None
        for k, x in flat[start:]:
            if k != 's': continue
            out = self.stmt(x)
            if out is None: continue
            if out[0] == 'break': return None
            return out
        return None

    def s_try(self, s):
        return self.stmt(s['x'])

    # ---- loops --------------------------------------------------------
    def s_for(self, s):
        if s.get('init'): self.stmt(s['init'])
        def cond():
            if s.get('cv'): self.decl(s['cv'])
            return self.cond_val(s['c']) if s['c'] else z3.BoolVal(True)
        return self.loop(s, cond, lambda: self.stmt(s['body']), lambda: s['inc'] and self.ev_discard(s['inc']))

    def s_while(self, s):
        def cond():
            if s.get('cv'): self.decl(s['cv'])
            return self.cond_val(s['c'])
        return self.loop(s, cond, lambda: self.stmt(s['body']), lambda: None)

    def s_do(self, s):
        c = s['c']
        while c.get('e') in ('cast', 'paren') and 'x' in c: c = c['x']
        if c.get('e') in ('int', 'bool') and str(c.get('v')) in ('0', 'False', 'false'):
            r = self.stmt(s['body'])          # do { .. } while (0): executed once
            return None if r in (('break',), ('cont',)) else r
        return self.loop(s, lambda: self.cond_val(s['c']), lambda: self.stmt(s['body']), lambda: None, post=True)

    def s_rfor(self, s):
        if s.get('init'): self.stmt(s['init'])
        self.stmt(s['range']); self.stmt(s['begin']); self.stmt(s['end'])
        def body():
            self.stmt(s['var'])
            return self.stmt(s['body'])
        return self.loop(s, lambda: self.cond_val(s['c']), body, lambda: self.ev_discard(s['inc']))

    def loop(self, s, cond, body, inc, post=False):
        # concrete unrolling while the condition is syntactically decided
        n = 0
        if not post:
            while True:
                snap = self.snapshot()
                c = z3.simplify(cond())
                if z3.is_false(c): return None
                if not z3.is_true(c) or n >= getattr(self.vf.con, 'unroll', 9) or (n == 0 and z3.is_true(c) and self.is_trivially_true(s)):
                    self.restore(snap); break
                out = body()
                if out is not None:
                    if out[0] == 'break': return None
                    if out[0] != 'cont': return out
                inc(); n += 1
        ctx = self.ctxname()
        lid = (ctx, s['_i'], n)
        L = self.vf.loops.setdefault(lid, LoopInfo())
        L.line = s.get('l', 0); L.fn = self.frames[-1].fn['q']
        entry = self.snapshot()
        entry_st = self.st.copy()
        pcs = [f for f, _ in self.pc]
        cands = self.vf.candidates(self, lid, L, s, entry_st)
        L.names = [c[0] for c in cands]
        alive = [c for c in cands if c[0] not in L.dead]
        # entry checks
        for nm, fn in alive:
            f = fn(self)
            if f is None: continue
            self.vf.check_candidate(self, L, nm, f, 'entry')
        alive = [c for c in alive if c[0] not in L.dead]
        # havoc
        roots = set(self.st.mem) | set(self.st.types)
        self.havoc_mods(L)
        for nm, fn in alive:
            f = fn(self)
            if f is not None: self.fact(f)
        for f in self.vf.loop_facts(self, lid, L, s, entry_st): self.fact(f)
        rec = (roots, set())
        if post:
            self.recorders.append(rec)
            try:
                out = body()
                if out is not None and out[0] == 'break': return None
                if out is None or out[0] == 'cont':
                    c = cond()
                    if self.decide(c):
                        self.recorders.remove(rec) if rec in self.recorders else None
                        self.note_mods(L, rec)
                        self.check_all(L, alive)
                        raise PathEnd()
                    return None
                return out
            finally:
                if rec in self.recorders: self.recorders.remove(rec)
                self.note_mods(L, rec)
        which = self.choose(2)
        self.recorders.append(rec)
        try:
            c = cond()
            if which == 0:
                if not self.feasible(z3.Not(c)): raise PathEnd()
                self.fact(z3.Not(c))
                return None
            if not self.feasible(c): raise PathEnd()
            self.fact(c)
            out = body()
            if out is not None and out[0] == 'break': return None
            if out is None or out[0] == 'cont':
                inc()
                self.recorders.remove(rec); self.note_mods(L, rec)
                self.check_all(L, alive)
                raise PathEnd()
            return out
        finally:
            if rec in self.recorders: self.recorders.remove(rec)
            self.note_mods(L, rec)

    def is_trivially_true(self, s):
        c = s.get('c')
        return c is None or (c.get('e') == 'int')

    def check_all(self, L, alive):
        for nm, fn in alive:
            f = fn(self)
            if f is None: continue
            self.vf.check_candidate(self, L, nm, f, 'step')

    def note_mods(self, L, rec):
        new = rec[1] - L.mods
        if new:
            L.mods |= new
            self.vf.dirty = True

    def havoc_mods(self, L):
        for root, path in sorted(L.mods):
            m = self.st.mem.get(root)
            if m is None and root not in self.st.types and not root.startswith(('heap:', 'global:')): continue   # created inside the loop
            cur = m.get(path) if m else None
            self.touch(root, path)
            if cur is None:
                # sort from any known term
                srt = self.vf.leafsort.get((root, path))
                if srt is None: raise Unsupported('unknown sort of %s %s' % (root, path))
                nv = self.fresh(srt, 'lh')
            elif is_z3(cur):
                self.vf.leafsort[(root, path)] = cur.sort()
                nv = self.fresh(cur.sort(), 'lh')
            elif isinstance(cur, Iter):
                nv = cur.move(self.fresh(I, 'it'))
                self.iter_fact(nv)
            elif isinstance(cur, PtrLV):
                if cur.lv.root.startswith('heap:') and cur.lv.path == ('[]',): nv = self.fresh(I, 'lp')
                else: raise Unsupported('pointer reassigned in loop: %r' % (cur,))
            elif isinstance(cur, Range) and isinstance(cur.b, Iter) and isinstance(cur.e, Iter):
                nv = Range(cur.b.move(self.fresh(I, 'it')), cur.e.move(self.fresh(I, 'it')))
            else: raise Unsupported('havoc of %r' % (cur,))
            m = dict(self.st.mem.get(root, {})); m[path] = nv; self.st.mem[root] = m

    def iter_fact(self, it):
        pass

    # ---- expressions ---------------------------------------------------
    def lv(self, e):
        k = e['e']
        if 'l' in e and e['l']: self.curline = e['l']
        m = getattr(self, 'l_' + k, None)
        if m is None: raise Unsupported('lvalue ' + k)
        r = m(e)
        if isinstance(r, Val):   # reference returned as value: materialise
            lv = self.new_root('%s:tmp%d' % (self.ctxname(), e['_i']), self.prog.types[e['t']])
            self.wr(lv, self.coerce(r, lv.ty)); return lv
        return r

    def ev(self, e, discard=False):
        k = e['e']
        if 'l' in e and e['l']: self.curline = e['l']
        if e.get('lv') and k not in ('mat',):
            return self.rd(self.lv(e))
        m = getattr(self, 'e_' + k, None)
        if m is None: raise Unsupported('expression ' + k + ' ' + e.get('cls', ''))
        r = m(e)
        return r

    def ety(self, e):
        return self.prog.types[e['t']]

    def e_int(self, e):
        ty = self.ety(e)
        if ty.k == 'bool': return Val(ty, {(): z3.BoolVal(e['v'] != '0')})
        return Val(ty, {(): z3.IntVal(int(e['v']))})

    def e_flt(self, e):
        return Val(self.ety(e), {(): z3.RealVal(e['v']) if 'E' not in e['v'].upper() else z3.RealVal(repr(float(e['v']))) if 'e' not in repr(float(e['v'])) else z3.Q(int(float(e['v'])), 1)})

    def e_str(self, e):
        return Val(self.ety(e), {(): z3.Const('str!%s' % e.get('v', ''), I)})

    l_str = e_str

    def e_null(self, e):
        return Val(self.ety(e), {(): z3.IntVal(0)})

    def e_this(self, e):
        return Val(self.ety(e), {(): PtrLV(self.frames[-1].this)})

    def e_zero(self, e):
        return self.default_val(self.ety(e))

    def var_lv(self, e):
        i = e['id']
        fr = self.frames[-1]
        if i in fr.vars: return fr.vars[i]
        g = e.get('global')
        if g: return self.global_lv(g)
        raise Unsupported('variable %s not bound' % e['name'])

    def global_lv(self, g):
        root = 'global:' + g
        G = self.prog.globals.get(g)
        ty = self.prog.types[G['t']]
        if root not in self.st.types:
            self.st.types[root] = ty
            lv = LV(root, (), (), ty)
            if G.get('init') is not None:
                self.st.mem[root] = {}
                fr = Frame({'q': 'global', 'ret': 0, 'params': []}, None, self.ctxname())
                self.frames.append(fr)
                sp, self.pure_base = self.pure_base, []
                try: self.init_lv(lv, G['init'])
                finally:
                    self.frames.pop(); self.pure_base = sp
        if ty.k == 'ref':
            raise Unsupported('global reference')
        return LV(root, (), (), ty)

    def l_ref(self, e):
        return self.var_lv(e)

    def e_ref(self, e):
        return self.rd(self.var_lv(e))

    def e_fref(self, e):
        return Val(self.ety(e), {(): Closure([e['fn']['key']], {}, None)})

    l_fref = e_fref

    def l_mem(self, e):
        if e.get('arrow'):
            p = self.ev(e['x']).z
            pt = self.ety(e['x'])
            base = self.deref_ptr(p, pt.elem)
        else:
            base = self.lv(e['x']) if e['x'].get('lv') else self.mat(e['x'])
        return self.member(base, e['name'])

    def member(self, base, name):
        bt = base.ty
        sp = self.w.natives.get(('member', bt.q, name))
        if sp: return sp(self, base)
        if bt.is_std('std::pair'):
            ft = bt.targs[0 if name == 'first' else 1]
            r = base.f(name, ft)
        else:
            ft, fp = self.w.field(bt, name)
            r = base.f(fp, ft)
        if ft.k == 'ref':
            p = self.rd_raw(self.st, r, ())
            return self.deref_ptr(p, ft.elem)
        return r

    def e_mem(self, e):
        if e['x'].get('lv') or e.get('arrow'): return self.rd(self.l_mem(e))
        v = self.ev(e['x'])
        bt = self.ety(e['x'])
        if bt.is_std('std::pair'): return v.sub(e['name'], self.ety(e))
        ft, fp = self.w.field(bt, e['name'])
        return v.sub(fp, self.ety(e))

    def mat(self, e):
        """materialise prvalue expression e into a temporary"""
        v = self.ev(e)
        ty = self.ety(e)
        lv = self.new_root('%s:mat%d' % (self.ctxname(), e['_i']), ty)
        self.wr(lv, self.coerce(v, ty))
        return lv

    def l_mat(self, e):
        x = e['x']
        if x.get('lv'): return self.lv(x)
        return self.mat(x)

    def e_mat(self, e):
        if e['x'].get('lv'): return self.rd(self.lv(e['x']))
        return self.ev(e['x'])

    def l_cast(self, e):
        ck = e['ck']
        if ck in ('DerivedToBase', 'UncheckedDerivedToBase', 'BaseToDerived', 'Dynamic', 'NoOp', 'LValueBitCast'):
            x = self.lv(e['x']) if e['x'].get('lv') else self.mat(e['x'])
            if isinstance(x, LV): return x.retag(self.ety(e))
            return x
        raise Unsupported('lvalue cast ' + ck)

    def e_cast(self, e):
        ck = e['ck']; ty = self.ety(e); x = e['x']
        if ck == 'LValueToRValue':
            l = self.lv(x)
            if isinstance(l, LV): return Val(ty, self.rd(l).lv)
            return l
        if ck == 'ToVoid':
            self.ev_discard(x); return Val(ty, {})
        if ck in ('IntegralCast',):
            return Val(ty, {(): self.int_cast(self.ev(x).z, self.ety(x), ty)})
        if ck == 'IntegralToBoolean': return Val(ty, {(): self.to_bool(self.ev(x).z)})
        if ck == 'PointerToBoolean': return Val(ty, {(): self.to_bool(self.ev(x).z)})
        if ck == 'FloatingToBoolean': return Val(ty, {(): self.ev(x).z != 0})
        if ck in ('NullToPointer',): return Val(ty, {(): z3.IntVal(0)})
        if ck == 'IntegralToFloating':
            z = self.ev(x).z
            if z.sort() == B: z = z3.If(z, 1, 0)
            return Val(ty, {(): z3.ToReal(z)})
        if ck == 'FloatingCast': return Val(ty, self.ev(x).lv)
        if ck == 'FloatingToIntegral':
            z = self.ev(x).z
            t = z3.If(z >= 0, z3.ToInt(z), -z3.ToInt(-z))
            return Val(ty, {(): t})
        if ck == 'ArrayToPointerDecay':
            if x.get('e') == 'str': return Val(ty, self.e_str(x).lv)
            l = self.lv(x)
            if isinstance(l, Val): return l
            sp = self.w.natives.get(('decay', l.ty.elem.q if l.ty.k == 'arr' else ''))
            if sp: return Val(ty, {(): sp(self, l)})
            return Val(ty, {(): Iter(l, z3.IntVal(0))})
        if ck in ('DerivedToBase', 'UncheckedDerivedToBase', 'BaseToDerived', 'Dynamic'):
            v = self.ev(x)
            z = v.lv.get(())
            if isinstance(z, PtrLV): return Val(ty, {(): PtrLV(z.lv.retag(ty.elem))})
            return Val(ty, v.lv)
        if ck in ('BitCast', 'NoOp', 'ConstructorConversion', 'UserDefinedConversion'):
            return Val(ty, self.ev(x).lv)
        raise Unsupported('cast ' + ck)

    def int_cast(self, z, src, dst):
        if not is_z3(z): return z
        if dst.k == 'bool': return self.to_bool(z)
        if z.sort() == B: return z3.If(z, z3.IntVal(1), z3.IntVal(0))
        if z3.is_int_value(z):
            v = z.as_long(); lo, hi = self.irange(dst)
            if lo <= v <= hi: return z
            n = 1 << dst.bits; v %= n
            if dst.signed and v >= n // 2: v -= n
            return z3.IntVal(v)
        slo, shi = self.irange(src); lo, hi = self.irange(dst)
        if src.k == 'enum': slo, shi = int_range(src)
        if slo >= lo and shi <= hi: return z
        return self.wrap_int(z, dst)

    def irange(self, ty):
        if ty.k == 'bool': return 0, 1
        if ty.k == 'enum':
            if ty.signed: return -(1 << (ty.bits - 1)), (1 << (ty.bits - 1)) - 1
            return 0, (1 << ty.bits) - 1
        return int_range(ty)

    def wrap_int(self, z, ty):
        lo, hi = self.irange(ty)
        if not self.quant and self.proved(z3.And(z >= lo, z <= hi)): return z
        if self.quant and getattr(self, 'quant_nowrap', True): return z
        n = 1 << ty.bits
        if ty.signed:
            return z3.If(z3.And(z >= lo, z <= hi), z, (z + n // 2) % n - n // 2)
        return z3.If(z3.And(z >= lo, z <= hi), z, z % n)

    def arith(self, op, a, b, ty, where=''):
        """a op b computed in machine type ty"""
        if ty.k == 'float' or a.sort() == R or b.sort() == R:
            if a.sort() == I: a = z3.ToReal(a)
            if b.sort() == I: b = z3.ToReal(b)
            if op == '+': return a + b
            if op == '-': return a - b
            if op == '*': return a * b
            if op == '/': return a / b
            raise Unsupported('float op ' + op)
        if a.sort() == B: a = z3.If(a, z3.IntVal(1), z3.IntVal(0))
        if b.sort() == B: b = z3.If(b, z3.IntVal(1), z3.IntVal(0))
        if op in ('+', '-', '*'):
            r = a + b if op == '+' else a - b if op == '-' else self.mul(a, b)
            r = z3.simplify(r) if (z3.is_int_value(a) or z3.is_int_value(b)) else r
            h = getattr(self.w, 'on_add', None)
            if h and op != '*' and not self.quant: h(self, op, a, b, r)
            return self.fit(r, ty, op)
        if op in ('/', '%'):
            self.oblige('division by zero', b != 0, 'ub')
            q, rem = self.tdiv(a, b)
            if op == '/':
                return self.fit(q, ty, op)
            return rem
        if op in ('&', '|', '^', '<<', '>>'):
            return self.bitop(op, a, b, ty)
        raise Unsupported('op ' + op)

    def mul(self, a, b):
        h = getattr(self.w, 'on_mul', None)
        if h and not self.quant: h(self, a, b)
        return a * b

    def tdiv(self, a, b):
        """truncated quotient and remainder: fresh q, r with the defining facts"""
        if z3.is_int_value(a) and z3.is_int_value(b):
            x, y = a.as_long(), b.as_long()
            if y:
                q = abs(x) // abs(y) * (1 if (x >= 0) == (y >= 0) else -1)
                return z3.IntVal(q), z3.IntVal(x - q * y)
        if z3.is_int_value(b) and b.as_long() > 0 and (self.quant or self.proved(a >= 0)) and not getattr(self.w, 'on_div', None):
            return a / b, a % b
        if self.quant: raise NotPure('division under quantifier')
        dc = self.log.setdefault('divc', {}); kk = (a.get_id(), b.get_id())
        if kk in dc: q, r = dc[kk][2:]
        else:
            q = self.fresh(I, 'q'); r = self.fresh(I, 'r'); dc[kk] = (a, b, q, r)
        self.fact(z3.Implies(b != 0, a == q * b + r))
        self.fact(z3.Implies(z3.And(a >= 0, b > 0), z3.And(r >= 0, r < b, q >= 0, q <= a)))
        self.fact(z3.Implies(z3.And(a >= 0, b < 0), z3.And(r >= 0, r < -b, q <= 0, q >= -a)))
        self.fact(z3.Implies(z3.And(a < 0, b > 0), z3.And(r <= 0, r > -b, q <= 0, q >= a)))
        self.fact(z3.Implies(z3.And(a < 0, b < 0), z3.And(r <= 0, r > b, q >= 0, q <= -a)))
        self.vf.on_div(self, a, b, q, r)
        return q, r

    def fit(self, r, ty, what):
        if z3.is_int_value(r):
            v = r.as_long(); lo, hi = self.irange(ty)
            if lo <= v <= hi: return r
            if not ty.signed: return z3.IntVal(v % (1 << ty.bits))
        if ty.k not in ('int', 'enum'): return r
        lo, hi = self.irange(ty)
        if ty.signed:
            if not self.w.no_overflow_check and not self.quant:
                self.oblige('signed overflow (%s, %d bits)' % (what, ty.bits), z3.And(r >= lo, r <= hi), 'overflow')
            return r
        return self.wrap_int(r, ty)

    def bitop(self, op, a, b, ty):
        ca = a.as_long() if z3.is_int_value(a) else None
        cb = b.as_long() if z3.is_int_value(b) else None
        def as_bool(x, c):
            if c in (0, 1): return z3.BoolVal(c == 1)
            if z3.is_app_of(x, z3.Z3_OP_ITE) and z3.is_int_value(x.arg(1)) and z3.is_int_value(x.arg(2)) and (x.arg(1).as_long(), x.arg(2).as_long()) == (1, 0): return x.arg(0)
            return None
        if op in '&|^' and (ca is None or cb is None):
            pa, pb = as_bool(a, ca), as_bool(b, cb)
            if pa is not None and pb is not None:
                return z3.If({'&': z3.And, '|': z3.Or, '^': z3.Xor}[op](pa, pb), z3.IntVal(1), z3.IntVal(0))
        if ca is not None and cb is not None:
            n = 1 << ty.bits
            r = {'&': lambda: ca & cb, '|': lambda: ca | cb, '^': lambda: ca ^ cb, '<<': lambda: ca << cb, '>>': lambda: ca >> cb}[op]()
            return self.fit(z3.IntVal(r), ty, op)
        if op == '<<' and cb is not None: return self.fit(a * (1 << cb), ty, op)
        if op == '>>' and cb is not None: return a / (1 << cb)
        if op in '&|^' and ca is not None and cb is None: a, b, ca, cb = b, a, cb, ca
        if cb is not None and cb >= 0:
            if op == '&' and (cb & (cb + 1)) == 0 and cb > 0: return a % (cb + 1)
            if op == '&' and cb == 0: return z3.IntVal(0)
            if op == '^' and cb == 1: return z3.If(a % 2 == 0, a + 1, a - 1)
            if op in ('|', '^') and cb == 0: return a
            if op == '&' and bin(cb).count('1') <= 8:
                return z3.Sum([z3.If((a / (1 << i)) % 2 == 1, z3.IntVal(1 << i), z3.IntVal(0)) for i in range(64) if cb >> i & 1])
            if op == '|' and bin(cb).count('1') <= 8:
                return a + z3.Sum([z3.If((a / (1 << i)) % 2 == 1, z3.IntVal(0), z3.IntVal(1 << i)) for i in range(64) if cb >> i & 1])
            if op == '&' and cb < 0: pass
        if cb is not None and cb < 0 and op == '&' and bin(~cb).count('1') <= 8:
            c = ~cb
            return a - z3.Sum([z3.If((a / (1 << i)) % 2 == 1, z3.IntVal(1 << i), z3.IntVal(0)) for i in range(64) if c >> i & 1])
        if ty.bits == 64 or True:
            fn = z3.Function({'&': 'band', '|': 'bor', '^': 'bxor', '<<': 'bshl', '>>': 'bshr'}[op] + str(ty.bits), I, I, I)
            r = fn(a, b)
            lo, hi = self.irange(ty)
            if not self.quant: self.fact(z3.And(r >= lo, r <= hi))
            self.vf.on_bitop(self, op, a, b, r, ty)
            return r

    def e_un(self, e):
        op = e['op']; ty = self.ety(e)
        if op == '!':
            return Val(ty, {(): z3.Not(self.to_bool(self.ev(e['x']).z))})
        if op == '-':
            v = self.ev(e['x']).z
            if ty.k == 'float': return Val(ty, {(): -v})
            return Val(ty, {(): self.arith('-', z3.IntVal(0), v, ty)})
        if op == '+': return self.ev(e['x'])
        if op == '~':
            v = self.ev(e['x']).z
            if ty.signed: return Val(ty, {(): z3.simplify(-v - 1)})
            return Val(ty, {(): (1 << ty.bits) - 1 - v})
        if op == '&':
            l = self.lv(e['x'])
            if isinstance(l, Val): return l
            if l.root.startswith('heap:') and l.path == ('[]',): return Val(ty, {(): l.idx[0]})
            return Val(ty, {(): PtrLV(l)})
        if op in ('++', '--'):
            lv = self.lv(e['x']); old = self.rd(lv)
            new = self.incdec(old, op, lv.ty)
            self.wr(lv, new)
            return old if e.get('post') else new
        raise Unsupported('unary ' + op)

    def incdec(self, old, op, ty):
        z = old.z
        if isinstance(z, Iter): return Val(ty, {(): z.move(z3.simplify(z.idx + (1 if op == '++' else -1)))})
        if ty.k == 'float': return Val(ty, {(): z + (1 if op == '++' else -1)})
        return Val(ty, {(): self.arith('+' if op == '++' else '-', z, z3.IntVal(1), ty)})

    def l_un(self, e):
        op = e['op']
        if op == '*':
            v = self.ev(e['x'])
            if isinstance(v.z, Closure): return v
            return self.deref_ptr(v.z, self.ety(e))
        if op in ('++', '--'):
            lv = self.lv(e['x']); self.wr(lv, self.incdec(self.rd(lv), op, lv.ty)); return lv
        raise Unsupported('lvalue unary ' + op)

    def cmp_ptr(self, a, b):
        if isinstance(a, Iter) and isinstance(b, Iter): return self.it_eq(a, b)
        if isinstance(a, PtrLV) and isinstance(b, PtrLV):
            if a.lv.root == b.lv.root and a.lv.path == b.lv.path:
                return And(*[x == y for x, y in zip(a.lv.idx, b.lv.idx)])
            return z3.BoolVal(False)
        if isinstance(a, PtrLV): a, b = b, a
        if isinstance(b, PtrLV) and is_z3(a):
            if z3.is_int_value(a) and a.as_long() == 0: return z3.BoolVal(False)
            return a == self.encode_ptr(b)
        if isinstance(a, Iter) or isinstance(b, Iter):
            return z3.BoolVal(False)
        return a == b

    def e_bin(self, e):
        op = e['op']; ty = self.ety(e)
        if op == ',':
            self.ev_discard(e['a']); return self.ev(e['b'])
        if op in ('&&', '||'):
            return Val(ty, {(): self.logic(op, e['a'], e['b'])})
        if op == '=':
            lv = self.lv(e)
            return self.rd(lv)
        a = self.ev(e['a']); b = self.ev(e['b'])
        x, y = a.z, b.z
        if op in ('==', '!='):
            if not (is_z3(x) and is_z3(y)): r = self.cmp_ptr(x, y)
            else:
                x, y = self.unify(x, y); r = x == y
            return Val(ty, {(): z3.Not(r) if op == '!=' else r})
        if op in ('<', '>', '<=', '>='):
            if isinstance(x, Iter) and isinstance(y, Iter): x, y = x.idx, y.idx
            x, y = self.unify(x, y)
            if x.sort() == B: x = z3.If(x, 1, 0); y = z3.If(y, 1, 0)
            return Val(ty, {(): {'<': x < y, '>': x > y, '<=': x <= y, '>=': x >= y}[op]})
        if isinstance(x, Iter) or isinstance(y, Iter):
            if op == '-' and isinstance(x, Iter) and isinstance(y, Iter): return Val(ty, {(): x.idx - y.idx})
            if isinstance(y, Iter): x, y = y, x
            if op == '+': return Val(ty, {(): x.move(z3.simplify(x.idx + y))})
            if op == '-': return Val(ty, {(): x.move(z3.simplify(x.idx - y))})
        if op == '<=>':
            return Val(ty, {(): z3.If(x < y, z3.IntVal(-1), z3.If(x == y, z3.IntVal(0), z3.IntVal(1)))})
        return Val(ty, {(): self.arith(op, x, y, ty)})

    def unify(self, x, y):
        if x.sort() == y.sort(): return x, y
        if x.sort() == B: x = z3.If(x, z3.IntVal(1), z3.IntVal(0))
        if y.sort() == B: y = z3.If(y, z3.IntVal(1), z3.IntVal(0))
        if x.sort() == R and y.sort() == I: y = z3.ToReal(y)
        if y.sort() == R and x.sort() == I: x = z3.ToReal(x)
        return x, y

    def logic(self, op, ea, eb):
        a = z3.simplify(self.cond_val(ea))
        if op == '&&':
            if z3.is_false(a): return a
            if z3.is_true(a): return self.cond_val(eb)
        else:
            if z3.is_true(a): return a
            if z3.is_false(a): return self.cond_val(eb)
        guard = a if op == '&&' else z3.Not(a)
        try:
            def go():
                self.fact(guard, True)
                return Val(None, {(): self.cond_val(eb)})
            b = self.guarded(guard, lambda: self.cond_val(eb))
            return z3.And(a, b) if op == '&&' else z3.Or(a, b)
        except NotPure:
            if self.quant: raise
            if self.decide(guard): return self.cond_val(eb)
            return z3.BoolVal(op == '||')

    def guarded(self, guard, thunk):
        """evaluate thunk purely under guard; facts/obligations relativised to the guard"""
        if not self.quant and not self.feasible(guard):
            return z3.BoolVal(False)
        def t2():
            self.fact(guard, True)
            return Val(None, {(): thunk()})
        self.pure_base.append(set(self.st.mem) | set(self.st.types))
        try: res = self.explore(t2)
        except Thrown: raise NotPure('throw')
        finally: self.pure_base.pop()
        if not res: return z3.BoolVal(False)
        acc = None
        for dec, fac, r, snap in reversed(res):
            c = And(*[d for d in dec if not d.eq(guard)])
            acc = r.z if acc is None else ite(c, r.z, acc)
        for dec, fac, r, snap in res:
            for k, f in fac.items: self.fact(z3.Implies(And(guard, *dec[:k]), f))
            if fac.total is not None: self.fact(z3.Implies(guard, fac.total))
        if len(res) == 1:
            c = And(*res[0][0])
            if not z3.is_true(c): self.fact(z3.Implies(guard, c))
            self.adopt(res[0][3])
        return acc

    def e_cond(self, e):
        ty = self.ety(e)
        c = z3.simplify(self.cond_val(e['c']))
        if z3.is_true(c): return self.ev(e['a'])
        if z3.is_false(c): return self.ev(e['b'])
        if not (self.is_noreturn(e['a']) or self.is_noreturn(e['b'])):
            try:
                if getattr(self.w, 'fork_cond', False) and not self.quant and has_div(e['a'], e['b']): raise NotPure('fork')
                def thunk():
                    if self.decide(c): return self.coerce(self.ev(e['a']), ty)
                    return self.coerce(self.ev(e['b']), ty)
                return self.pure(thunk)
            except NotPure:
                if self.quant: raise
        else:
            # assert(): condition becomes an obligation or an assumption
            good, bad = (e['a'], e['b']) if self.is_noreturn(e['b']) else (e['b'], e['a'])
            cc = c if good is e['a'] else z3.Not(c)
            if self.w.assert_mode == 'check': self.oblige('assert', cc, 'assert')
            elif self.w.assert_mode == 'assume': self.fact(cc)
            return self.ev(good) if good['e'] != 'int' else Val(ty, {})
        if self.decide(c): return self.coerce(self.ev(e['a']), ty)
        return self.coerce(self.ev(e['b']), ty)

    def is_noreturn(self, e):
        return e['e'] == 'call' and isinstance(e.get('fn'), dict) and e['fn']['q'] in ('__assert_fail', 'abort', '__assert')

    def l_cond(self, e):
        c = self.cond_val(e['c'])
        if self.decide(c): return self.lv(e['a'])
        return self.lv(e['b'])

    def l_bin(self, e):
        op = e['op']
        if op == '=':
            v = self.ev(e['b']); lv = self.lv(e['a'])
            self.wr(lv, self.coerce(v, lv.ty)); return lv
        if op == ',':
            self.ev_discard(e['a']); return self.lv(e['b'])
        raise Unsupported('lvalue bin ' + op)

    def l_casg(self, e):
        op = e['op'][:-1]
        b = self.ev(e['b']).z
        lv = self.lv(e['a'])
        a = self.rd(lv).z
        ty = lv.ty
        if isinstance(a, Iter):
            self.wr(lv, Val(ty, {(): a.move(z3.simplify(a.idx + b) if op == '+' else z3.simplify(a.idx - b))})); return lv
        ct = self.prog.types[e['ct']]; crt = self.prog.types[e['crt']]
        a2 = a if ty.k == 'float' or ct.k == 'float' else self.int_cast(a, ty, ct)
        r = self.arith(op, a2, b, crt)
        if ty.k == 'bool': r = self.to_bool(r)
        elif ty.k in ('int', 'enum') and crt.k in ('int', 'enum'): r = self.int_cast(r, crt, ty)
        self.wr(lv, Val(ty, {(): r}))
        return lv

    def l_sub(self, e):
        a = self.ev(e['a']); i = self.ev(e['b']).z
        z = a.z
        if isinstance(z, Iter): return self.it_deref(z.move(z3.simplify(z.idx + i)))
        if isinstance(z, PtrLV) and z3.is_int_value(i) and i.as_long() == 0: return z.lv
        raise Unsupported('subscript')

    def e_stmtexpr(self, e):
        raise Unsupported('statement expression')

    def e_throw(self, e):
        raise Thrown('throw')

    def e_stdinit(self, e):
        v = self.ev(e['x'])
        ty = self.ety(e)
        return Val(ty, v.lv)

    def e_ilist(self, e):
        ty = self.ety(e)
        if ty.k == 'arr':
            out = self.default_val(ty)
            out.lv[('len',)] = z3.IntVal(ty.d.get('n', len(e['args'])))
            for i, a in enumerate(e['args']):
                v = self.ev(a)
                for p in self.w.shape(ty.elem):
                    x = v.lv[p]
                    if not is_z3(x): 
                        x = self.encode_ptr(x)
                    out.lv[('[]',) + p] = z3.Store(out.lv[('[]',) + p], z3.IntVal(i), x)
            return out
        if ty.k == 'rec' and ty.is_std('std::array'):
            if len(e['args']) == 1 and self.ety(e['args'][0]).k == 'arr':
                v = self.ev(e['args'][0]); v.lv[('len',)] = z3.IntVal(ty.targs[1])
                return Val(ty, v.lv)
            if not e['args']: return self.default_val(ty)
        if ty.k == 'rec' and ty.rec:
            out = {}
            fs = self.w.fields(ty)
            nb = [b for b in ty.rec.get('bases', []) if self.prog.types[b].rec and self.prog.types[b].rec.get('mine')]
            if nb and len(e['args']) == len(nb) + len(ty.rec['fields']):
                raise Unsupported('aggregate with bases')
            if ty.q in ('std::less', 'std::greater', 'std::equal_to'): return Val(ty, {})
            if ty.is_std("std::hash"): return self.default_val(ty)
            if len(e["args"]) > len(fs): raise Unsupported("aggregate " + ty.s)
            for (n, t, path), a in itertools.zip_longest(fs, e['args']):
                if a is None:
                    v = self.default_val(t)
                else:
                    v = self.ev(a)
                for p, x in v.lv.items(): out[path + p] = x
            return Val(ty, out)
        if len(e['args']) == 1: return self.coerce(self.ev(e['args'][0]), ty)
        if not e['args']: return self.default_val(ty)
        raise Unsupported('init list of ' + ty.s)

    def e_lambda(self, e):
        caps = {}
        for c in e['caps']:
            if c.get('this'): continue
            if c['byref']:
                ini = c['init']
                caps[c['id']] = self.lv(ini) if ini is not None and ini.get('lv') else self.frames[-1].vars.get(c['id'])
            else:
                ini = c['init']
                v = self.ev(ini)
                lv = self.new_root('%s:cap%d_%d' % (self.ctxname(), e['_i'], c['id']), self.prog.types[c['t']].nonref())
                self.wr(lv, self.coerce(v, lv.ty))
                caps[c['id']] = lv
        keys = [s['key'] for s in e.get('specs', [])] or [e['callop']]
        return Val(self.ety(e), {(): Closure(keys, caps, self.frames[-1].this)})

    # ---- calls ---------------------------------------------------------
    def e_call(self, e):
        r = self.call(e)
        return self.as_val(r, e)

    def as_val(self, r, e):
        ty = self.ety(e)
        if r is None: return Val(ty, {})
        if isinstance(r, LV): return self.rd(r)
        return Val(ty, r.lv)

    def l_call(self, e):
        return self.call(e)

    def call(self, e):
        fn = e.get('fn')
        if fn is None:
            c = self.ev(e['callee']).z
            if isinstance(c, Closure): return self.call_closure(c, [self.argany(a) for a in e['args']])
            raise Unsupported('indirect call')
        return self.invoke(e, fn, None, e['args'])

    def e_mcall(self, e):
        return self.as_val(self.mcall(e), e)

    def l_mcall(self, e):
        return self.mcall(e)

    def mcall(self, e):
        fn = e.get('fn')
        if fn is None: raise Unsupported('member pointer call')
        oty = self.ety(e['obj'])
        if e.get('arrow'):
            p = self.ev(e['obj']).z
            this = self.deref_ptr(p, oty.elem if oty.k == 'ptr' else None)
        elif e['obj'].get('lv'):
            this = self.lv(e['obj'])
        else:
            v = self.ev(e['obj'])
            if isinstance(v.lv.get(()), (Iter, Closure, Range)) or () in v.lv and not is_z3(v.lv[()]):
                this = self.new_root('%s:mo%d' % (self.ctxname(), e['_i']), oty); self.wr(this, v)
            else:
                this = self.new_root('%s:mo%d' % (self.ctxname(), e['_i']), oty); self.wr(this, self.coerce(v, oty))
        if isinstance(this, Val):
            z = this.lv.get(())
            if isinstance(z, Closure): return self.call_closure(z, [self.argany(a) for a in e['args']])
            lv = self.new_root('%s:mv%d' % (self.ctxname(), e['_i']), oty); self.wr(lv, this); this = lv
        return self.invoke(e, fn, this, e['args'])

    def argany(self, a):
        if a.get('lv'): return self.lv(a)
        return self.ev(a)

    def bind_args(self, e, ptys, args):
        out = []
        for i, a in enumerate(args):
            pt = self.prog.types[ptys[i]] if i < len(ptys) else None
            if pt is not None and pt.k == 'ref':
                l = self.lv(a) if a.get('lv') else self.mat(a)
                if isinstance(l, Val):
                    t = self.new_root('%s:ar%d' % (self.ctxname(), a['_i']), pt.elem); self.wr(t, l); l = t
                out.append(l)
            else:
                v = self.ev(a)
                out.append(self.coerce(v, pt) if pt is not None else v)
        return out

    def invoke(self, e, fn, this, args):
        w = self.w
        q = fn['q']
        key = fn['key']
        if q == 'yaga_nop': return None
        # natives by exact qualified name first
        nat = w.natives.get(('q', q))
        if nat is None and key in self.prog.funcs: nat = w.natives.get(('q', self.prog.funcs[key].get('qs')))     # members of class templates
        if nat: return nat(self, e, this, args)
        # lambda call operators
        cls = self.prog.types[fn['cls']] if 'cls' in fn else None
        if cls is not None and cls.d.get('lambda'):
            if fn.get('conv'): return self.rd(this)
            try: c = self.rd_raw(self.st, this, ())
            except Unsupported:
                if not w.callback: raise
                return w.callback(self, e, this, args)       # a function object given by the caller
            ops = self.bind_args(e, fn['pt'], args)
            return self.call_closure(c, ops, key)
        con = w.contract_for(key)
        if con is None and fn.get('virt') and this is not None and not e.get('qualified'):
            dyn = self.vf.resolve_virtual(self, fn, this)
            if dyn is not None:
                key = dyn['key']; con = w.contract_for(key)
                fdef = dyn
            else: raise Unsupported('virtual call ' + q)
        if con is not None and not con.inline_only and not (self.vf.toplevel_inline(con, key)):
            f = self.prog.funcs.get(key)
            a = self.bind_args(e, fn['pt'], args)
            return self.apply_contract(con, f, this, a, e)
        f = self.prog.funcs.get(key)
        if f is not None and (fn.get('mine') or f):
            if f['kind'] == 'ctor': raise Unsupported('ctor via invoke')
            if f.get('defaulted') and f['n'] == 'operator=':
                src = self.lv(args[0]) if args[0].get('lv') else self.mat(args[0])
                self.wr(this, self.rd(src).__class__(this.ty, self.rd(src).lv)); return this
            a = self.bind_args(e, [p['t'] for p in f['params']], args)
            w.inlined.add(f['q'])
            if self.is_simple_pure(f):
                try: return self.pure(lambda: self.run_body(f, self.this_of(this, f), a, e['_i']))
                except NotPure:
                    if self.quant: raise
            return self.run_body(f, self.this_of(this, f), a, e['_i'])
        if fn.get('defaulted') and fn['n'] == 'operator=' and this is not None:
            src = self.lv(args[0]) if args[0].get('lv') else self.mat(args[0])
            v = self.rd(src); self.wr(this, Val(this.ty, v.lv)); return this
        if fn.get('defaulted') and fn['n'] == 'operator==' and this is not None:
            o = self.lv(args[0]) if args[0].get('lv') else self.mat(args[0])
            return self.struct_eq(this, o)
        cq = cls.q if cls is not None else ''
        nat = w.natives.get((cq, fn['n'])) or (w.natives.get(('*iter', fn['n'])) if cls is not None and w.is_iter(cls) else None)
        if nat is None and cls is None: nat = w.natives.get(('', fn['n']))
        if nat is None and cls is not None:
            for (c0, n0), h in w.natives.items():
                if n0 == fn['n'] and c0.endswith('*') and cq.startswith(c0[:-1]): nat = h; break
        if nat is None: raise Unsupported('no model for %s' % q)
        r = nat(self, e, this, args)
        return r

    def this_of(self, this, f):
        if this is None or 'cls' not in f: return this
        return this.retag(self.prog.types[f['cls']])

    def is_simple_pure(self, f):
        """const methods / functions without loops are evaluated as one merged expression when possible"""
        r = f.get('_sp')
        if r is None:
            r = not _has_loop(f['body']) and self.prog.types[f['ret']].k not in ('void',) and f['kind'] == 'fn' and not _has_assign(f['body'])
            f['_sp'] = r
        return r

    def call_closure(self, c, args, key=None):
        keys = [key] if key and key in self.prog.funcs else c.callops
        fs = [self.prog.funcs[k] for k in keys if k in self.prog.funcs]
        if len(fs) > 1:
            def ok(f):
                for p, a in zip(f['params'], args):
                    pt = self.prog.types[p['t']].nonref()
                    at = a.ty
                    if at is not None and pt.s != at.s: return False
                return len(f['params']) == len(args)
            g = [f for f in fs if ok(f)]
            fs = g or fs
        if not fs: raise Unsupported('closure without body')
        f = fs[0]
        a = []
        for p, x in zip(f['params'], args):
            pt = self.prog.types[p['t']]
            if pt.k == 'ref':
                if isinstance(x, LV): a.append(x)
                else:
                    t = self.new_root('%s:cl%d_%d' % (self.ctxname(), f['_i'], p['id']), pt.elem); self.wr(t, self.coerce(x, pt.elem)); a.append(t)
            else:
                a.append(self.coerce(self.rd(x) if isinstance(x, LV) else x, pt))
        if self.is_simple_pure(f):
            try: return self.pure(lambda: self.run_body(f, c.this, a, f['_i'], c.caps))
            except NotPure:
                if self.quant: raise
        return self.run_body(f, c.this, a, f['_i'], c.caps)

    def struct_eq(self, a, b):
        r = []
        for p in self.w.shape(a.ty):
            x = self.rdl(a, *p); y = self.rdl(b, *p)
            r.append(x == y)
        return Val(self.prog.bystr['bool'], {(): And(*r)})

    # ---- constructors --------------------------------------------------
    def e_ctor(self, e):
        ty = self.ety(e)
        if e.get('copymove') and len(e['args']) == 1:
            con = self.w.contract_for(e['fn']['key'])
            f = self.prog.funcs.get(e['fn']['key'])
            a = e['args'][0]
            if con is None and (f is None or f.get('defaulted') or ty.s in self.w.abstract or ty.q in self.w.abstract):
                if a.get('lv'):
                    l = self.lv(a)
                    v = self.rd(l) if isinstance(l, LV) else l
                    v = Val(ty, v.lv)
                    if e.get('move'): self.moved(l)
                    return v
                return self.coerce(self.ev(a), ty)
        lv = self.new_root('%s:obj%d' % (self.ctxname(), e['_i']), ty)
        self.construct(lv, e)
        return self.rd_val(self.st, lv)

    def moved(self, l):
        """moved-from standard sequence containers are left empty (libstdc++), others unspecified"""
        if not isinstance(l, LV): return
        ty = l.ty
        if ty.is_std('std::vector', 'std::deque'):
            try: self.wr_leaf(l, ('len',), z3.IntVal(0))
            except NotPure: raise
        elif ty.is_std('std::unique_ptr'): self.wr_leaf(l, (), z3.IntVal(0))

    def construct(self, lv, e):
        ty = lv.ty
        fn = e['fn']
        w = self.w
        nat = w.natives.get(('ctor', ty.q))
        if e.get('copymove') and len(e['args']) == 1 and not w.contract_for(fn['key']):
            f = self.prog.funcs.get(fn['key'])
            if f is None or f.get('defaulted') or nat:
                a = e['args'][0]
                if a.get('lv'):
                    l = self.lv(a)
                    v = self.rd(l) if isinstance(l, LV) else l
                    self.wr(lv, Val(ty, v.lv))
                    if e.get('move'): self.moved(l)
                else: self.wr(lv, self.coerce(self.ev(a), ty))
                return
        con = w.contract_for(fn['key'])
        if con is not None and not con.inline_only and not self.vf.toplevel_inline(con, fn['key']):
            f = self.prog.funcs.get(fn['key'])
            a = self.bind_args(e, fn['pt'], e['args'])
            self.wr(lv, self.undef_val(ty))
            self.apply_contract(con, f, lv, a, e); return
        if nat:
            nat(self, e, lv, e['args']); return
        f = self.prog.funcs.get(fn['key'])
        if f is not None:
            self.construct_with(lv, f, self.bind_args(e, [p['t'] for p in f['params']], e['args']), e['_i']); return
        if w.is_iter(ty):
            if len(e['args']) == 1:
                v = self.ev(e['args'][0]) if not e['args'][0].get('lv') else self.rd(self.lv(e['args'][0]))
                self.wr(lv, Val(ty, v.lv)); return
            if not e['args']: return
        if ty.rec and not e['args']:
            # implicit default constructor
            for n, t, p in w.fields(ty):
                fi = [x for x in ty.rec['fields'] if x['name'] == n]
                if fi and fi[0].get('init') is not None: self.init_lv(lv.f(p, t), fi[0]['init'])
                elif t.k == 'rec' and t.rec and t.rec.get('mine'): self.construct_default(lv.f(p, t))
                else: self.default_init(lv.f(p, t))
            return
        raise Unsupported('constructor of %s' % ty.s)

    def construct_default(self, lv):
        ty = lv.ty
        if ty.s in self.w.abstract or ty.q in self.w.abstract or self.is_container(ty) or ty.k != 'rec' or not ty.rec:
            self.wr(lv, self.default_val(ty)); return
        for f in self.prog.ctors.get(ty.s, []):
            if len(f['params']) == 0:
                self.construct_with(lv, f, [], 'dc%d' % f['_i']); return
        for n, t, p in self.w.fields(ty):
            fi = [x for x in ty.rec['fields'] if x['name'] == n]
            if fi and fi[0].get('init') is not None: self.init_lv(lv.f(p, t), fi[0]['init'])
            elif t.k == 'rec' and t.rec and t.rec.get('mine'): self.construct_default(lv.f(p, t))
            else: self.default_init(lv.f(p, t))

    def construct_with(self, lv, f, args, nid):
        # members without an initialiser list entry
        ty = lv.ty
        listed = {i.get('f') for i in f.get('inits', [])}
        if not any(i.get('deleg') for i in f.get('inits', [])):
            for n, t, p in self.w.fields(ty):
                if n in listed: continue
                if not any(x['name'] == n for x in ty.rec['fields']): continue
                if t.k == 'ref': continue
                if t.k == 'rec' and t.rec and t.rec.get('mine'): self.construct_default(lv.f(p, t))
                else: self.default_init(lv.f(p, t))
        self.w.inlined.add(f['q'])
        self.run_body(f, lv, args, nid)

    def find_ctor(self, ty, argtys):
        for f in self.prog.ctors.get(ty.s, []):
            if len(f['params']) != len(argtys): continue
            ok = True
            for p, a in zip(f['params'], argtys):
                pt = self.prog.types[p['t']].nonref(); at = a.nonref()
                if pt.s == at.s: continue
                if pt.k in ('int', 'enum') and at.k in ('int', 'enum'): continue
                if pt.k == 'ptr' and at.k in ('ptr', 'nullptr'): continue
                ok = False
            if ok: return f
        return None

    def construct_from(self, ty, args, argtys, nid):
        """value of type ty built from already evaluated args (Val or LV) -- emplace & co."""
        if len(args) == 0:
            lv = self.new_root('%s:em%s' % (self.ctxname(), nid), ty)
            self.construct_default(lv)
            return self.rd_val(self.st, lv)
        if len(args) == 1:
            at = argtys[0].nonref()
            if at.s == ty.s or (ty.k != 'rec' and at.k != 'rec'):
                v = self.rd(args[0]) if isinstance(args[0], LV) else args[0]
                if ty.k in ('int',) and at.k in ('int', 'bool'):
                    return Val(ty, {(): self.int_cast(v.z, at, ty)})
                return Val(ty, v.lv)
        if ('emplace first', ty.q) in self.w.natives: return self.w.natives[('emplace first', ty.q)](self, ty, args, argtys)
        f = self.find_ctor(ty, argtys) if ty.k == 'rec' else None
        if f is None and len(args) == 1 and ty.is_std('std::pair') and at.is_std('std::pair') and self.w.shape(ty) == self.w.shape(at):
            v = self.rd(args[0]) if isinstance(args[0], LV) else args[0]     # pair of convertible pairs (same representation)
            return Val(ty, v.lv)
        if f is None:
            h = self.w.natives.get(('emplace', ty.q))
            if h: return h(self, ty, args, argtys)
            raise Unsupported('emplace of %s from %s' % (ty.s, [a.s for a in argtys]))
        lv = self.new_root('%s:em%s' % (self.ctxname(), nid), ty)
        a = []
        for p, x in zip(f['params'], args):
            pt = self.prog.types[p['t']]
            if pt.k == 'ref':
                if isinstance(x, LV): a.append(x)
                else:
                    t = self.new_root('%s:ea%s_%d' % (self.ctxname(), nid, p['id']), pt.elem); self.wr(t, self.coerce(x, pt.elem)); a.append(t)
            else: a.append(self.coerce(self.rd(x) if isinstance(x, LV) else x, pt))
        con = self.w.contract_for(f['key'])
        if con is not None and not con.inline_only and not self.vf.toplevel_inline(con, f['key']):
            self.wr(lv, self.undef_val(ty)); self.apply_contract(con, f, lv, a, {'l': self.curline, 'e': 'ctor', 't': ty.idx})
        else:
            self.construct_with(lv, f, a, nid)
        return self.rd_val(self.st, lv)

    # ---- contracts -----------------------------------------------------
    def apply_contract(self, con, f, this, args, e):
        w = self.w
        self.vf.used_contracts.add(con.name)
        if this is not None and 'cls' in f: this = this.retag(self.prog.types[f['cls']])
        pre = self.st.copy()
        c = Ctx(self, f, this, args, pre)
        sq = self.quant
        for nm, g in con.requires(c):
            self.oblige('precondition of %s: %s' % (con.name, nm), g, 'pre')
        if hasattr(con, 'transition'):
            # deterministic state transition, verified against the body like any other postcondition
            return con.transition(c)
        if hasattr(con, 'functional'):
            # deterministic functional contract: result expression, no state change
            r = con.functional(c)
            if r is not None:
                return r
        for lv in con.modifies(c): self.havoc_lv(lv)
        rt = self.prog.types[f['ret']]
        c.postst = self.st
        if f['kind'] != 'ctor' and rt.k != 'void':
            if hasattr(con, 'result_lv'): c.res = con.result_lv(c)
            elif rt.k == 'ref': raise Unsupported('contract returning reference without result_lv: ' + con.name)
            else: c.res = self.havoc_val(rt, 'ret')
        c.postst = self.st.copy()
        for nm, g in con.ensures(c): self.fact(g)
        return c.res

    def havoc_lv(self, lv):
        if isinstance(lv, tuple):   # (root, path) whole leaf
            root, path, sort = lv
            self.touch(root, path); self.vf.leafsort.setdefault((root, path), sort)
            m = dict(self.st.mem.get(root, {})); m[path] = self.fresh(sort, 'hv'); self.st.mem[root] = m
            return
        sh = self.w.shape(lv.ty)
        for p, s in sh.items():
            if s == PY: continue
            x = self.fresh(s, 'hv')
            self.wr_leaf(lv, p, x)
            self.typefacts(lv.ty, p, x)

    # ---- iterators -----------------------------------------------------
    def it_deref(self, it):
        if it.get is not None: return it.get(self, it)
        ty = it.lv.ty
        i = it.idx
        if it.rev: i = self.rdl(it.lv, 'len') - 1 - i
        self.oblige('iterator dereference in range', z3.And(i >= 0, i < self.rdl(it.lv, 'len')), 'bounds')
        return self.elem(it.lv, i)

    def elem(self, lv, i):
        ty = lv.ty
        if ty.k == 'rec' and ty.s in self.w.boxed:
            a = self.sel(self.rd_raw(self.st, lv, ('[]',)), i)  # address
            return self.heap_lv(ty.targs[0], a)
        et = ty.targs[0] if ty.k == 'rec' else ty.elem
        return lv.at(i, et)

    def it_eq(self, a, b):
        return a.idx == b.idx


def v_ptr(v):
    if isinstance(v, LV):
        if v.root.startswith('heap:') and v.path == ('[]',): return v.idx[0]
        return PtrLV(v)
    return v


def _has_loop(s):
    if isinstance(s, dict):
        if s.get('s') in ('for', 'while', 'do', 'rfor'): return True
        return any(_has_loop(x) for x in s.values() if isinstance(x, (dict, list)))
    if isinstance(s, list): return any(_has_loop(x) for x in s)
    return False


def _has_assign(s):
    if isinstance(s, dict):
        if s.get('e') in ('casg', 'throw') or (s.get('e') == 'bin' and s.get('op') == '=') or (s.get('e') == 'un' and s.get('op') in ('++', '--')) or s.get('s') == 'goto': return True
        return any(_has_assign(x) for x in s.values() if isinstance(x, (dict, list)))
    if isinstance(s, list): return any(_has_assign(x) for x in s)
    return False
