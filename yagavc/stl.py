"""Models of the C++ standard library used by /repo (trusted base)."""
import z3, os
from vcg import *
import vcg


class MapEntryLV(LV):
    __slots__ = ('key', 'value')

    def __init__(self, key, value, ty):
        LV.__init__(self, value.root, value.path, value.idx, ty)
        self.key = key; self.value = value

    def retag(self, ty): return MapEntryLV(self.key, self.value, ty)


def lvof(ex, a):
    """lvalue of an argument node (materialised when it is a prvalue)"""
    l = ex.lv(a) if a.get('lv') else ex.mat(a)
    if isinstance(l, Val):
        t = ex.new_root('%s:lo%d' % (ex.ctxname(), a['_i']), ex.ety(a)); ex.wr(t, l); return t
    return l


def itof(ex, a):
    z = (ex.rd(ex.lv(a)) if a.get('lv') else ex.ev(a)).lv.get(())
    return z


def mk(ex, e, x):
    return Val(ex.ety(e), {(): x})


def V(ty, x):
    return Val(ty, {(): x})


def length(ex, lv):
    return ex.rdl(lv, 'len')


def simp(x):
    return z3.simplify(x)


# ---- sequences -----------------------------------------------------------
def seq_size(ex, e, this, args):
    return mk(ex, e, length(ex, this))


def seq_empty(ex, e, this, args):
    return mk(ex, e, length(ex, this) == 0)


def elemty(this):
    return this.ty.targs[0] if this.ty.k == 'rec' else this.ty.elem


def bitref(ex, e, this, lv):
    if elemty(this).k == 'bool' and ex.ety(e).k == 'rec':
        return Val(ex.ety(e), {(): PtrLV(lv)})
    return lv


def seq_index(ex, e, this, args):
    i = ex.ev(args[0]).z
    ex.oblige('index in range', z3.And(i >= 0, i < length(ex, this)), 'bounds')
    return bitref(ex, e, this, ex.elem(this, i))


def seq_at(ex, e, this, args):
    i = ex.ev(args[0]).z
    if not ex.decide(z3.And(i >= 0, i < length(ex, this))): raise Thrown('out_of_range')
    return bitref(ex, e, this, ex.elem(this, i))


def seq_front(ex, e, this, args):
    ex.oblige('front of non-empty', length(ex, this) > 0, 'bounds')
    return bitref(ex, e, this, ex.elem(this, z3.IntVal(0)))


def seq_back(ex, e, this, args):
    n = length(ex, this)
    ex.oblige('back of non-empty', n > 0, 'bounds')
    return bitref(ex, e, this, ex.elem(this, simp(n - 1)))


def bitref_get(ex, e, this, args):
    p = ex.rd_raw(ex.st, this, ())
    return mk(ex, e, ex.rd(p.lv).z)


def bitref_set(ex, e, this, args):
    p = ex.rd_raw(ex.st, this, ())
    v = ex.rd(ex.lv(args[0])) if args[0].get('lv') else ex.ev(args[0])
    z = v.z
    if isinstance(z, PtrLV): z = ex.rd(z.lv).z
    ex.wr(p.lv, V(p.lv.ty, z))
    return this


def append(ex, this, v):
    n = length(ex, this)
    et = elemty(this)
    if this.ty.s in ex.w.boxed:
        a = fresh_addr(ex, et)
        ex.wr(ex.heap_lv(et, a), v)
        ex.wr_leaf(this.at(n, None), (), a) if False else boxed_store(ex, this, n, a)
    else:
        ex.wr(this.at(n, et), Val(et, v.lv))
    ex.wr_leaf(this, ('len',), simp(n + 1))
    ex.fact(n + 1 < MAXLEN)


def boxed_store(ex, this, n, a):
    ex.wr_leaf(LV(this.root, this.path + ('[]',), this.idx + (n,), None), (), a)


def fresh_addr(ex, ty):
    a = ex.fresh(I, 'addr')
    ex.fact(a > 0)
    root = 'heap:' + ex.w.topbase(ty).s
    h = getattr(ex.w, 'on_alloc', None)
    if h: h(ex, root, a)
    for b in ex.ghost.get(('alloc', root), ()): ex.fact(a != b)
    ex.ghost[('alloc', root)] = ex.ghost.get(('alloc', root), ()) + (a,)
    return a


def seq_push(ex, e, this, args):
    v = ex.rd(ex.lv(args[0])) if args[0].get('lv') == 1 else None
    if v is None:
        v = ex.rd(ex.lv(args[0])) if args[0].get('lv') else ex.ev(args[0])
        v = Val(v.ty, dict(v.lv))
        if args[0].get('lv'): ex.moved(ex.lv(args[0]))
    append(ex, this, v)


def args_any(ex, args):
    out = []
    for a in args:
        if a.get('lv'):
            l = ex.lv(a)
            out.append(l)
        else: out.append(ex.ev(a))
    return out, [ex.ety(a) for a in args]


def seq_emplace_back(ex, e, this, args):
    vs, tys = args_any(ex, args)
    v = ex.construct_from(elemty(this), vs, tys, e['_i'])
    append(ex, this, v)
    if ex.ety(e).k != 'void': return ex.elem(this, simp(length(ex, this) - 1))


def seq_pop_back(ex, e, this, args):
    n = length(ex, this)
    ex.oblige('pop_back of non-empty', n > 0, 'bounds')
    ex.wr_leaf(this, ('len',), simp(n - 1))


def seq_begin(ex, e, this, args):
    return mk(ex, e, Iter(this, z3.IntVal(0)))


def seq_end(ex, e, this, args):
    return mk(ex, e, Iter(this, length(ex, this)))


def seq_rbegin(ex, e, this, args):
    return mk(ex, e, Iter(this, z3.IntVal(0), True))


def seq_rend(ex, e, this, args):
    return mk(ex, e, Iter(this, length(ex, this), True))


def seq_clear(ex, e, this, args):
    ex.wr_leaf(this, ('len',), z3.IntVal(0))


def seq_reserve(ex, e, this, args):
    for a in args: ex.ev(a)


def seq_resize(ex, e, this, args):
    n = ex.ev(args[0]).z
    old = length(ex, this)
    et = elemty(this)
    if this.ty.s in ex.w.boxed: raise Unsupported('resize of boxed container')
    v = (ex.rd(ex.lv(args[1])) if args[1].get('lv') else ex.ev(args[1])) if len(args) > 1 else None
    if v is None:
        t = ex.new_root('%s:rz%d' % (ex.ctxname(), e['_i']), et); ex.construct_default(t); v = ex.rd_val(ex.st, t)
        if et.k in ('int', 'bool', 'float', 'ptr', 'enum'): v = ex.default_val(et)
    fill(ex, this, old, n, v)
    ex.fact(z3.And(n >= 0, n < MAXLEN))
    ex.wr_leaf(this, ('len',), n)


def fill(ex, this, lo, hi, v):
    """elements [lo,hi) become v (the others are unchanged)"""
    et = elemty(this)
    j = z3.Int('j!f')
    for p, x in v.lv.items():
        if not is_z3(x): x = ex.encode_ptr(x)
        cur = arr_at(ex, this, ('[]',) + p)
        new = ex.fresh(cur.sort(), 'fill')
        ex.fact(z3.ForAll([j], z3.Select(new, j) == z3.If(z3.And(j >= lo, j < hi), x, z3.Select(cur, j)), patterns=[z3.Select(new, j)]))
        arr_set(ex, this, ('[]',) + p, new)


def arr_at(ex, this, p):
    """whole array leaf p of the container at this"""
    return ex.rd_raw(ex.st, this, p)


def arr_set(ex, this, p, x):
    ex.wr_leaf(this, p, x)


def seq_assign(ex, e, this, args):
    if ex.w.is_iter(ex.ety(args[0])):
        b, en = itof(ex, args[0]), itof(ex, args[1])
        copy_range(ex, this, z3.IntVal(0), b, en)
        ex.wr_leaf(this, ('len',), simp(en.idx - b.idx)); return
    n = ex.ev(args[0]).z
    v = ex.rd(ex.lv(args[1])) if args[1].get('lv') else ex.ev(args[1])
    et = elemty(this)
    for p, x in v.lv.items():
        cur = arr_at(ex, this, ('[]',) + p)
        arr_set(ex, this, ('[]',) + p, z3.K(I, x))
    ex.wr_leaf(this, ('len',), n)


def copy_range(ex, this, at, b, en):
    """this[at..] = [b,en)"""
    if b.kind not in ('seq', 'hash'): raise Unsupported('copy from a mapped range')
    et = elemty(this)
    k = simp(en.idx - b.idx)
    j = z3.Int('j!c')
    if b.get is not None or b.rev:
        i = z3.Int('qi!%d' % ex.counter); ex.counter += 1
        el = it_elem(b); got = {}
        ex.quant += 1
        try:
            def th():
                r = el(ex, i)
                for p in ex.w.shape(et):
                    x = r.lv[p] if isinstance(r, Val) else ex.rdl(r, *p)
                    if p in got and not got[p].eq(x): raise Unsupported('view with several cases')
                    got[p] = x
                return z3.BoolVal(True)
            ex.guarded(z3.And(i >= b.idx, i < en.idx), th)
        finally: ex.quant -= 1
        for p in ex.w.shape(et):
            cur = arr_at(ex, this, ('[]',) + p); new = ex.fresh(cur.sort(), 'cp')
            ex.fact(z3.ForAll([j], z3.Select(new, j) == z3.If(z3.And(j >= at, j < at + k), z3.substitute(got[p], (i, j - at + b.idx)), z3.Select(cur, j)), patterns=[z3.Select(new, j)]))
            arr_set(ex, this, ('[]',) + p, new)
        return
    for p in ex.w.shape(et):
        src = arr_at(ex, b.lv, ('[]',) + p)
        cur = arr_at(ex, this, ('[]',) + p)
        new = ex.fresh(cur.sort(), 'cp')
        ex.fact(z3.ForAll([j], z3.Select(new, j) == z3.If(z3.And(j >= at, j < at + k), z3.Select(src, j - at + b.idx), z3.Select(cur, j)), patterns=[z3.Select(new, j)]))
        arr_set(ex, this, ('[]',) + p, new)


def leaves_of(ex, this):
    if this.ty.s in ex.w.boxed: return [('[]',)]
    return [('[]',) + p for p in ex.w.shape(elemty(this))]


def seq_erase(ex, e, this, args):
    b = itof(ex, args[0])
    n = length(ex, this)
    lo = b.idx
    hi = itof(ex, args[1]).idx if len(args) > 1 else simp(lo + 1)
    ex.oblige('erase range valid', z3.And(lo >= 0, lo <= hi, hi <= n), 'bounds')
    k = simp(hi - lo)
    if ex.proved(hi == n):
        ex.wr_leaf(this, ('len',), simp(n - k))
    else:
        j = z3.Int('j!e')
        for p in leaves_of(ex, this):
            cur = arr_at(ex, this, p)
            new = ex.fresh(cur.sort(), 'er')
            ex.fact(z3.ForAll([j], z3.Select(new, j) == z3.If(j >= lo, z3.Select(cur, j + k), z3.Select(cur, j)), patterns=[z3.Select(new, j)]))
            arr_set(ex, this, p, new)
            ex.ghost.setdefault('er', ())
        ex.wr_leaf(this, ('len',), simp(n - k))
    return mk(ex, e, Iter(this, lo))


def seq_insert(ex, e, this, args):
    pos = itof(ex, args[0])
    n = length(ex, this)
    if len(args) == 3 and (ex.w.is_iter(ex.ety(args[1])) or ex.ety(args[1]).k == 'ptr' or isinstance(itof(ex, args[1]), Iter)):
        b, en = itof(ex, args[1]), itof(ex, args[2])
        if not ex.proved(pos.idx == n): raise Unsupported('insert in the middle')
        k = simp(en.idx - b.idx)
        copy_range(ex, this, n, b, en)
        ex.wr_leaf(this, ('len',), simp(n + k))
        return mk(ex, e, Iter(this, n))
    if len(args) == 2 and ex.ety(args[1]).nonref().s == elemty(this).s:
        a = args[1]
        if a.get('lv') == 1: v = ex.rd(ex.lv(a))
        else:
            v = ex.rd(ex.lv(a)) if a.get('lv') else ex.ev(a)
            v = Val(v.ty, dict(v.lv))
        at = pos.idx
        ex.oblige('insert position valid', z3.And(at >= 0, at <= n), 'bounds')
        if ex.proved(at == n): append(ex, this, v)
        else:
            j = z3.Int('j!i')
            if this.ty.s in ex.w.boxed: raise Unsupported('insert in the middle')
            for p in leaves_of(ex, this):
                cur = arr_at(ex, this, p)
                new = ex.fresh(cur.sort(), 'in')
                ex.fact(z3.ForAll([j], z3.Select(new, j) == z3.If(j < at, z3.Select(cur, j), z3.If(j == at, v.lv[p[1:]], z3.Select(cur, j - 1))), patterns=[z3.Select(new, j)]))
                arr_set(ex, this, p, new)
            ex.wr_leaf(this, ('len',), simp(n + 1))
        return mk(ex, e, Iter(this, at))
    raise Unsupported('insert')


def seq_swap(ex, e, this, args):
    o = ex.lv(args[0])
    a, b = ex.rd(this), ex.rd(o)
    ex.wr(this, b); ex.wr(o, a)


def seq_assign_op(ex, e, this, args):
    a = args[0]
    if a.get('lv'):
        l = ex.lv(a); v = ex.rd(l)
        ex.wr(this, Val(this.ty, v.lv))
        if a.get('lv') == 2: ex.moved(l)
    else: ex.wr(this, Val(this.ty, ex.ev(a).lv))
    return this


def seq_ctor(ex, e, lv, args):
    n = len(args)
    if n and ex.ety(args[-1]).q == 'std::allocator': n -= 1
    args = args[:n]
    if lv.ty.is_std('std::array'):
        ex.wr(lv, ex.undef_val(lv.ty)); ex.wr_leaf(lv, ('len',), z3.IntVal(lv.ty.targs[1])); return
    if not args:
        ex.default_init(lv); return
    t0 = ex.ety(args[0])
    if t0.is_std('std::initializer_list'):
        v = ex.ev(args[0]); ex.wr(lv, Val(lv.ty, v.lv)); return
    if t0.k in ('int', 'enum'):
        k = ex.ev(args[0]).z
        et = elemty(lv)
        if len(args) > 1:
            v = ex.rd(ex.lv(args[1])) if args[1].get('lv') else ex.ev(args[1])
        elif et.k in ('int', 'bool', 'float', 'ptr', 'enum'): v = ex.default_val(et)
        else:
            t = ex.new_root('%s:vc%d' % (ex.ctxname(), e['_i']), et); ex.construct_default(t); v = ex.rd_val(ex.st, t)
        ex.default_init(lv)
        for p, x in v.lv.items(): ex.wr_leaf(lv, ('[]',) + p, z3.K(I, x))
        ex.wr_leaf(lv, ('len',), k)
        ex.fact(z3.And(k >= 0, k < MAXLEN)); return
    it = itof(ex, args[0])
    if isinstance(it, Iter):
        en = itof(ex, args[1])
        ex.default_init(lv)
        if it.kind in ('seq', 'hash') and (it.get is not None or not it.rev):
            for p in leaves_of(ex, lv): ex.wr_leaf(lv, p, ex.fresh(arr_at(ex, lv, p).sort(), 'vc'))
            copy_range(ex, lv, z3.IntVal(0), it, en)
        else:
            j = z3.Int('j!g')
            for p in leaves_of(ex, lv): ex.wr_leaf(lv, p, ex.fresh(arr_at(ex, lv, p).sort(), 'vc'))
            if it.get is None and it.rev:
                srcn = length(ex, it.lv)
                for p in leaves_of(ex, lv):
                    new = arr_at(ex, lv, p)
                    ex.fact(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < en.idx - it.idx), z3.Select(new, j) == z3.Select(arr_at(ex, it.lv, p), srcn - 1 - it.idx - j)), patterns=[z3.Select(new, j)]))
            else: raise Unsupported('vector from mapped range')
        ex.wr_leaf(lv, ('len',), simp(en.idx - it.idx))
        return
    raise Unsupported('sequence constructor ' + str([ex.ety(a).s for a in args]))


# ---- iterators -------------------------------------------------------------
def it_get(ex, this):
    return ex.rd_raw(ex.st, this, ())


def it_star(ex, e, this, args):
    r = ex.deref_ptr(it_get(ex, this), None) if isinstance(it_get(ex, this), PtrLV) else ex.it_deref(it_get(ex, this))
    if isinstance(r, LV) and r.ty is not None and r.ty.k == 'bool' and ex.ety(e).k == 'rec': return Val(ex.ety(e), {(): PtrLV(r)})
    return r


def it_arrow(ex, e, this, args):
    r = ex.it_deref(it_get(ex, this))
    return mk(ex, e, PtrLV(r))


def it_inc(d):
    def h(ex, e, this, args):
        it = it_get(ex, this)
        n = it.move(simp(it.idx + d))
        ex.wr_leaf(this, (), n)
        if args: return mk(ex, e, it)
        return this
    return h


def it_addsub(d):
    def h(ex, e, this, args):
        if this is None:
            a = itof(ex, args[0]); b = itof(ex, args[1])
            if isinstance(b, Iter) and isinstance(a, Iter):
                return mk(ex, e, simp(a.idx - b.idx) if a.rev == b.rev else a.idx - b.idx)
            return mk(ex, e, a.move(simp(a.idx + d * b)))
        it = it_get(ex, this)
        b = itof(ex, args[0])
        if isinstance(b, Iter): return mk(ex, e, simp(it.idx - b.idx))
        return mk(ex, e, it.move(simp(it.idx + d * b)))
    return h


def it_addassign(d):
    def h(ex, e, this, args):
        it = it_get(ex, this); b = ex.ev(args[0]).z
        ex.wr_leaf(this, (), it.move(simp(it.idx + d * b))); return this
    return h


def it_index(ex, e, this, args):
    it = it_get(ex, this); b = ex.ev(args[0]).z
    return ex.it_deref(it.move(simp(it.idx + b)))


def it_assign(ex, e, this, args):
    ex.wr_leaf(this, (), itof(ex, args[0])); return this


def it_base(ex, e, this, args):
    it = it_get(ex, this)
    if it.rev: return mk(ex, e, Iter(it.lv, simp(length(ex, it.lv) - it.idx), False))
    return mk(ex, e, it)


def it_cmp(neg):
    def h(ex, e, this, args):
        if this is not None: a, b = it_get(ex, this), itof(ex, args[0])
        else: a, b = itof(ex, args[0]), itof(ex, args[1])
        r = ex.it_eq(a, b)
        return mk(ex, e, z3.Not(r) if neg else r)
    return h


def it_rel(op):
    def h(ex, e, this, args):
        if this is not None: a, b = it_get(ex, this), itof(ex, args[0])
        else: a, b = itof(ex, args[0]), itof(ex, args[1])
        x, y = a.idx, b.idx
        return mk(ex, e, {'<': x < y, '>': x > y, '<=': x <= y, '>=': x >= y}[op])
    return h


def vals(ex, args):
    return [(ex.rd(ex.lv(a)) if a.get('lv') else ex.ev(a)) for a in args]


def generic_eq(neg):
    """operator==(a,b) on std types: iterators, pairs, optionals, strings, pointers"""
    def h(ex, e, this, args):
        if this is not None: vs = [ex.rd(this)] + vals(ex, args)
        else: vs = vals(ex, args)
        a, b = vs
        r = val_eq(ex, a, b)
        return mk(ex, e, z3.Not(r) if neg else r)
    return h


def ordering_cmp(op):
    """comparison of a three-way result (a number) with literal 0"""
    def h(ex, e, this, args):
        if 'std::strong_ordering' not in ex.ety(args[0]).s: raise Unsupported('operator%s of %s' % (op, ex.ety(args[0]).s))
        z = vals(ex, args[:1])[0].lv.get(())
        if z is None: raise Unsupported('value of a three-way comparison')
        return mk(ex, e, {'<': z < 0, '>': z > 0, '<=': z <= 0, '>=': z >= 0}[op])
    return h


def val_eq(ex, a, b):
    za, zb = a.lv.get(()), b.lv.get(())
    if za is not None and zb is not None:
        if not (is_z3(za) and is_z3(zb)): return ex.cmp_ptr(za, zb)
        return za == zb
    ty = a.ty
    if ty is not None and ty.k == 'rec':
        if ty.is_std('std::optional'):
            if b.ty is not None and not b.ty.is_std('std::optional'):
                if b.ty.q == 'std::nullopt_t': return z3.Not(a.lv[('has',)])
                return z3.And(a.lv[('has',)], val_eq(ex, a.sub('val', ty.targs[0]), b))
            ha, hb = a.lv[('has',)], b.lv[('has',)]
            return z3.And(ha == hb, z3.Implies(ha, val_eq(ex, a.sub('val', ty.targs[0]), b.sub('val', ty.targs[0]))))
        if ty.is_std('std::pair'):
            return z3.And(*[val_eq(ex, a.sub(n, t), b.sub(n, t)) for n, t in zip(('first', 'second'), ty.targs)])
        if ty.is_std('std::vector', 'std::deque'):
            j = z3.Int('j!q')
            ps = [p for p in a.lv if p[:1] == ('[]',)]
            return z3.And(a.lv[('len',)] == b.lv[('len',)], z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < a.lv[('len',)]), And(*[z3.Select(a.lv[p], j) == z3.Select(b.lv[p], j) for p in ps]))))
        h = ex.w.natives.get(('eq', ty.q))
        if h: return h(ex, a, b)
        # operator== of a /repo class
        if set(a.lv) == set(b.lv): return And(*[a.lv[p] == b.lv[p] for p in a.lv])
    raise Unsupported('equality of %s' % (ty.s if ty else None))


# ---- optional ---------------------------------------------------------------
def opt_has(ex, e, this, args):
    return mk(ex, e, ex.rdl(this, 'has'))


def opt_val(this):
    return this.f('val', this.ty.targs[0])


def opt_star(ex, e, this, args):
    ex.oblige('optional has a value', ex.rdl(this, 'has'), 'bounds')
    v = opt_val(this)
    if ex.ety(e).k == 'ptr': return mk(ex, e, PtrLV(v))
    return v


def opt_value(ex, e, this, args):
    if ex.quant and ex.w.opt_checked: ex.oblige('optional holds a value', ex.rdl(this, 'has'), 'pre'); return opt_val(this)
    if not ex.decide(ex.rdl(this, 'has')): raise Thrown('bad_optional_access')
    return opt_val(this)


def opt_value_or(ex, e, this, args):
    d = ex.rd(ex.lv(args[0])) if args[0].get('lv') else ex.ev(args[0])
    v = ex.rd(opt_val(this))
    h = ex.rdl(this, 'has')
    if d.lv.get(()) is not None and is_z3(d.lv[()]) and d.lv[()].sort() != v.lv[()].sort():
        d = V(v.ty, ex.unify(v.z, d.z)[1])
    return ex.merge(h, v, Val(v.ty, d.lv))


def opt_reset(ex, e, this, args):
    ex.wr_leaf(this, ('has',), z3.BoolVal(False))


def opt_set(ex, lv, v, ty):
    if ty.nonref().is_std('std::optional'):
        ex.wr(lv, Val(lv.ty, v.lv)); return
    if ty.nonref().q == 'std::nullopt_t':
        ex.wr_leaf(lv, ('has',), z3.BoolVal(False)); return
    ex.wr_leaf(lv, ('has',), z3.BoolVal(True))
    vt = lv.ty.targs[0]
    nv = ex.construct_from(vt, [v], [ty], 'opt') if isinstance(v, LV) or v.ty is not None and v.ty.s != vt.s else v
    ex.wr(lv.f('val', vt), Val(vt, nv.lv))


def opt_ctor(ex, e, lv, args):
    if not args:
        ex.wr(lv, ex.default_val(lv.ty)); return
    a = args[0]
    t = ex.ety(a)
    if t.q == 'std::nullopt_t' or t.q == 'std::in_place_t':
        ex.wr(lv, ex.default_val(lv.ty)); return
    ex.wr(lv, ex.undef_val(lv.ty, 'ov'))
    v = ex.rd(ex.lv(a)) if a.get('lv') else ex.ev(a)
    opt_set(ex, lv, v, t)


def opt_assign(ex, e, this, args):
    a = args[0]; t = ex.ety(a)
    if t.q == 'std::nullopt_t' or (t.k == 'rec' and 'nullopt' in t.s): opt_reset(ex, e, this, args); return this
    v = ex.rd(ex.lv(a)) if a.get('lv') else ex.ev(a)
    if a['e'] == 'ilist' and not a.get('args'): opt_reset(ex, e, this, args); return this
    opt_set(ex, this, v, t); return this


# ---- pair, tuple --------------------------------------------------------------
def pair_ctor(ex, e, lv, args):
    if not args:
        ex.wr(lv, ex.default_val(lv.ty)); return
    if len(args) == 1:
        v = ex.rd(ex.lv(args[0])) if args[0].get('lv') else ex.ev(args[0])
        ex.wr(lv, Val(lv.ty, v.lv)); return
    for n, t, a in zip(('first', 'second'), lv.ty.targs, args):
        vs, tys = args_any(ex, [a])
        v = ex.construct_from(t, vs, tys, '%s%s' % (e['_i'], n)) if True else None
        ex.wr(lv.f(n, t), Val(t, v.lv))


def pair_emplace(ex, ty, args, tys):
    out = {}
    for n, t, a, at in zip(('first', 'second'), ty.targs, args, tys):
        v = ex.construct_from(t, [a], [at], 'pe' + n)
        for p, x in v.lv.items(): out[(n,) + p] = x
    return Val(ty, out)


def tuple_ctor(ex, e, lv, args):
    if not args:
        ex.wr(lv, ex.default_val(lv.ty)); return
    for n, (t, a) in enumerate(zip(lv.ty.targs, args)):
        vs, tys = args_any(ex, [a])
        v = ex.construct_from(t, vs, tys, '%s_%d' % (e['_i'], n))
        ex.wr(lv.f(str(n), t), Val(t, v.lv))


def tuple_emplace(ex, ty, args, tys):
    out = {}
    for n, (t, a, at) in enumerate(zip(ty.targs, args, tys)):
        v = ex.construct_from(t, [a], [at], 'te%d' % n)
        for p, x in v.lv.items(): out[(str(n),) + p] = x
    return Val(ty, out)


def std_get(ex, e, this, args):
    a = args[0]
    t = ex.ety(a)
    l = lvof(ex, a)
    ta = e['fn'].get('targs', [])
    i = None
    for x in ta:
        if 'i' in x: i = int(x['i']); break
    if i is None:
        if t.is_std('std::variant'):
            for x in ta:
                if 't' in x:
                    want = ex.prog.types[x['t']].s
                    for k, tt in enumerate(t.targs):
                        if tt.s == want: i = k
                    break
        if i is None: raise Unsupported('std::get')
    if t.is_std('std::variant'):
        if not ex.decide(ex.rdl(l, 'index') == i): raise Thrown('bad_variant_access')
        return l.f('alt%d' % i, t.targs[i])
    if t.is_std('std::pair'):
        if isinstance(l, MapEntryLV): return l.value if i else keylv(ex, l)
        return l.f(('first', 'second')[i], t.targs[i])
    if t.is_std('std::tuple'): return l.f(str(i), t.targs[i])
    if t.is_std('std::array'): return l.at(z3.IntVal(i), t.targs[0])
    raise Unsupported('std::get of ' + t.s)


def ranges_get(ex, e, this, args):
    i = e['fn']['targs'][0].get('i')
    r = range_of(ex, args[0])
    return mk(ex, e, (r.b, r.e)[int(i)])


def keylv(ex, l):
    t = ex.new_root('%s:key%d' % (ex.ctxname(), l.key.z.get_id() if is_z3(l.key.lv.get(())) else 0), l.key.ty)
    ex.wr(t, l.key); return t


# ---- utility --------------------------------------------------------------------
def std_move(ex, e, this, args):
    return lvof(ex, args[0])


def std_swap(ex, e, this, args):
    a, b = ex.lv(args[0]), ex.lv(args[1])
    va, vb = ex.rd(a), ex.rd(b)
    if isinstance(va.lv.get(()), PtrLV) and ex.ety(args[0]).q == 'std::_Bit_reference':
        pa, pb = va.z, vb.z
        x, y = ex.rd(pa.lv), ex.rd(pb.lv); ex.wr(pa.lv, y); ex.wr(pb.lv, x); return
    con = find_swap(ex, e, a)
    ex.wr(a, Val(a.ty, vb.lv)); ex.wr(b, Val(b.ty, va.lv))


def find_swap(ex, e, a):
    return None


def std_maxmin(op):
    def h(ex, e, this, args):
        vs = vals(ex, args)
        x, y = vs[0].z, vs[1].z
        if not (is_z3(x) and is_z3(y)): raise Unsupported('max of non-scalars')
        c = (x < y) if op == 'max' else (y < x)
        return V(vs[0].ty, z3.If(c, y, x))
    return h


def std_abs(ex, e, this, args):
    x = ex.ev(args[0]).z
    ty = ex.ety(e)
    if x.sort() == I and ty.k == 'int':
        lo, hi = ex.irange(ty)
        ex.oblige('abs overflow', x >= -hi, 'overflow')
    return V(ty, z3.If(x >= 0, x, -x))


def assert_fail(ex, e, this, args):
    if ex.w.assert_mode == 'assume': raise PathEnd()
    ex.oblige('assert', z3.BoolVal(False), 'assert')
    raise PathEnd()


def call_pred(ex, c, vs):
    return ex.call_closure(c, vs)


def closure_of(ex, a):
    v = ex.rd(ex.lv(a)) if a.get('lv') else ex.ev(a)
    z = v.lv.get(())
    if isinstance(z, Closure): return z
    return v


def pred_term(ex, c, lv, i, guard, rev=False):
    """truth of closure c on element i of the container, as a term (evaluated for an arbitrary i under guard)"""
    ex.quant += 1
    try:
        def th():
            r = ex.call_closure(c, [lv(i) if callable(lv) else ex.elem(lv, i)])
            x = r.z if isinstance(r, Val) else ex.rd(r).z
            return ex.to_bool(x)
        return ex.guarded(guard, th)
    finally: ex.quant -= 1


def it_elem(it):
    """element accessor at forward position idx for iterator it"""
    def f(ex, i):
        n = it.move(i)
        if n.get is not None: return n.get(ex, n)
        j = i
        if n.rev: j = ex.rdl(n.lv, 'len') - 1 - i
        return ex.elem(n.lv, j)
    return f


def range_pred(ex, c, b, lo, hi):
    """(i, P(i)) with i a fresh symbol"""
    i = z3.Int('qi!%d' % ex.counter); ex.counter += 1
    ex.fact(z3.BoolVal(True))
    el = it_elem(b)
    p = pred_term(ex, c, lambda i: el(ex, i), i, z3.And(i >= lo, i < hi))
    return i, p


def find_first(ex, b, e_, i, p, neg=False):
    """index r in [b,e]: first position where p (or not p) holds"""
    lo, hi = b.idx, e_.idx
    r = ex.fresh(I, 'fi')
    ex.fact(z3.And(r >= lo, z3.Or(r <= hi, r == lo)))
    ex.fact(z3.Implies(lo <= hi, r <= hi))
    q = z3.Not(p) if neg else p
    ex.fact(z3.Implies(r < hi, z3.substitute(q, (i, r))))
    j = z3.Int('j!ff')
    ex.fact(z3.ForAll([j], z3.Implies(z3.And(j >= lo, j < r), z3.Not(z3.substitute(q, (i, j))))))
    return r


def std_find_if(neg=False):
    def h(ex, e, this, args):
        b, en = itof(ex, args[0]), itof(ex, args[1])
        i, p = range_pred(ex, closure_of(ex, args[2]), b, b.idx, en.idx)
        r = find_first(ex, b, en, i, p, neg)
        return mk(ex, e, b.move(r))
    return h


def std_find(ex, e, this, args):
    b, en = itof(ex, args[0]), itof(ex, args[1])
    return find_value(ex, e, b, en, args[2])


def ranges_find(ex, e, this, args):
    if len([a for a in args if a['e'] != 'default']) > 2 and len(args) > 3: raise Unsupported('ranges::find of iterators')
    r = range_of(ex, args[0])
    return find_value(ex, e, r.b, r.e, args[1])


def find_value(ex, e, b, en, a):
    v = ex.rd(ex.lv(a)) if a.get('lv') else ex.ev(a)
    if not ex.quant and is_z3(v.lv.get(())): ex.fact(ex.fresh(v.z.sort(), 'sought') == v.z)     # names the value (ground term for the solver)
    if b.lv is not None and b.lv.root == 'empty range': return mk(ex, e, b)
    i = z3.Int('qi!%d' % ex.counter); ex.counter += 1
    ex.quant += 1
    try:
        x = it_elem(b)(ex, i)
        xv = ex.rd(x) if isinstance(x, LV) else x
        p = val_eq(ex, xv, v)
    finally: ex.quant -= 1
    r = find_first(ex, b, en, i, p)
    return mk(ex, e, b.move(r))


def std_anyall(kind):
    def h(ex, e, this, args):
        b, en = itof(ex, args[0]), itof(ex, args[1])
        i, p = range_pred(ex, closure_of(ex, args[2]), b, b.idx, en.idx)
        r = find_first(ex, b, en, i, p, kind == 'all')
        return mk(ex, e, r < en.idx if kind == 'any' else r >= en.idx)
    return h


def std_ranges_anyall(kind):
    def h(ex, e, this, args):
        rng = range_of(ex, args[0])
        b, en = rng.b, rng.e
        i, p = range_pred(ex, closure_of(ex, args[1]), b, b.idx, en.idx)
        r = find_first(ex, b, en, i, p, kind == 'all')
        return mk(ex, e, r < en.idx if kind == 'any' else r >= en.idx)
    return h


def range_of(ex, a):
    v = None
    if a.get('lv'):
        l = ex.lv(a)
        if isinstance(l, LV) and ex.w.is_seq(l.ty): return Range(Iter(l, z3.IntVal(0)), Iter(l, length(ex, l)))
        v = ex.rd(l) if isinstance(l, LV) else l
    else:
        t = ex.ety(a)
        if ex.w.is_seq(t):
            l = ex.mat(a); return Range(Iter(l, z3.IntVal(0)), Iter(l, length(ex, l)))
        v = ex.ev(a)
    z = v.lv.get(())
    if isinstance(z, Range): return z
    raise Unsupported('range of ' + ex.ety(a).s)


# ---- span / subrange -----------------------------------------------------------------
def span_ctor(ex, e, lv, args):
    if len(args) == 2:
        a = itof(ex, args[0]); b = itof(ex, args[1])
        if isinstance(a, PtrLV): raise Unsupported('span of pointer')
        if not isinstance(b, Iter): b = a.move(simp(a.idx + b))
        ex.wr_leaf(lv, (), Range(a, b)); return
    if len(args) == 1:
        ex.wr_leaf(lv, (), range_of(ex, args[0])); return
    if not args:
        z = Iter(LV('empty range', (), (), None), z3.IntVal(0))
        ex.wr_leaf(lv, (), Range(z, z)); return
    raise Unsupported('span ctor')


def rng(ex, this):
    r = ex.rd_raw(ex.st, this, ())
    if not isinstance(r, Range): raise Unsupported('not a range')
    return r


def span_size(ex, e, this, args):
    r = rng(ex, this); return mk(ex, e, simp(r.e.idx - r.b.idx))


def span_empty(ex, e, this, args):
    r = rng(ex, this); return mk(ex, e, r.e.idx == r.b.idx)


def span_begin(ex, e, this, args):
    return mk(ex, e, rng(ex, this).b)


def span_end(ex, e, this, args):
    return mk(ex, e, rng(ex, this).e)


def span_index(ex, e, this, args):
    r = rng(ex, this); i = ex.ev(args[0]).z
    ex.oblige('span index in range', z3.And(i >= 0, i < r.e.idx - r.b.idx), 'bounds')
    n = r.b.move(simp(r.b.idx + i))
    if n.get is None: return ex.elem(n.lv, n.idx)
    return n.get(ex, n)


def span_front(ex, e, this, args):
    r = rng(ex, this)
    ex.oblige('range not empty', r.e.idx > r.b.idx, 'bounds')
    if r.b.get is None: return ex.elem(r.b.lv, r.b.idx)
    return r.b.get(ex, r.b)


def span_first(last):
    def h(ex, e, this, args):
        r = rng(ex, this); n = ex.ev(args[0]).z
        ex.oblige('subspan in range', z3.And(n >= 0, n <= r.e.idx - r.b.idx), 'bounds')
        if last: return mk(ex, e, Range(r.e.move(simp(r.e.idx - n)), r.e))
        return mk(ex, e, Range(r.b, r.b.move(simp(r.b.idx + n))))
    return h


def view_partial(kind):
    def h(ex, e, this, args):
        if len(args) == 2: return mk(ex, e, apply_view(ex, range_of(ex, args[0]), kind, view_arg(ex, kind, args[1])))
        return mk(ex, e, ('view', kind, view_arg(ex, kind, args[0])))
    return h


def view_arg(ex, kind, a):
    if kind == 'transform': return closure_of(ex, a)
    v = ex.rd(ex.lv(a)) if a.get('lv') else ex.ev(a)
    return v.z


def std_pipe(ex, e, this, args):
    x = ex.rd(ex.lv(args[1])) if args[1].get('lv') else ex.ev(args[1])
    z = x.lv.get(())
    if not (isinstance(z, tuple) and z[0] == 'view'): raise Unsupported('range adaptor')
    return mk(ex, e, apply_view(ex, range_of(ex, args[0]), z[1], z[2]))


def apply_view(ex, r, kind, x):
    n = simp(r.e.idx - r.b.idx)
    if kind == 'drop': return Range(r.b.move(simp(z3.If(x < n, r.b.idx + x, r.e.idx))), r.e)
    if kind == 'take': return Range(r.b, r.e.move(simp(z3.If(x < n, r.b.idx + x, r.e.idx))))
    if kind == 'transform':
        base = r.b
        def get(ex, it):
            inner = Iter(base.lv, it.idx, base.rev, base.get, base.kind, base.data)
            return ex.call_closure(x, [ex.it_deref(inner)])
        return Range(Iter(base.lv, r.b.idx, base.rev, get, base.kind, base.data), Iter(base.lv, r.e.idx, base.rev, get, base.kind, base.data))
    raise Unsupported('view ' + kind)


# ---- sort & friends ---------------------------------------------------------------------
def permute(ex, lv, lo, hi, hint):
    """replace elements [lo,hi) by a permutation; returns (old leaf arrays, perm fn p: new->old, q: old->new)"""
    old = {}; new = {}
    for p in leaves_of(ex, lv):
        cur = arr_at(ex, lv, p)
        nw = ex.fresh(cur.sort(), hint)
        old[p] = cur; new[p] = nw
    ex.counter += 1
    P = z3.Function('%s_p!%d' % (hint, ex.counter), I, I)
    Q = z3.Function('%s_q!%d' % (hint, ex.counter), I, I)
    j = z3.Int('j!p')
    inr = z3.And(j >= lo, j < hi)
    for p in old:
        ex.fact(z3.ForAll([j], z3.Implies(inr, z3.Select(new[p], j) == z3.Select(old[p], P(j))), patterns=[z3.Select(new[p], j)]))
        ex.fact(z3.ForAll([j], z3.Implies(z3.Not(inr), z3.Select(new[p], j) == z3.Select(old[p], j)), patterns=[z3.Select(new[p], j)]))
        ex.fact(z3.ForAll([j], z3.Implies(inr, z3.And(z3.Select(old[p], j) == z3.Select(new[p], Q(j)))), patterns=[z3.Select(old[p], j)]))
    ex.fact(z3.ForAll([j], z3.Implies(inr, z3.And(P(j) >= lo, P(j) < hi, Q(P(j)) == j)), patterns=[P(j)]))
    ex.fact(z3.ForAll([j], z3.Implies(inr, z3.And(Q(j) >= lo, Q(j) < hi, P(Q(j)) == j)), patterns=[Q(j)]))
    for p in new: arr_set(ex, lv, p, new[p])
    ex.log.setdefault('perm', []).append((hint, P, Q))
    return old, new, P, Q


def std_sort(ex, e, this, args):
    b, en = itof(ex, args[0]), itof(ex, args[1])
    sort_impl(ex, b.lv, b.idx, en.idx, closure_of(ex, args[2]) if len(args) > 2 else None)


def sort_impl(ex, lv, lo, hi, cmp):
    permute(ex, lv, lo, hi, 'sort')
    i = z3.Int('si!%d' % ex.counter); j = z3.Int('sj!%d' % ex.counter); ex.counter += 1
    lt = less_term(ex, lv, j, i, cmp, z3.And(i >= lo, i < j, j < hi))
    ps = leaves_of(ex, lv)
    a = arr_at(ex, lv, ps[0])
    ex.fact(z3.ForAll([i, j], z3.Implies(z3.And(i >= lo, i < j, j < hi), z3.Not(lt)), patterns=[z3.MultiPattern(z3.Select(a, i), z3.Select(a, j))]))


def default_less(x, y):
    """operator< of numbers and of pairs and tuples of numbers"""
    if is_z3(x.lv.get(())): return x.z < y.z
    if x.ty.is_std('std::pair', 'std::tuple'):
        n = len([t for t in x.ty.targs if t is not None and not isinstance(t, int)])
        names = ['first', 'second'] if x.ty.is_std('std::pair') else [str(i) for i in range(n)]
        r = z3.BoolVal(False)
        for nm, t in reversed(list(zip(names, x.ty.targs))):
            a, b = x.sub(nm, t), y.sub(nm, t)
            r = z3.Or(default_less(a, b), z3.And(z3.Not(default_less(b, a)), r))
        return r
    if x.ty.q in LESS_FIELD: return x.lv[(LESS_FIELD[x.ty.q],)] < y.lv[(LESS_FIELD[x.ty.q],)]
    raise Unsupported('default comparison')


LESS_FIELD = {'yaga::terms::term_t': 'x'}       # compiler-generated comparison of a single field


def ranges_sort(ex, e, this, args):
    r = range_of(ex, args[0])
    sort_impl(ex, r.b.lv, r.b.idx, r.e.idx, None if len(args) < 2 or 'std::ranges::less' in ex.ety(args[1]).s else closure_of(ex, args[1]))
    return mk(ex, e, r.e)


def std_lower_bound(ex, e, this, args):
    b, en = itof(ex, args[0]), itof(ex, args[1])
    if b.kind != 'seq' or b.get is not None or b.rev or len(args) != 3: raise Unsupported('lower_bound')
    v = ex.rd(ex.lv(args[2])) if args[2].get('lv') else ex.ev(args[2])
    lo, hi = b.idx, en.idx
    i = z3.Int('qi!%d' % ex.counter); ex.counter += 1
    ex.quant += 1
    try: lt = default_less(ex.rd(ex.elem(b.lv, i)), v)
    finally: ex.quant -= 1
    at = lambda j: z3.substitute(lt, (i, j))
    j, k = z3.Ints('j!lb k!lb')
    if not ex.quant: ex.oblige('range is ordered for lower_bound', z3.ForAll([j, k], z3.Implies(z3.And(lo <= j, j < k, k < hi, at(k)), at(j))), 'pre')
    r = ex.fresh(I, 'lb')
    ex.fact(z3.And(r >= lo, z3.Or(r <= hi, r == lo)))
    p = leaves_of(ex, b.lv)[0]; a = arr_at(ex, b.lv, p)
    ex.fact(z3.ForAll([j], z3.Implies(z3.And(lo <= j, j < r), at(j)), patterns=[z3.Select(a, j)]))
    ex.fact(z3.ForAll([j], z3.Implies(z3.And(r <= j, j < hi), z3.Not(at(j))), patterns=[z3.Select(a, j)]))
    return mk(ex, e, b.move(r))


def std_upper_bound(ex, e, this, args):
    b, en = itof(ex, args[0]), itof(ex, args[1])
    if b.kind != 'seq' or b.get is not None or b.rev: raise Unsupported('upper_bound')
    v = ex.rd(ex.lv(args[2])) if args[2].get('lv') else ex.ev(args[2])
    u = ex.new_root('%s:bound%s' % (ex.ctxname(), e['_i']), v.ty); ex.wr(u, v)
    cmp = closure_of(ex, args[3]) if len(args) > 3 else None
    lo, hi = b.idx, en.idx
    i = z3.Int('qi!%d' % ex.counter); ex.counter += 1
    lt = less_term(ex, b.lv, u, i, cmp, z3.And(i >= lo, i < hi))         # v < element i
    at = lambda j: z3.substitute(lt, (i, j))
    j, k = z3.Ints('j!ub k!ub')
    p = leaves_of(ex, b.lv)[0]; a = arr_at(ex, b.lv, p)
    if not ex.quant: ex.oblige('range is ordered for upper_bound', z3.ForAll([j, k], z3.Implies(z3.And(lo <= j, j < k, k < hi, at(j)), at(k)), patterns=[z3.MultiPattern(z3.Select(a, j), z3.Select(a, k))]), 'pre')
    r = ex.fresh(I, 'ub')
    ex.fact(z3.And(r >= lo, z3.Or(r <= hi, r == lo)))
    ex.fact(z3.ForAll([j], z3.Implies(z3.And(lo <= j, j < r), z3.Not(at(j))), patterns=[z3.Select(a, j)]))
    ex.fact(z3.ForAll([j], z3.Implies(z3.And(r <= j, j < hi), at(j)), patterns=[z3.Select(a, j)]))
    return mk(ex, e, b.move(r))


def less_term(ex, lv, i, j, cmp, guard):
    ex.quant += 1
    el = lambda k: k if isinstance(k, LV) else ex.elem(lv, k)
    try:
        if cmp is None:
            x = ex.rd(el(i)); y = ex.rd(el(j))
            return default_less(x, y)
        if isinstance(cmp, Closure):
            def th():
                r = ex.call_closure(cmp, [el(i), el(j)])
                z = (r if isinstance(r, Val) else ex.rd(r)).z
                return ex.to_bool(z)
            return ex.guarded(guard, th)
        # comparer object of a /repo class
        f = [g for g in ex.prog.funcs.values() if g['n'] == 'operator()' and 'cls' in g and ex.prog.types[g['cls']].s == cmp.ty.s]
        if not f: 
            if cmp.ty.q in ('std::less', 'std::greater'):
                x = ex.rd(el(i)).z; y = ex.rd(el(j)).z
                return x < y if cmp.ty.q == 'std::less' else x > y
            raise Unsupported('comparer')
        f = f[0]
        def th():
            t = ex.new_root('cmpobj!%d' % ex.counter, cmp.ty); ex.wr(t, cmp)
            a = []
            for p, x in zip(f['params'], (el(i), el(j))):
                a.append(x if ex.prog.types[p['t']].k == 'ref' else ex.rd(x))
            r = ex.run_body(f, t, a, f['_i'])
            return ex.to_bool((r if isinstance(r, Val) else ex.rd(r)).z)
        return ex.guarded(guard, th)
    finally: ex.quant -= 1


def std_iter_swap(ex, e, this, args):
    a, b = itof(ex, args[0]), itof(ex, args[1])
    if a.lv.ty.s in ex.w.boxed:
        la = LV(a.lv.root, a.lv.path + ('[]',), a.lv.idx + (a.idx,), None); lb = LV(b.lv.root, b.lv.path + ('[]',), b.lv.idx + (b.idx,), None)
        raise Unsupported('iter_swap boxed')
    la, lb = ex.it_deref(a), ex.it_deref(b)
    x, y = ex.rd(la), ex.rd(lb)
    ex.wr(la, y); ex.wr(lb, x)


def keep_if(ex, b, en, pred_neg_i, pred_keep, hint, lazy=False):
    """stable filter of [b,en): returns new end; elements kept are those with pred_keep(i)"""
    lv = b.lv; lo, hi = b.idx, en.idx
    ps = leaves_of(ex, lv)
    old = {p: arr_at(ex, lv, p) for p in ps}
    new = {p: ex.fresh(old[p].sort(), hint) for p in ps}
    m = ex.fresh(I, hint + 'n')
    ex.counter += 1
    P = z3.Function('%s_p!%d' % (hint, ex.counter), I, I)
    Q = z3.Function('%s_q!%d' % (hint, ex.counter), I, I)
    i = pred_neg_i
    j = z3.Int('j!k'); k = z3.Int('k!k')
    ex.fact(z3.And(m >= lo, z3.Implies(lo <= hi, m <= hi)))
    K = lambda t: z3.substitute(pred_keep, (i, t))
    for p in ps:
        ex.fact(z3.ForAll([j], z3.Implies(z3.And(j >= lo, j < m), z3.Select(new[p], j) == z3.Select(old[p], P(j))), patterns=[z3.Select(new[p], j)]))
        ex.fact(z3.ForAll([j], z3.Implies(z3.Or(j < lo, j >= hi), z3.Select(new[p], j) == z3.Select(old[p], j)), patterns=[z3.Select(new[p], j)]))
        ex.fact(z3.ForAll([j], z3.Implies(z3.And(j >= lo, j < hi, K(j)), z3.And(Q(j) >= lo, Q(j) < m, P(Q(j)) == j, z3.Select(new[p], Q(j)) == z3.Select(old[p], j))), patterns=[Q(j) if lazy else z3.Select(old[p], j)]))
    ex.fact(z3.ForAll([j], z3.Implies(z3.And(j >= lo, j < m), z3.And(P(j) >= j, P(j) < hi, K(P(j)), Q(P(j)) == j)), patterns=[P(j)]))
    ex.fact(z3.ForAll([j, k], z3.Implies(z3.And(lo <= j, j < k, k < m), P(j) < P(k)), patterns=[z3.MultiPattern(P(j), P(k))]))
    for p in ps: arr_set(ex, lv, p, new[p])
    ex.log.setdefault('perm', []).append((hint, P, Q))
    return m


def loop_filter(ex, e, b, en, clo, ity):
    """remove_if executed as the loop it is, for a predicate with side effects or one that reads the range itself.
    Ghost: map[i] = new position of the element i, or -1; inv[k] = old position of the element now at k."""
    ctx = ex.ctxname(); fr = ex.frames[-1]; i0 = e['_i']
    vs = {}
    for n, x in (('it', b), ('out', b)):
        lv = ex.new_root('%s:rm_%s%d' % (ctx, n, i0), ity); ex.st.mem[lv.root][()] = x; ex.touch(lv.root, ()); vs[n] = lv
        fr.vars[-i0 * 4 - (1 if n == 'it' else 2)] = lv
    for n in ('map', 'inv'):
        r = '%s:rm_%s%d' % (ctx, n, i0)
        ex.st.mem[r] = {('[]',): ex.fresh(z3.ArraySort(I, I), n)}; ex.st.types[r] = None; ex.touch(r, ('[]',))
        vs[n] = LV(r, ('[]',), (), None)
    ex.log.setdefault('filter', []).append((vs, b, en))
    rd = lambda n: ex.st.mem[vs[n].root][()]
    gh = lambda n: ex.st.mem[vs[n].root][('[]',)]
    def put(n, p, x):
        ex.touch(vs[n].root, p); m = dict(ex.st.mem[vs[n].root]); m[p] = x; ex.st.mem[vs[n].root] = m
    def body():
        x = rd('it')
        r = ex.call_closure(clo, [it_elem(x)(ex, x.idx)])
        r = ex.to_bool(r.z if isinstance(r, Val) else ex.rd(r).z)
        if ex.decide(r): put('map', ('[]',), z3.Store(gh('map'), x.idx, z3.IntVal(-1)))
        else:
            o = rd('out')
            v = ex.rd_val(ex.st, it_elem(x)(ex, x.idx))
            ex.wr(it_elem(o)(ex, o.idx), v)
            put('map', ('[]',), z3.Store(gh('map'), x.idx, o.idx)); put('inv', ('[]',), z3.Store(gh('inv'), o.idx, x.idx))
            put('out', (), o.move(simp(o.idx + 1)))
    ex.loop({'_i': i0, 'l': e.get('l', 0), 'c': None, 'filter': True}, lambda: rd('it').idx < en.idx, body, lambda: put('it', (), rd('it').move(simp(rd('it').idx + 1))))
    return rd('out')


def std_remove_if(ex, e, this, args):
    b, en = itof(ex, args[0]), itof(ex, args[1])
    snap = ex.snapshot()
    try: i, p = range_pred(ex, closure_of(ex, args[2]), b, b.idx, en.idx)
    except (NotPure, Unsupported) as x:
        if os.environ.get('TMPLDBG'): print('remove_if as loop:', x)
        ex.restore(snap)
        return mk(ex, e, loop_filter(ex, e, b, en, closure_of(ex, args[2]), ex.prog.types[args[0]['t']]))
    m = keep_if(ex, b, en, i, z3.Not(p), 'rm')
    return mk(ex, e, b.move(m))


def std_partition(ex, e, this, args):
    b, en = itof(ex, args[0]), itof(ex, args[1])
    i, p = range_pred(ex, closure_of(ex, args[2]), b, b.idx, en.idx)
    lv = b.lv
    old, new, P, Q = permute(ex, lv, b.idx, en.idx, 'part')
    m = ex.fresh(I, 'pm')
    ex.fact(z3.And(m >= b.idx, m <= en.idx))
    pn = p
    for q in old: pn = z3.substitute(pn, (old[q], new[q]))
    j = z3.Int('j!pt')
    ex.fact(z3.ForAll([j], z3.Implies(z3.And(j >= b.idx, j < m), z3.substitute(pn, (i, j)))))
    ex.fact(z3.ForAll([j], z3.Implies(z3.And(j >= m, j < en.idx), z3.Not(z3.substitute(pn, (i, j))))))
    return mk(ex, e, b.move(m))


def std_unique(ex, e, this, args):
    """keeps the first element of every run of equal elements"""
    b, en = itof(ex, args[0]), itof(ex, args[1])
    lv = b.lv
    i = z3.Int('ui!%d' % ex.counter); ex.counter += 1
    ex.quant += 1
    try:
        if len(args) > 2:
            c = closure_of(ex, args[2])
            def th():
                r = ex.call_closure(c, [ex.elem(lv, i - 1), ex.elem(lv, i)])
                return ex.to_bool((r if isinstance(r, Val) else ex.rd(r)).z)
            same = ex.guarded(z3.And(i > b.idx, i < en.idx), th)
        else:
            same = val_eq(ex, ex.rd(ex.elem(lv, i - 1)), ex.rd(ex.elem(lv, i)))
    finally: ex.quant -= 1
    old = {p: arr_at(ex, lv, p) for p in leaves_of(ex, lv)}
    m = keep_if(ex, b, en, i, z3.Or(i == b.idx, z3.Not(same)), 'un', lazy=True)
    if len(args) == 2:
        # == is an equivalence: every element equals the first one of its run, which is kept
        ex.counter += 1
        V = z3.Function('un_v!%d' % ex.counter, I, I); j = z3.Int('j!u')
        ex.fact(z3.ForAll([j], z3.Implies(z3.And(j >= b.idx, j < en.idx), z3.And(V(j) >= b.idx, V(j) < m, *[z3.Select(old[p], j) == z3.Select(arr_at(ex, lv, p), V(j)) for p in old])), patterns=[V(j)]))
        ex.log.setdefault('uniqueV', []).append(V)
    ex.log.setdefault('unique', []).append((lv, {p: arr_at(ex, lv, p) for p in old}, b.idx, m))
    return mk(ex, e, b.move(m))


def std_count_if(ex, e, this, args):
    b, en = itof(ex, args[0]), itof(ex, args[1])
    i, p = range_pred(ex, closure_of(ex, args[2]), b, b.idx, en.idx)
    n = ex.fresh(I, 'cnt')
    r = find_first(ex, b, en, i, p)
    ex.fact(z3.And(n >= 0, z3.Implies(b.idx <= en.idx, n <= en.idx - b.idx), (n > 0) == (r < en.idx)))
    if b.kind == 'hash' and ex.w.count_hook: ex.w.count_hook(ex, b, i, p, n)
    return mk(ex, e, n)


def std_distance(ex, e, this, args):
    a, b = itof(ex, args[0]), itof(ex, args[1])
    return mk(ex, e, simp(b.idx - a.idx))


def std_begin(ex, e, this, args):
    return mk(ex, e, range_of(ex, args[0]).b)


def std_end(ex, e, this, args):
    return mk(ex, e, range_of(ex, args[0]).e)


def std_copy(ex, e, this, args):
    b, en = itof(ex, args[0]), itof(ex, args[1])
    d = itof(ex, args[2])
    if not isinstance(d, Iter): raise Unsupported('copy to inserter')
    k = simp(en.idx - b.idx)
    ex.oblige('copy destination in range', z3.And(d.idx >= 0, d.idx + k <= length(ex, d.lv)), 'bounds')
    copy_range(ex, d.lv, d.idx, b, en)
    return mk(ex, e, d.move(simp(d.idx + k)))


# ---- unordered_set / map --------------------------------------------------------------------
def keyvals(ex, kty, v):
    return [v.lv[p] for p in ex.w.shape(kty)]


def has(ex, this, ks):
    a = ex.rd_raw(ex.st, this, ('has',))
    for k in ks: a = ex.sel(a, k)
    return a


def set_has(ex, this, ks, b):
    a = ex.rd_raw(ex.st, this, ('has',))
    ex.wr_leaf(this, ('has',), ex.store(a, tuple(ks), b))


def keyarg(ex, this, a):
    kty = this.ty.targs[0]
    v = ex.rd(ex.lv(a)) if a.get('lv') else ex.ev(a)
    if v.ty is not None and v.ty.s != kty.s and kty.k == 'rec' and set(v.lv) != set(ex.w.shape(kty)):
        v = ex.construct_from(kty, [v], [v.ty], 'ka')
    return Val(kty, v.lv)


def kt_iter(this, key, found):
    return Iter(this, None, kind='key', data=(key, found))


def set_find(ex, e, this, args):
    k = keyarg(ex, this, args[0])
    return mk(ex, e, kt_iter(this, k, has(ex, this, keyvals(ex, this.ty.targs[0], k))))


def set_contains(ex, e, this, args):
    k = keyarg(ex, this, args[0])
    h = has(ex, this, keyvals(ex, this.ty.targs[0], k))
    if ex.ety(e).k == 'int': return mk(ex, e, z3.If(h, z3.IntVal(1), z3.IntVal(0)))
    return mk(ex, e, h)


def set_size(ex, e, this, args):
    return mk(ex, e, ex.rdl(this, 'size'))


def set_empty(ex, e, this, args):
    return mk(ex, e, ex.rdl(this, 'size') == 0)


def set_insert(ex, e, this, args):
    kty = this.ty.targs[0]
    if len(args) == 2: raise Unsupported('range insert')
    k = keyarg(ex, this, args[0])
    ks = keyvals(ex, kty, k)
    h = has(ex, this, ks)
    n = ex.rdl(this, 'size')
    a = ex.rd_raw(ex.st, this, ('has',))
    set_has(ex, this, ks, z3.BoolVal(True))
    ex.wr_leaf(this, ('size',), z3.If(h, n, n + 1))
    if ex.w.set_hook: ex.w.set_hook(ex, this, a, ks[0], h, True)
    return ins_result(ex, e, this, k, h)


def ins_result(ex, e, this, k, h):
    ty = ex.ety(e)
    if ty.is_std('std::pair'):
        return Val(ty, {('first',): kt_iter(this, k, z3.BoolVal(True)), ('second',): z3.Not(h)})
    return mk(ex, e, kt_iter(this, k, z3.BoolVal(True)))


def set_erase(ex, e, this, args):
    kty = this.ty.targs[0]
    a = args[0]
    if ex.w.is_iter(ex.ety(a)):
        it = itof(ex, a)
        if it.kind != 'key': raise Unsupported('erase')
        k = it.data[0]
        ex.oblige('erase of a valid iterator', it.data[1], 'bounds')
    else: k = keyarg(ex, this, a)
    ks = keyvals(ex, kty, k)
    h = has(ex, this, ks); n = ex.rdl(this, 'size')
    a = ex.rd_raw(ex.st, this, ('has',))
    set_has(ex, this, ks, z3.BoolVal(False))
    ex.wr_leaf(this, ('size',), z3.If(h, n - 1, n))
    if ex.w.set_hook: ex.w.set_hook(ex, this, a, ks[0], h, False)
    if ex.ety(e).k == 'int': return mk(ex, e, z3.If(h, z3.IntVal(1), z3.IntVal(0)))
    return mk(ex, e, kt_iter(this, k, z3.BoolVal(False)))


def set_clear(ex, e, this, args):
    ex.wr(this, Val(this.ty, {p: x for p, x in ex.default_val(this.ty).lv.items() if p[0] in ('has', 'size')}))


def map_entry(ex, this, k):
    kty, vty = this.ty.targs[0], this.ty.targs[1]
    ks = keyvals(ex, kty, k)
    v = LV(this.root, this.path + ('{}',), this.idx + tuple(ks), vty)
    pt = None
    for t in ex.prog.types:
        if t.k == 'rec' and t.q == 'std::pair' and len(t.targs) == 2 and t.targs[0] is not None and t.targs[1] is not None and t.targs[0].s == kty.s and t.targs[1].s == vty.s: pt = t; break
    return MapEntryLV(k, v, pt)


def map_index(ex, e, this, args):
    k = keyarg(ex, this, args[0])
    ks = keyvals(ex, this.ty.targs[0], k)
    h = has(ex, this, ks)
    n = ex.rdl(this, 'size')
    en = map_entry(ex, this, k)
    if not ex.proved(h):
        d = ex.default_val(en.value.ty); cur = ex.rd(en.value)
        ex.wr(en.value, ex.merge(h, cur, d))
        set_has(ex, this, ks, z3.BoolVal(True))
        ex.wr_leaf(this, ('size',), z3.If(h, n, n + 1))
    return en.value


def map_at(ex, e, this, args):
    k = keyarg(ex, this, args[0])
    h = has(ex, this, keyvals(ex, this.ty.targs[0], k))
    if not ex.decide(h): raise Thrown('out_of_range')
    return map_entry(ex, this, k).value


def map_insert(ex, e, this, args):
    a = args[0]
    v = ex.rd(ex.lv(a)) if a.get('lv') else ex.ev(a)
    kty, vty = this.ty.targs[0], this.ty.targs[1]
    k = v.sub('first', kty); x = v.sub('second', vty)
    return map_put(ex, e, this, k, x)


def map_emplace(ex, e, this, args):
    vs, tys = args_any(ex, args)
    kty, vty = this.ty.targs[0], this.ty.targs[1]
    k = ex.construct_from(kty, [vs[0]], [tys[0]], 'mk'); x = ex.construct_from(vty, vs[1:], tys[1:], 'mv')
    return map_put(ex, e, this, k, x)


def map_put(ex, e, this, k, x):
    kty, vty = this.ty.targs[0], this.ty.targs[1]
    ks = keyvals(ex, kty, k)
    h = has(ex, this, ks); n = ex.rdl(this, 'size')
    en = map_entry(ex, this, k)
    cur = ex.rd_val(ex.st, en.value)
    ex.wr(en.value, ex.merge(h, cur, Val(vty, {p: x.lv[p] for p in cur.lv})) if not z3.is_false(z3.simplify(h)) else Val(vty, x.lv))
    set_has(ex, this, ks, z3.BoolVal(True))
    ex.wr_leaf(this, ('size',), z3.If(h, n, n + 1))
    return ins_result(ex, e, this, k, h)


def order_of(ex, this):
    """ghost iteration order of the set/map in its current state"""
    kty = this.ty.targs[0]
    h = ex.rd_raw(ex.st, this, ('has',)); n = ex.rdl(this, 'size')
    key = ('order', h.get_id(), n.get_id())
    o = ex.ghost.get(key)
    if o is None:
        sh = ex.w.shape(kty)
        ex.counter += 1
        ords = [z3.Function('ord%d!%d' % (q, ex.counter), I, s) for q, s in enumerate(sh.values())]
        pos = z3.Function('pos!%d' % ex.counter, *(list(sh.values()) + [I]))
        j = z3.Int('j!o'); ks = [z3.Const('k!o%d' % q, s) for q, s in enumerate(sh.values())]
        hj = h
        for f in ords: hj = z3.Select(hj, f(j))
        hk = h
        for k in ks: hk = z3.Select(hk, k)
        ex.fact(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < n), z3.And(hj, pos(*[f(j) for f in ords]) == j)), patterns=[ords[0](j)]))
        ex.fact(z3.ForAll(ks, z3.Implies(hk, z3.And(pos(*ks) >= 0, pos(*ks) < n, *[f(pos(*ks)) == k for f, k in zip(ords, ks)])), patterns=[hk]))
        o = (ords, pos, (h, n)); ex.ghost[key] = o
    return o


def hs_begin(ex, e, this, args):
    ords, pos, _ = order_of(ex, this)
    kty = this.ty.targs[0]

    def get(ex, it):
        ex.oblige('set iterator in range', z3.And(it.idx >= 0, it.idx < _[1]), 'bounds')
        k = Val(kty, {p: f(it.idx) for p, f in zip(ex.w.shape(kty), ords)})
        for p, x in k.lv.items(): ex.typefacts(kty, p, x)
        if this.ty.is_std('std::unordered_map', 'std::map'): return map_entry(ex, this, k)
        t = ex.new_root('%s:hk!%d' % (ex.ctxname(), it.idx.get_id()), kty); ex.wr(t, k); return t
    return mk(ex, e, Iter(this, z3.IntVal(0), get=get, kind='hash', data=(ords, pos)))


def hs_end(ex, e, this, args):
    b = hs_begin(ex, e, this, args).z
    return mk(ex, e, b.move(ex.rdl(this, 'size')))


def patch_iter():
    """equality and dereference of key iterators"""
    o_eq = Exec.it_eq; o_de = Exec.it_deref; o_mem = Exec.member; o_rdval = Exec.rd_val; o_wr = Exec.wr

    def it_eq(self, a, b):
        if a.kind == 'key' or b.kind == 'key':
            if a.kind != 'key': a, b = b, a
            if b.kind == 'hash': return z3.Not(a.data[1])   # comparison with end()
            raise Unsupported('iterator comparison')
        return o_eq(self, a, b)

    def it_deref(self, it):
        if it.kind == 'key':
            self.oblige('iterator dereference', it.data[1], 'bounds')
            if it.lv.ty.is_std('std::unordered_map', 'std::map'): return map_entry(self, it.lv, it.data[0])
            t = self.fresh_root('ks', it.data[0].ty); self.wr(t, it.data[0]); return t
        return o_de(self, it)

    def member(self, base, name):
        if isinstance(base, MapEntryLV):
            if name == 'second': return base.value
            t = self.fresh_root('kf', base.key.ty); self.wr(t, base.key); return t
        return o_mem(self, base, name)

    def rd_val(self, st, lv):
        if isinstance(lv, MapEntryLV):
            out = {}
            for p, x in lv.key.lv.items(): out[('first',) + p] = x
            for p, x in o_rdval(self, st, lv.value).lv.items(): out[('second',) + p] = x
            return Val(lv.ty, out)
        return o_rdval(self, st, lv)
    Exec.it_eq = it_eq; Exec.it_deref = it_deref; Exec.member = member; Exec.rd_val = rd_val


patch_iter()


# ---- unique_ptr -----------------------------------------------------------------------------
def up_get(ex, e, this, args):
    return mk(ex, e, ex.rdl(this))


def up_star(ex, e, this, args):
    a = ex.rdl(this)
    if is_z3(a): ex.oblige('pointer not null', a != 0, 'bounds')
    r = ex.deref_ptr(a, this.ty.targs[0])
    return r


def up_arrow(ex, e, this, args):
    a = ex.rdl(this)
    if is_z3(a): ex.oblige('pointer not null', a != 0, 'bounds')
    return mk(ex, e, a)


def up_bool(ex, e, this, args):
    a = ex.rdl(this)
    return mk(ex, e, a != 0 if is_z3(a) else z3.BoolVal(True))


def up_assign(ex, e, this, args):
    a = args[0]
    if a.get('lv'):
        l = ex.lv(a); v = ex.rd(l); ex.wr_leaf(this, (), v.z); ex.wr_leaf(l, (), z3.IntVal(0))
    else: ex.wr_leaf(this, (), ex.ev(a).z)
    return this


def up_ctor(ex, e, lv, args):
    if not args or ex.ety(args[0]).k == 'nullptr': ex.wr_leaf(lv, (), z3.IntVal(0)); return
    a = args[0]
    if a.get('lv'):
        l = ex.lv(a); ex.wr_leaf(lv, (), ex.rd(l).z); ex.wr_leaf(l, (), z3.IntVal(0))
    else: ex.wr_leaf(lv, (), ex.ev(a).z)


def make_unique(ex, e, this, args):
    ty = ex.ety(e).targs[0]
    vs, tys = args_any(ex, args)
    v = ex.construct_from(ty, vs, tys, e['_i'])
    a = fresh_addr(ex, ty)
    ex.wr(ex.heap_lv(ty, a), v)
    return mk(ex, e, a)


def opaque(ex, e, this, args):
    """library call without effect on the state under contract (output streams, clocks)"""
    for a in args: ex.argany(a)
    if ex.ety(e).k == 'void': return None
    if e.get('lv'): return this if this is not None else ex.lv(args[0])
    return ex.havoc_val(ex.ety(e), 'opq')


def install(w):
    n = w.natives
    for cls in ('std::vector', 'std::deque', 'std::array', 'std::initializer_list', 'std::stack', 'std::list'):
        for k, h in dict(size=seq_size, empty=seq_empty, at=seq_at, front=seq_front, back=seq_back, push_back=seq_push, emplace_back=seq_emplace_back,
                         pop_back=seq_pop_back, begin=seq_begin, cbegin=seq_begin, end=seq_end, cend=seq_end, rbegin=seq_rbegin, rend=seq_rend,
                         clear=seq_clear, reserve=seq_reserve, resize=seq_resize, assign=seq_assign, erase=seq_erase, insert=seq_insert, swap=seq_swap).items():
            n[(cls, k)] = h
        n[(cls, 'operator[]')] = seq_index
        n[(cls, 'operator=')] = seq_assign_op
        n[('ctor', cls)] = seq_ctor
    n[('std::stack', 'push')] = seq_push; n[('std::stack', 'emplace')] = seq_emplace_back; n[('std::stack', 'pop')] = seq_pop_back; n[('std::stack', 'top')] = seq_back
    n[('std::_Bit_reference', 'operator bool')] = bitref_get; n[('std::_Bit_reference', 'operator=')] = bitref_set
    n[('*iter', 'operator*')] = it_star; n[('*iter', 'operator->')] = it_arrow
    n[('*iter', 'operator++')] = it_inc(1); n[('*iter', 'operator--')] = it_inc(-1)
    n[('*iter', 'operator+')] = it_addsub(1); n[('*iter', 'operator-')] = it_addsub(-1)
    n[('*iter', 'operator+=')] = it_addassign(1); n[('*iter', 'operator-=')] = it_addassign(-1)
    n[('*iter', 'operator=')] = it_assign; n[('*iter', 'operator[]')] = it_index; n[('*iter', 'base')] = it_base
    n[('*iter', 'operator==')] = it_cmp(False); n[('*iter', 'operator!=')] = it_cmp(True)
    for op in ('<', '>', '<=', '>='):
        n[('*iter', 'operator' + op)] = it_rel(op)
        n[('q', '__gnu_cxx::operator' + op)] = it_rel(op)
    n[('q', '__gnu_cxx::operator==')] = it_cmp(False); n[('q', '__gnu_cxx::operator!=')] = it_cmp(True)
    n[('q', '__gnu_cxx::operator-')] = it_addsub(-1); n[('q', '__gnu_cxx::operator+')] = it_addsub(1)
    n[('q', 'std::__detail::operator==')] = it_cmp(False); n[('q', 'std::__detail::operator!=')] = it_cmp(True)
    for q in ('std::ranges::operator', 'std::ranges::__access::operator', 'std::ranges::transform_view::operator'): n[('q', q + '==')] = it_cmp(False); n[('q', q + '!=')] = it_cmp(True)
    for op in ('<', '>', '<=', '>='): n[('q', 'std::operator' + op)] = ordering_cmp(op)
    n[('q', 'std::operator==')] = generic_eq(False); n[('q', 'std::operator!=')] = generic_eq(True)
    n[('', 'operator-')] = it_addsub(-1); n[('', 'operator+')] = it_addsub(1)
    for c in ('std::optional',):
        n[(c, 'has_value')] = opt_has; n[(c, 'operator bool')] = opt_has; n[(c, 'operator*')] = opt_star; n[(c, 'operator->')] = opt_star
        n[(c, 'value')] = opt_value; n[(c, 'value_or')] = opt_value_or; n[(c, 'reset')] = opt_reset; n[(c, 'operator=')] = opt_assign
        n[('ctor', c)] = opt_ctor
    for nm, f in (('std::less', lambda x, y: x < y), ('std::greater', lambda x, y: x > y), ('std::equal_to', lambda x, y: x == y)):
        n[(nm, 'operator()')] = (lambda ex, e, this, args, f=f: mk(ex, e, f(*ex.unify(ex.rd(lvof(ex, args[0])).z, ex.rd(lvof(ex, args[1])).z))))
    n[('ctor', 'std::pair')] = pair_ctor; n[('emplace', 'std::pair')] = pair_emplace
    n[('ctor', 'std::tuple')] = tuple_ctor; n[('emplace', 'std::tuple')] = tuple_emplace
    n[('std::pair', 'operator=')] = seq_assign_op
    n[('q', 'std::get')] = std_get; n[('q', 'std::ranges::get')] = ranges_get
    n[('q', 'std::move')] = std_move; n[('q', 'std::forward')] = std_move; n[('q', 'std::as_const')] = std_move
    n[('q', 'std::swap')] = std_swap; n[('q', 'std::iter_swap')] = std_iter_swap
    n[('q', 'std::max')] = std_maxmin('max'); n[('q', 'std::min')] = std_maxmin('min')
    n[('q', 'std::abs')] = std_abs; n[('q', 'abs')] = std_abs
    n[('q', '__assert_fail')] = assert_fail; n[('q', 'abort')] = assert_fail
    n[('std::ranges::__find_fn', 'operator()')] = ranges_find; n[('q', 'std::find')] = std_find; n[('q', 'std::find_if')] = std_find_if(); n[('q', 'std::find_if_not')] = std_find_if(True)
    n[('q', 'std::any_of')] = std_anyall('any'); n[('q', 'std::all_of')] = std_anyall('all')
    n[('q', 'std::upper_bound')] = std_upper_bound
    n[('std::ranges::__sort_fn', 'operator()')] = ranges_sort
    n[('std::ranges::__any_of_fn', 'operator()')] = std_ranges_anyall('any'); n[('std::ranges::__all_of_fn', 'operator()')] = std_ranges_anyall('all')
    n[('q', 'std::sort')] = std_sort; n[('q', 'std::lower_bound')] = std_lower_bound; n[('q', 'std::remove_if')] = std_remove_if; n[('q', 'std::unique')] = std_unique
    n[('q', 'std::partition')] = std_partition; n[('q', 'std::count_if')] = std_count_if; n[('q', 'std::distance')] = std_distance
    n[('q', 'std::begin')] = std_begin; n[('q', 'std::end')] = std_end; n[('q', 'std::copy')] = std_copy
    for k in ('transform', 'drop', 'take'): n[('std::ranges::views::_' + k.capitalize(), 'operator()')] = view_partial(k)
    n[('std::ranges::views::__adaptor::_RangeAdaptor', 'operator()')] = lambda ex, e, this, args: view_partial(ex.prog.types[e['fn']['cls']].s.split('_')[-1].rstrip('>').lower().strip())(ex, e, this, args)
    n[('q', 'std::ranges::views::__adaptor::operator|')] = std_pipe
    for c in ('std::ranges::take_view', 'std::span', 'std::ranges::subrange', 'std::ranges::view_interface', 'std::ranges::ref_view', 'std::ranges::transform_view', 'std::ranges::drop_view'):
        n[(c, 'size')] = span_size; n[(c, 'empty')] = span_empty; n[(c, 'begin')] = span_begin; n[(c, 'end')] = span_end
        n[(c, 'operator[]')] = span_index; n[(c, 'first')] = span_first(False); n[(c, 'last')] = span_first(True); n[(c, 'front')] = span_front
        n[('ctor', c)] = span_ctor
    for c in ('std::unordered_set', 'std::set'):
        for k, h in dict(find=set_find, contains=set_contains, count=set_contains, size=set_size, empty=set_empty, insert=set_insert, erase=set_erase, clear=set_clear, begin=hs_begin, end=hs_end).items(): n[(c, k)] = h
        n[('ctor', c)] = lambda ex, e, lv, args: ex.default_init(lv)
    for c in ('std::unordered_map', 'std::map'):
        for k, h in dict(find=set_find, contains=set_contains, count=set_contains, size=set_size, empty=set_empty, insert=map_insert, emplace=map_emplace, erase=set_erase, clear=set_clear, at=map_at, begin=hs_begin, end=hs_end).items(): n[(c, k)] = h
        n[(c, 'operator[]')] = map_index
        n[('ctor', c)] = lambda ex, e, lv, args: ex.default_init(lv)
    c = 'std::unique_ptr'
    n[(c, 'get')] = up_get; n[(c, 'operator*')] = up_star; n[(c, 'operator->')] = up_arrow; n[(c, 'operator bool')] = up_bool; n[(c, 'operator=')] = up_assign
    n[('ctor', c)] = up_ctor; n[('q', 'std::make_unique')] = make_unique
    n[('std::basic_ostream', 'operator<<')] = opaque; n[('q', 'std::operator<<')] = opaque
    n[('std::hash', 'operator()')] = std_hash
    n[('q', 'std::make_optional')] = lambda ex, e, this, args: Val(ex.ety(e), {**{('has',): z3.BoolVal(True)}, **{('val',) + p: x for p, x in (ex.rd(ex.lv(args[0])) if args[0].get('lv') else ex.ev(args[0])).lv.items()}})


def std_hash(ex, e, this, args):
    v = ex.rd(ex.lv(args[0])) if args[0].get('lv') else ex.ev(args[0])
    xs = [x for p, x in sorted(v.lv.items())]
    f = z3.Function('hash_' + (v.ty.s if v.ty else ''), *([x.sort() for x in xs] + [I]))
    r = f(*xs)
    if not ex.quant: ex.fact(z3.And(r >= 0, r < (1 << 64)))
    return mk(ex, e, r)
