"""Events: a ghost log records every virtual call of a component; forwarding appends one entry per component, in order."""
from spec import *

LOG = 'global:event log'
LEAVES = ['who', 'ev', 'a0', 'a1', 'a2', 'a3', 'n', 'size']
EV = {n: i for i, n in enumerate(('on_init', 'on_variable_resize', 'on_before_backtrack', 'on_learned_clause', 'on_conflict_resolved', 'on_restart', 'propagate', 'decide', 'pick'))}
AI = z3.ArraySort(I, I)


def lget(st, *p):
    m = st.mem.get(LOG, {})
    return m.get(p, z3.Const(LOG + '.' + '.'.join(p), I if p == ('len',) else AI))


def codes(ex, vals):
    """what an event argument is: the i-th argument of the function under contract, or its value"""
    out = []
    top = ex.topspec.args
    for v in vals:
        if isinstance(v, LV):
            if v.ty.q == 'yaga::Variable': out += [ex.rdl(v, 'number'), ex.rdl(v, 'var_type')]; continue
            k = [i for i, t in enumerate(top) if isinstance(t, LV) and t.root == v.root and t.path == v.path and len(t.idx) == len(v.idx) and all(x.eq(y) for x, y in zip(t.idx, v.idx))]
            out.append(IntV(-1 - k[0] if k else -99))
        elif v.ty.q == 'yaga::Variable': out += [v.lv[('number',)], v.lv[('var_type',)]]
        else: out.append(v.z)
    return (out + [IntV(0)] * 4)[:4]


def append(ex, who, ev, cs, n=None, size=None):
    st = ex.st
    k = lget(st, 'len')
    vals = dict(who=who, ev=IntV(ev), n=n if n is not None else IntV(0), size=size if size is not None else IntV(0), **{'a%d' % i: c for i, c in enumerate(cs)})
    for l in LEAVES:
        a = lget(st, l)
        ex.wr_leaf(LV(LOG, (l,), (), None), (), z3.Store(a, k, vals[l]))
    ex.wr_leaf(LV(LOG, ('len',), (), None), (), z3.simplify(k + 1))


def event(name):
    def h(ex, e, this, args):
        a = ex.bind_args(e, e['fn']['pt'], args)
        who = this.idx[0] if isinstance(this, LV) and this.idx else IntV(-7)
        cs = codes(ex, a)
        if name == 'propagate':
            t = a[1]
            ty = ex.ety(e)
            r = ex.havoc_val(ty, 'conflicts')
            n0 = recent(ex, t)
            # the theory may append to the current list of the trail
            old = ex.st
            for p in ex.w.shape(t.ty):
                if p[-1:] == ('number',) or True:
                    if p and p[0].endswith('trail') and p != (p[0], 'len'):
                        s = ex.w.shape(t.ty)[p]
                        ex.wr_leaf(t, p, ex.fresh(s, 'trail'))
            n1 = recent(ex, t)
            ex.fact(And(n1 >= n0, n1 < MAXLEN))
            append(ex, who, EV[name], cs, r.lv[('len',)], n1)
            ex.log.setdefault('ret', []).append(r)
            return r
        if name == 'pick':
            r = ex.havoc_val(ex.ety(e), 'picked')
            append(ex, who, EV[name], cs, If(r.lv[('has',)], IntV(1), IntV(0)))
            ex.log.setdefault('ret', []).append(r)
            return r
        append(ex, who, EV[name], cs)
        return None
    return h


def recent(ex, t):
    o = O(ex, ex.st, t)
    tr = o.fld('trail')
    return z3.Select(tr.leaf('[]', 'len'), tr.len - 1)


def world(w):
    for cls in ('Event_listener', 'Theory', 'Variable_order', 'Restart'):
        for n in EV: w.natives[('q', 'yaga::%s::%s' % (cls, n))] = event(n)


class Ev(Contract):
    inline_only = True
    container = 'listeners'
    def modifies(s, c): return [(LOG, ())]
    def setup(s, c):
        st = c.ex.st
        m = {(l,): z3.Const(LOG + '.' + l, AI) for l in LEAVES}; m[('len',)] = z3.Int(LOG + '.len')
        st.mem[LOG] = m; st.types[LOG] = None
    def list(s, o):
        f = o.fld(s.container)
        return f.len, f.leaf('[]')
    def codes(s, c): return codes(c.ex, [a if isinstance(a, LV) else a for a in c.args])
    def forwarded(s, c, st, k, start=None):
        """entries for the first k components follow the earlier log"""
        n, L = s.list(c.this)
        n0 = z3.Int(LOG + '.len'); ev = EV[s.q.split('::')[-1]]
        cs = s.codes(c)
        base = n0 if start is None else start
        g = lambda l, i: z3.Select(lget(st, l), i)
        return FA(lambda i: Implies(And(i >= base, i < base + k), And(g('who', i) == z3.Select(L, i - base), g('ev', i) == ev, *[g('a%d' % j, i) == cs[j] for j in range(4)])))
    def kept(s, st):
        n0 = z3.Int(LOG + '.len')
        return FA(lambda i: Implies(i < n0, And(*[z3.Select(lget(st, l), i) == z3.Select(z3.Const(LOG + '.' + l, AI), i) for l in LEAVES])))
    def requires(s, c):
        n, L = s.list(c.this)
        return [('components', And(n >= 0, FA(lambda i: Implies(And(i >= 0, i < n), z3.Select(L, i) > 0))))]
    def ensures(s, c):
        n, L = s.list(c.this); st = c.postst
        return [('one delivery per component', lget(st, 'len') == z3.Int(LOG + '.len') + n), ('each component receives the event with its arguments, in order', s.forwarded(c, st, n)), ('earlier deliveries stay', s.kept(st))]
    def templates(s, ex, lid, L):
        c = ex.topspec; n0 = z3.Int(LOG + '.len')
        out = [('log kept', lambda e: s.kept(e.st)), ('log grows', lambda e: lget(e.st, 'len') >= n0)]
        for cn, rd in L.counters:
            out += [('delivered ' + cn, lambda e, rd=rd: s.forwarded(c, e.st, rd(e))), ('log ' + cn, lambda e, rd=rd: lget(e.st, 'len') == n0 + rd(e))]
        return out


class Propagate(Ev):
    """consults every theory; ends with the first conflicts found, or with a full round in which no theory found a
    conflict and the trail did not grow"""
    q = 'yaga::Theory_combination::propagate'
    container = 'theory_list'
    def modifies(s, c): return [(LOG, ()), (c.args[1].root, ())]
    def sz(s, c, st):
        tr = c.at_lv(c.args[1], st).fld('trail')
        return z3.Select(tr.leaf('[]', 'len'), tr.len - 1)
    def requires(s, c):
        tr = c[1].fld('trail')
        return Ev.requires(s, c) + [('trail', And(tr.len >= 1, z3.Select(tr.leaf('[]', 'len'), tr.len - 1) >= 0))]
    def quiet(s, c, st, b, k, size):
        """k entries from b on: the theories in order, none with conflicts, all seeing the trail of the given size"""
        n, L = s.list(c.this); cs = s.codes(c); g = lambda l, i: z3.Select(lget(st, l), i)
        return FA(lambda i: Implies(And(i >= b, i < b + k), And(g('who', i) == z3.Select(L, i - b), g('ev', i) == EV['propagate'], g('n', i) == 0, g('size', i) == size, g('a0', i) == cs[0], g('a1', i) == cs[1])))
    def visited(s, c, st, b, k):
        n, L = s.list(c.this); cs = s.codes(c); g = lambda l, i: z3.Select(lget(st, l), i)
        return FA(lambda i: Implies(And(i >= b, i < b + k), And(g('who', i) == z3.Select(L, i - b), g('ev', i) == EV['propagate'], g('n', i) == 0, g('a0', i) == cs[0], g('a1', i) == cs[1])))
    def ensures(s, c):
        n, L = s.list(c.this); st = c.postst; n0 = z3.Int(LOG + '.len'); k = lget(st, 'len')
        g = lambda l, i: z3.Select(lget(st, l), i)
        r = c.res; rl = r.lv[('len',)]
        rets = c.ex.log.get('ret', [])
        same = FALSE if not rets else And(*[z3.simplify(rets[-1].lv[p] == r.lv[p]) for p in r.lv])
        last = And(k > n0, g('ev', k - 1) == EV['propagate'], g('n', k - 1) == rl)
        return [('conflicts are those of the last theory consulted', Implies(rl > 0, And(last, same))),
                ('no conflict only after a round over all theories that changed nothing', Implies(rl == 0, And(k >= n0 + n, s.quiet(c, st, k - n, n, s.sz(c, st))))),
                ('earlier deliveries stay', s.kept(st))]
    def templates(s, ex, lid, L):
        c = ex.topspec; n0 = z3.Int(LOG + '.len'); n, _ = s.list(c.this)
        out = [('log kept', lambda e: s.kept(e.st)), ('log grows', lambda e: lget(e.st, 'len') >= n0)]
        entry = lget(ex.st, 'len'); size0 = s.sz(c, ex.st)
        tr0 = c.at_lv(c.args[1], ex.st).fld('trail').len
        out += [('trail grows', lambda e: s.sz(c, e.st) >= size0), ('same level', lambda e: c.at_lv(c.args[1], e.st).fld('trail').len == tr0)]
        for cn, rd in L.counters:
            out += [('round %s' % cn, lambda e, rd=rd: lget(e.st, 'len') == entry + rd(e)),
                    ('consulted %s' % cn, lambda e, rd=rd: s.visited(c, e.st, entry, rd(e))),
                    ('sizes %s' % cn, lambda e, rd=rd: FA(lambda i: Implies(And(i >= entry, i < entry + rd(e)), And(z3.Select(lget(e.st, 'size'), i) >= size0, z3.Select(lget(e.st, 'size'), i) <= s.sz(c, e.st)))))]
        return out


class Pick(Ev):
    """asks each ordering in turn and returns the first variable found"""
    q = 'yaga::Combined_order::pick'
    container = 'heuristics'
    def asked(s, c, st, k, none):
        n, L = s.list(c.this); n0 = z3.Int(LOG + '.len'); cs = s.codes(c)
        g = lambda l, i: z3.Select(lget(st, l), i)
        return FA(lambda i: Implies(And(i >= n0, i < n0 + k), And(g('who', i) == z3.Select(L, i - n0), g('ev', i) == EV['pick'], g('a0', i) == cs[0], g('a1', i) == cs[1], Implies(i < n0 + none, g('n', i) == 0))))
    def ensures(s, c):
        n, L = s.list(c.this); st = c.postst; n0 = z3.Int(LOG + '.len'); k = lget(st, 'len') - n0
        r = c.res; has = r.lv[('has',)]
        rets = c.ex.log.get('ret', [])
        same = FALSE if not rets else And(*[z3.simplify(rets[-1].lv[p] == r.lv[p]) for p in r.lv])
        return [('none only if every ordering has none', Implies(Not(has), And(k == n, s.asked(c, st, n, n)))),
                ('the variable of the first ordering that has one', Implies(has, And(k >= 1, k <= n, s.asked(c, st, k, k - 1), same))), ('earlier deliveries stay', s.kept(st))]
    def templates(s, ex, lid, L):
        c = ex.topspec; n0 = z3.Int(LOG + '.len')
        out = [('log kept', lambda e: s.kept(e.st)), ('log grows', lambda e: lget(e.st, 'len') >= n0)]
        for cn, rd in L.counters:
            out += [('asked ' + cn, lambda e, rd=rd: s.asked(c, e.st, rd(e), rd(e))), ('log ' + cn, lambda e, rd=rd: lget(e.st, 'len') == n0 + rd(e))]
        return out


class Add(Contract):
    q = 'yaga::Event_dispatcher::add'
    inline_only = True
    def modifies(s, c): return [c.this.fld('listeners').lv]
    def requires(s, c): return [('size', And(c.this.fld('listeners').len >= 0, c.this.fld('listeners').len < MAXLEN - 1))]
    def ensures(s, c):
        a, b = c.this.fld('listeners'), c.this_.fld('listeners')
        return [('one more', b.len == a.len + 1), ('registered last', z3.Select(b.leaf('[]'), a.len) == c[0].z), ('others stay', range_all(0, a.len, lambda i: z3.Select(b.leaf('[]'), i) == z3.Select(a.leaf('[]'), i)))]


class Remove(Contract):
    q = 'yaga::Event_dispatcher::remove'
    inline_only = True
    def modifies(s, c): return [c.this.fld('listeners').lv]
    def requires(s, c): return [('size', And(c.this.fld('listeners').len >= 0, c.this.fld('listeners').len < MAXLEN - 1))]
    def ensures(s, c):
        a, b = c.this.fld('listeners'), c.this_.fld('listeners'); x = c[0].z
        A, Bb = a.leaf('[]'), b.leaf('[]')
        none = range_all(0, a.len, lambda i: z3.Select(A, i) != x)
        # position of the first occurrence: before it nothing moves, after it everything moves by one
        first = lambda p: And(p >= 0, p < a.len, z3.Select(A, p) == x, range_all(0, p, lambda i: z3.Select(A, i) != x))
        p = z3.Int('anyp')
        return [('nothing changes if it is not registered', Implies(none, And(b.len == a.len, range_all(0, a.len, lambda i: z3.Select(Bb, i) == z3.Select(A, i))))),
                ('its first registration is removed, the order of the others stays', Implies(first(p), And(b.len == a.len - 1, range_all(0, b.len, lambda i: z3.Select(Bb, i) == z3.Select(A, If(i < p, i, i + 1))))))]


def fwd(cls, name, cont):
    return type('%s_%s' % (cls, name), (Ev,), dict(q='yaga::%s::%s' % (cls, name), container=cont))()


HOOKS = ['on_init', 'on_variable_resize', 'on_before_backtrack', 'on_learned_clause', 'on_conflict_resolved', 'on_restart']
CONTRACTS = [fwd('Event_dispatcher', n, 'listeners') for n in HOOKS] + [fwd('Theory_combination', n, 'theory_list') for n in HOOKS + ['decide']] + [fwd('Combined_order', n, 'heuristics') for n in HOOKS]
class Resize(Ev):
    q = 'yaga::Theory_combination::on_variable_resize'
    container = 'theory_list'
    def modifies(s, c): return [(LOG, ()), c.this.fld('current_num_vars').lv]
    def requires(s, c): return Ev.requires(s, c) + [('type', And(c[0].z >= 0, c[0].z < 255))]
    def ensures(s, c):
        a, b = c.this.fld('current_num_vars'), c.this_.fld('current_num_vars')
        return Ev.ensures(s, c) + [('number of variables remembered for theories added later', And(b.len > c[0].z, b.len >= a.len, b[c[0].z].z == c[1].z)),
                                   ('other types unchanged', range_all(0, b.len, lambda i: Implies(i != c[0].z, b[i].z == If(i < a.len, a[i].z, 0))))]


CONTRACTS = [k for k in CONTRACTS if k.q != Resize.q] + [Resize()]
CONTRACTS += [Propagate(), Pick(), Add(), Remove()]
