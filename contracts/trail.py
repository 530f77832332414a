from spec import *

MB = 'heap:yaga::Model_base'
A1 = z3.ArraySort(I, B); A2 = z3.ArraySort(I, A1)


class T:
    """view of a trail in one state"""
    def __init__(s, o):
        s.o = o; s.ex = o.ex; s.st = o.st
        s.n = o.fld('trail').len
        s.lens = o.fld('trail').leaf('[]', 'len')
        s.vo = o.fld('trail').leaf('[]', '[]', 'var', 'number'); s.vt = o.fld('trail').leaf('[]', '[]', 'var', 'var_type')
        s.vr = o.fld('trail').leaf('[]', '[]', 'reason')
        s.lev = o.fld('var_level').leaf('[]', '[]'); s.rea = o.fld('var_reason').leaf('[]', '[]')
        s.levn = o.fld('var_level').leaf('[]', 'len'); s.rean = o.fld('var_reason').leaf('[]', 'len')
        s.nt = o.fld('var_level').len; s.nr = o.fld('var_reason').len; s.nm = o.fld('var_models').len
        s.mod = o.fld('var_models').leaf('[]')
        h = O(s.ex, s.st, LV(MB, (), (), None))
        m = s.st.mem.get(MB, {})
        s.df = m.get(('[]', 'defined', '[]'), z3.Const(MB + '.[].defined.[]', z3.ArraySort(I, z3.ArraySort(I, B))))
        s.dn = m.get(('[]', 'defined', 'len'), z3.Const(MB + '.[].defined.len', z3.ArraySort(I, I)))

    def level(s, t, o): return z3.Select(z3.Select(s.lev, t), o)
    def reason(s, t, o): return z3.Select(z3.Select(s.rea, t), o)
    def num(s, t): return z3.Select(s.levn, t)
    def cnt(s, k): return z3.Select(s.lens, k)
    def var(s, k, i): return z3.Select(z3.Select(s.vt, k), i), z3.Select(z3.Select(s.vo, k), i)
    def rsn(s, k, i): return z3.Select(z3.Select(s.vr, k), i)
    def defined(s, t, o): return z3.Select(z3.Select(s.df, z3.Select(s.mod, t)), o)
    def vrange(s, t, o): return And(t >= 0, t < s.nt, o >= 0, o < s.num(t))

    def shape(s):
        return [('tables agree', And(s.nt == s.nr, s.nt == s.nm, s.nt >= 0, s.nt <= 1000, s.n >= 1, s.n <= INT_MAX)),
                ('one row per variable type', FA(lambda t: Implies(And(t >= 0, t < s.nt), And(z3.Select(s.levn, t) == z3.Select(s.rean, t), z3.Select(s.levn, t) >= 0, z3.Select(s.levn, t) <= MAXVAR,
                                                                   Implies(z3.Select(s.levn, t) > 0, z3.Select(s.mod, t) > 0), Implies(z3.Select(s.mod, t) > 0, z3.Select(s.dn, z3.Select(s.mod, t)) == z3.Select(s.levn, t)))))),
                ('models are separate objects', FA(lambda t, u: Implies(And(t >= 0, t < s.nt, u >= 0, u < s.nt, t != u, z3.Select(s.mod, t) > 0), z3.Select(s.mod, t) != z3.Select(s.mod, u)), 2)),
                ('list sizes', FA(lambda k: Implies(And(k >= 0, k < s.n), And(s.cnt(k) >= 0, s.cnt(k) < MAXLEN))))]

    def entries(s, free=None):
        """every entry of the lists is an assigned variable of a level not above the list's"""
        def f(k, i):
            t, o = s.var(k, i)
            ok = And(s.level(t, o) >= 0, s.level(t, o) <= k)
            if free is not None: ok = Or(ok, And(k > free, s.level(t, o) == -1))
            return Implies(And(k >= 0, k < s.n, i >= 0, i < s.cnt(k)), And(s.vrange(t, o), ok))
        return ('listed variables are assigned', FA(f, 2))

    def listed(s, pos, hi=None):
        """every assigned variable is listed at its level"""
        def f(t, o):
            l = s.level(t, o); p = pos(t, o)
            tt, oo = s.var(l, p)
            return Implies(s.vrange(t, o), And(l >= -1, l < s.n, Implies(l >= 0, And(p >= 0, p < s.cnt(l), tt == t, oo == o)), Implies(l < 0, s.reason(t, o) == 0)))
        return ('assigned variables are listed at their level', FA(f, 2))


POS = z3.Function('pos_pre', I, I, I)


class TrailC(Contract):
    inline_only = True
    def pre(s, c): return T(c.this)
    def wf(s, c):
        t = T(c.this)
        return t.shape() + [t.entries(), t.listed(lambda a, b: POS(a, b))]
    def wf_(s, c, pos):
        t = T(c.this_)
        return [('after: ' + n, f) for n, f in t.shape() + [t.entries(), t.listed(pos)]]


class Trail_level(TrailC):
    q = 'yaga::Trail::decision_level'
    def match(s, p, f): return len(f['params']) == 0
    def requires(s, c): return [('levels', And(T(c.this).n >= 1, T(c.this).n <= INT_MAX))]
    def ensures(s, c): return [('levels', c.ret.z == T(c.this).n - 1)]


class Trail_var_level(TrailC):
    q = 'yaga::Trail::decision_level'
    def match(s, p, f): return len(f['params']) == 1
    def requires(s, c): return s.wf(c) + [('variable', T(c.this).vrange(c[0].var_type.z, c[0].number.z))]
    def ensures(s, c):
        l = T(c.this).level(c[0].var_type.z, c[0].number.z)
        return [('no level iff unassigned', c.ret.leaf('has') == (l >= 0)), ('level of the assignment', Implies(l >= 0, c.ret.leaf('val') == l))]


class Trail_reason(TrailC):
    q = 'yaga::Trail::reason'
    def requires(s, c): return s.wf(c) + [('variable', T(c.this).vrange(c[0].var_type.z, c[0].number.z))]
    def ensures(s, c): return [('reason', c.ret.z == T(c.this).reason(c[0].var_type.z, c[0].number.z))]


class Trail_empty(TrailC):
    q = 'yaga::Trail::empty'
    def requires(s, c): return s.wf(c)
    def ensures(s, c):
        t = T(c.this)
        return [('nothing assigned and level 0', c.ret.z == And(t.n == 1, t.cnt(z3.IntVal(0)) == 0)),
                ('empty means no variable is assigned', Implies(c.ret.z, FA(lambda a, b: Implies(t.vrange(a, b), t.level(a, b) == -1), 2)))]


class Trail_decide(TrailC):
    q = 'yaga::Trail::decide'
    def requires(s, c):
        t = T(c.this); v = (c[0].var_type.z, c[0].number.z)
        return s.wf(c) + [('unassigned variable', And(t.vrange(*v), t.level(*v) == -1)), ('capacity', t.n < INT_MAX)]
    def modifies(s, c): return [c.this.fld(n).lv for n in ('trail', 'var_level', 'var_reason')]
    def ensures(s, c):
        a, b = T(c.this), T(c.this_); v = (c[0].var_type.z, c[0].number.z)
        same = lambda t, o: Implies(Not(And(t == v[0], o == v[1])), And(b.level(t, o) == a.level(t, o), b.reason(t, o) == a.reason(t, o)))
        pos = lambda t, o: If(And(t == v[0], o == v[1]), IntV(0), POS(t, o))
        return [('one level more', b.n == a.n + 1), ('variable is a decision at the new level', And(b.level(*v) == a.n, b.reason(*v) == 0)), ('others unchanged', FA(same, 2)),
                ('the new level holds just the decision', And(b.cnt(a.n) == 1, b.var(a.n, IntV(0))[0] == v[0], b.var(a.n, IntV(0))[1] == v[1])),
                ('lower levels unchanged', FA(lambda k, i: Implies(And(k >= 0, k < a.n), And(b.cnt(k) == a.cnt(k), b.var(k, i)[0] == a.var(k, i)[0], b.var(k, i)[1] == a.var(k, i)[1])), 2))] + s.wf_(c, pos)


class Trail_propagate(TrailC):
    q = 'yaga::Trail::propagate'
    weight = 5
    def requires(s, c):
        t = T(c.this); v = (c[0].var_type.z, c[0].number.z)
        return s.wf(c) + [('unassigned variable', And(t.vrange(*v), t.level(*v) == -1)), ('level', And(c[2].z >= 0, c[2].z < t.n)), ('capacity', FA(lambda k: Implies(And(k >= 0, k < t.n), t.cnt(k) < MAXLEN - 2)))]
    def modifies(s, c): return [c.this.fld(n).lv for n in ('trail', 'var_level', 'var_reason')]
    def lists(s, a, b, v, r, lo, hi, k):
        i = a.cnt(k)
        return And(Implies(And(k >= lo, k < hi), And(b.cnt(k) == i + 1, b.var(k, i)[0] == v[0], b.var(k, i)[1] == v[1], b.rsn(k, i) == r)), Implies(Or(k < lo, k >= hi), b.cnt(k) == i))
    def ensures(s, c):
        a, b = T(c.this), T(c.this_); v = (c[0].var_type.z, c[0].number.z); lev = c[2].z; r = c[1].z
        same = lambda t, o: Implies(Not(And(t == v[0], o == v[1])), And(b.level(t, o) == a.level(t, o), b.reason(t, o) == a.reason(t, o)))
        pos = lambda t, o: If(And(t == v[0], o == v[1]), a.cnt(lev), POS(t, o))
        return [('no new level', b.n == a.n), ('level and reason recorded', And(b.level(*v) == lev, b.reason(*v) == r)), ('others unchanged', FA(same, 2)),
                ('appended to the list of its level and of every later one', FA(lambda k: Implies(And(k >= 0, k < a.n), s.lists(a, b, v, r, lev, a.n, k)))),
                ('earlier entries kept', FA(lambda k, i: Implies(And(k >= 0, k < a.n, i >= 0, i < a.cnt(k)), And(b.var(k, i)[0] == a.var(k, i)[0], b.var(k, i)[1] == a.var(k, i)[1])), 2))] + s.wf_(c, pos)
    def templates(s, ex, lid, L):
        c = ex.topspec
        a = T(c.this); v = (c[0].var_type.z, c[0].number.z); lev = c[2].z; r = c[1].z
        out = []
        cur = lambda e: T(O(e, e.st, c.thislv))
        out.append(('n', lambda e: cur(e).n == a.n))
        for cn, rd in L.counters:
            out.append(('lists ' + cn, lambda e, rd=rd: FA(lambda k: Implies(And(k >= 0, k < a.n), s.lists(a, cur(e), v, r, lev, rd(e), k)))))
            out.append(('listsdown ' + cn, lambda e, rd=rd: FA(lambda k: Implies(And(k >= 0, k < a.n), s.lists(a, cur(e), v, r, rd(e) + 1, a.n, k)))))
        out.append(('kept', lambda e: FA(lambda k, i: Implies(And(k >= 0, k < a.n, i >= 0, i < a.cnt(k)), And(cur(e).var(k, i)[0] == a.var(k, i)[0], cur(e).var(k, i)[1] == a.var(k, i)[1], cur(e).rsn(k, i) == a.rsn(k, i))), 2)))
        return out


class Trail_backtrack(TrailC):
    q = 'yaga::Trail::backtrack'
    weight = 9
    def requires(s, c): return s.wf(c) + [('level', And(c[0].z >= 0, c[0].z < T(c.this).n))]
    def modifies(s, c): return [c.this.fld(n).lv for n in ('trail', 'var_level', 'var_reason')] + [(MB, ('[]', 'defined', '[]'), z3.ArraySort(I, z3.ArraySort(I, B)))]
    def keep(s, a, b, lev):
        return FA(lambda t, o: Implies(And(a.vrange(t, o), a.level(t, o) <= lev), And(b.level(t, o) == a.level(t, o), b.reason(t, o) == a.reason(t, o), Implies(a.level(t, o) >= 0, b.defined(t, o) == a.defined(t, o)))), 2)
    def gone(s, a, b, lev):
        return FA(lambda t, o: Implies(And(a.vrange(t, o), a.level(t, o) > lev), And(b.level(t, o) == -1, b.reason(t, o) == 0, Not(b.defined(t, o)))), 2)
    def gone_some(s, a, b, lev):
        return FA(lambda t, o: Implies(And(a.vrange(t, o), a.level(t, o) > lev), Or(And(b.level(t, o) == a.level(t, o), b.reason(t, o) == a.reason(t, o)), And(b.level(t, o) == -1, b.reason(t, o) == 0, Not(b.defined(t, o))))), 2)
    def lists(s, a, b):
        return FA(lambda k, i: Implies(And(k >= 0, k < b.n), And(b.cnt(k) == a.cnt(k), b.var(k, i)[0] == a.var(k, i)[0], b.var(k, i)[1] == a.var(k, i)[1])), 2)
    def ensures(s, c):
        a, b = T(c.this), T(c.this_); lev = c[0].z
        return [('current level', b.n == lev + 1), ('assignments up to the level are kept', s.keep(a, b, lev)), ('later assignments are undone', s.gone(a, b, lev)), ('lists kept', s.lists(a, b))] + s.wf_(c, POS)
    def templates(s, ex, lid, L):
        c = ex.topspec
        a = T(c.this); lev = c[0].z
        cur = lambda e: T(O(e, e.st, c.thislv))
        out = [('keep', lambda e: s.keep(a, cur(e), lev)), ('gone some', lambda e: s.gone_some(a, cur(e), lev)), ('lists', lambda e: s.lists(a, cur(e))),
               ('above', lambda e: FA(lambda t, o: Implies(And(a.vrange(t, o), a.level(t, o) >= cur(e).n), cur(e).level(t, o) == -1), 2)),
               ('n', lambda e: And(cur(e).n >= lev + 1, cur(e).n <= a.n))]
        for cn, rd in L.counters:
            def f(e, rd=rd):
                b = cur(e)
                def g(i):
                    t, o = b.var(b.n - 1, i)
                    return Implies(And(i >= 0, i < rd(e)), b.level(t, o) <= lev)
                return FA(g)
            out.append(('visited ' + cn, f))
        return out


class Trail_clear(TrailC):
    q = 'yaga::Trail::clear'
    weight = 9
    def requires(s, c): return s.wf(c)
    def modifies(s, c): return [c.this.fld(n).lv for n in ('trail', 'var_level', 'var_reason')] + [(MB, ('[]', 'defined', '[]'), z3.ArraySort(I, z3.ArraySort(I, B)))]
    def ensures(s, c):
        a, b = T(c.this), T(c.this_)
        return [('nothing assigned', FA(lambda t, o: Implies(a.vrange(t, o), And(b.level(t, o) == -1, b.reason(t, o) == 0, Not(b.defined(t, o)))), 2)), ('level 0', And(b.n == 1, b.cnt(IntV(0)) == 0))] + s.wf_(c, POS)
    def templates(s, ex, lid, L):
        c = ex.topspec
        a = T(c.this)
        cur = lambda e: T(O(e, e.st, c.thislv))
        out = []
        lens = lambda e: And(cur(e).levn == a.levn, cur(e).rean == a.rean)
        out.append(('row sizes', lens))
        rel = [('r0', lambda b, t, o: b.reason(t, o) == 0), ('l0', lambda b, t, o: b.level(t, o) == -1), ('d0', lambda b, t, o: Implies(z3.Select(b.mod, t) > 0, Not(b.defined(t, o))))]
        # rows below an outer counter are done; within the current row, entries below an inner counter are done
        cs = list(L.counters)
        outer = getattr(L, 'outer', None)
        terms = [(n, rd) for n, rd, k, loc in s.scope(ex) if k in ('iter', 'int')]
        for pn, P in rel:
            out.append(('all ' + pn, lambda e, P=P: FA(lambda t, o: Implies(a.vrange(t, o), P(cur(e), t, o)), 2)))
            for cn, rd in terms:
                out.append(('rows %s<%s' % (pn, cn), lambda e, P=P, rd=rd: FA(lambda t, o: Implies(And(a.vrange(t, o), t < rd(e)), P(cur(e), t, o)), 2)))
            for cn, rd in cs:
                for dn, rdo in terms:
                    if cn == dn: continue
                    out.append(('row %s %s<%s' % (pn, dn, cn), lambda e, P=P, rd=rd, rdo=rdo: FA(lambda o: Implies(And(o >= 0, o < rd(e), a.vrange(rdo(e), o)), P(cur(e), rdo(e), o)))))
        return out
    def scope(s, ex): return ex.vf.scope_terms(ex)


CONTRACTS = [k() for k in (Trail_level, Trail_var_level, Trail_reason, Trail_empty, Trail_decide, Trail_propagate, Trail_backtrack, Trail_clear)]
