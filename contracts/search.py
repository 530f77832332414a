"""The search loop as a protocol: a ghost state records what has happened; every step of the loop has to be allowed in the
current state and to be given what the earlier steps returned."""
from spec import *
import events, trail
from events import LOG, EV, lget, append, codes
from trail import T

G = 'global:search'
INIT, READY, NONE, CONFLICT, ANALYZED, LEARNED, PICKED, NOPICK, RESTART, BACK = range(10)
EV2 = dict(events.EV); EV2.update({'clear': 20})


def gget(st, *p, sort=I):
    m = st.mem.get(G, {})
    return m.get(p, z3.Const(G + '.' + '.'.join(p), sort))


def gset(ex, v, *p):
    ex.wr_leaf(LV(G, p, (), None), (), v)


def keep(ex, name, val):
    for p, x in val.lv.items():
        if is_z3(x): gset(ex, x, name, *p)


def same(ex, name, val):
    return And(*[gget(ex.st, name, *p, sort=x.sort()) == x for p, x in val.lv.items() if is_z3(x)])


def valof(ex, a):
    return ex.rd(a) if isinstance(a, LV) else a


def step(ex, name, frm, to):
    ph = gget(ex.st, 'ph')
    ex.oblige('%s happens at the right moment of the search' % name, Or(*[ph == f for f in frm]), 'pre')
    gset(ex, IntV(to), 'ph')


def dlevel(ex, this):
    return T(O(ex, ex.st, this.f('solver_trail', ex.w.field(this.ty, 'solver_trail')[0]))).n - 1


def empties(ex, v):
    """some clause of the vector is empty"""
    L = v.lv[('[]', 'len')] if ('[]', 'len') in v.lv else None
    return range_ex(0, v.lv[('len',)], lambda j: z3.Select(L, j) == 0)


def world(w):
    events.world(w)
    N = w.natives
    q = lambda n: ('q', 'yaga::Solver::' + n)

    def n_init(ex, e, this, args):
        step(ex, 'initialization', [INIT], READY)

    def n_prop(ex, e, this, args):
        step(ex, 'propagation', [READY], NONE)
        r = ex.havoc_val(ex.ety(e), 'conflicts')
        gset(ex, If(r.lv[('len',)] > 0, IntV(CONFLICT), IntV(NONE)), 'ph')
        keep(ex, 'conflicts', r)
        lv = ex.fresh(I, 'level'); ex.fact(lv >= 0)
        tr = this.f(ex.w.field(this.ty, 'solver_trail')[1], ex.w.field(this.ty, 'solver_trail')[0])
        ex.wr_leaf(tr, ('trail', 'len'), lv + 1); ex.fact(lv < INT_MAX)
        gset(ex, lv, 'level0')
        return r

    def n_analyze(ex, e, this, args):
        a = ex.bind_args(e, e['fn']['pt'], args)
        ex.oblige('a conflict at level 0 ends the search', gget(ex.st, 'level0') > 0, 'pre')
        ex.oblige('the conflicts found are analyzed', same(ex, 'conflicts', valof(ex, a[0])), 'pre')
        step(ex, 'conflict analysis', [CONFLICT], ANALYZED)
        r = ex.havoc_val(ex.ety(e), 'analyzed')
        f = r.sub('first', ex.ety(e).targs[0])
        keep(ex, 'learned', f); gset(ex, r.lv[('second',)], 'back')
        return r

    def n_learn(ex, e, this, args):
        a = ex.bind_args(e, e['fn']['pt'], args)
        v = valof(ex, a[0])
        ex.oblige('the clauses derived by the analysis are learned', same(ex, 'learned', v), 'pre')
        ex.oblige('an empty learned clause ends the search', Not(empties(ex, v)), 'pre')
        step(ex, 'learning', [ANALYZED], LEARNED)
        r = ex.havoc_val(ex.ety(e), 'range')
        keep(ex, 'range', r)
        return r

    def n_should(ex, e, this, args):
        r = ex.fresh(B, 'restart')
        gset(ex, r, 'should')
        from stl import mk
        return mk(ex, e, r)

    def n_restart(ex, e, this, args):
        ex.oblige('restart only if the policy says so', gget(ex.st, 'should', sort=B), 'pre')
        step(ex, 'restart', [LEARNED], READY)
        gset(ex, FALSE, 'should')

    def n_back(ex, e, this, args):
        a = ex.bind_args(e, e['fn']['pt'], args)
        ex.oblige('the learned clauses are used to backtrack', same(ex, 'range', valof(ex, a[0])), 'pre')
        ex.oblige('the search returns to the level computed', gget(ex.st, 'back') == valof(ex, a[1]).z, 'pre')
        ex.oblige('no backtrack when the policy asks for a restart', Not(gget(ex.st, 'should', sort=B)), 'pre')
        step(ex, 'backtracking', [LEARNED], READY)

    def n_pick(ex, e, this, args):
        step(ex, 'choice of a variable', [NONE], PICKED)
        r = ex.havoc_val(ex.ety(e), 'picked')
        gset(ex, If(r.lv[('has',)], IntV(PICKED), IntV(NOPICK)), 'ph')
        keep(ex, 'picked', r)
        return r

    def n_decide(ex, e, this, args):
        a = ex.bind_args(e, e['fn']['pt'], args)
        v = valof(ex, a[0])
        ex.oblige('the variable chosen is decided', And(*[gget(ex.st, 'picked', 'val', *p) == x for p, x in v.lv.items()]), 'pre')
        step(ex, 'decision', [PICKED], READY)

    for n, f in dict(init=n_init, propagate=n_prop, analyze_conflicts=n_analyze, learn=n_learn, restart=n_restart, backtrack_with=n_back, pick_variable=n_pick, decide=n_decide).items(): N[q(n)] = f
    for c in ('Restart', 'Glucose_restart', 'Luby_restart', 'No_restart'): N[('q', 'yaga::%s::should_restart' % c)] = n_should

    def n_clear(ex, e, this, args):
        append(ex, IntV(-8), EV2['clear'], [IntV(0)] * 4)
    N[('q', 'yaga::Trail::clear')] = n_clear
    for n in events.EV:
        N[('q', 'yaga::Event_dispatcher::' + n)] = events.event(n)


class Check(Contract):
    """unsat only after a conflict at level 0 or an empty learned clause, sat only after a round without conflicts in which no
    variable was left; every other conflict is analyzed, learned and followed by a restart or a return to the computed level"""
    q = 'yaga::Solver::check'
    def setup(s, c): pass
    def modifies(s, c): return [(G, ()), c.this.lv]
    def requires(s, c): return [('ready', And(gget(c.prest, 'ph') == INIT, Not(gget(c.prest, 'should', sort=B)))), ('components', c.this.fld('restart_policy').z > 0)]
    def ensures(s, c):
        st = c.postst; ph = gget(st, 'ph')
        L = gget(st, 'learned', '[]', 'len', sort=z3.ArraySort(I, I)); n = gget(st, 'learned', 'len')
        empty = range_ex(0, n, lambda j: z3.Select(L, j) == 0)
        return [('sat only if nothing is left to decide after a propagation without conflict', Implies(c.ret.z == 1, ph == NOPICK)),
                ('unsat only after a conflict at level 0 or an empty learned clause', Implies(c.ret.z == 0, Or(And(ph == CONFLICT, gget(st, 'level0') == 0), And(ph == ANALYZED, empty)))),
                ('an answer', Or(c.ret.z == 0, c.ret.z == 1))]
    def templates(s, ex, lid, L):
        return [('ready', lambda e: gget(e.st, 'ph') == READY), ('not asked', lambda e: Not(gget(e.st, 'should', sort=B)))]


class Split(Contract):
    q = 'yaga::Solver::is_semantic_split'
    inline_only = True
    def tr(s, c): return T(c.this.fld('solver_trail'))
    def lit(s, c, i):
        v = z3.Select(c[0].leaf('[]', 'value'), i)
        return v
    def requires(s, c):
        t = s.tr(c); n = c[0].len
        import literals
        out = t.shape() + [t.entries(), t.listed(lambda a, b: trail.POS(a, b))]
        for i in (0, 1):
            v = s.lit(c, i)
            out.append(('literal %d is assigned' % i, Implies(n > i, And(lit_ok(v), t.vrange(IntV(0), lit_ord(v)), t.level(IntV(0), lit_ord(v)) >= 0))))
        return out + [('not empty', n >= 0)]
    def ensures(s, c):
        t = s.tr(c); n = c[0].len
        l = lambda i: t.level(IntV(0), lit_ord(s.lit(c, i)))
        return [('two literals of the highest level', c.ret.z == And(n >= 2, l(0) == l(1)))]


class Ev1(events.Ev):
    def requires(s, c): return []
    def setup(s, c):
        events.Ev.setup(s, c)
    def g(s, c, l, i): return z3.Select(lget(c.postst, l), i)


class Prop(Ev1):
    """asks the theory once and returns its conflicts"""
    q = 'yaga::Solver::propagate'
    ev = 'propagate'
    def modifies(s, c): return [(LOG, ()), c.this.lv]
    def ensures(s, c):
        n0 = z3.Int(LOG + '.len'); st = c.postst
        rets = c.ex.log.get('ret', [])
        same = FALSE if not rets else And(*[z3.simplify(rets[-1].lv[p] == c.res.lv[p]) for p in c.res.lv])
        th = c.this.fld('solver_theory').z
        return [('the theory is asked once', And(lget(st, 'len') == n0 + 1, s.g(c, 'ev', n0) == EV[s.ev], s.g(c, 'who', n0) == s.who(c))), ('its answer is returned', same), ('earlier', s.kept(st))]
    def who(s, c): return c.this.fld('solver_theory').z
    def requires(s, c): return [('components', And(c.this.fld('solver_theory').z > 0, c.this.fld('variable_order').z > 0, c.this.fld('restart_policy').z > 0))] + T(c.this.fld('solver_trail')).shape()


class PickV(Prop):
    """asks the ordering once and returns its answer"""
    q = 'yaga::Solver::pick_variable'
    ev = 'pick'
    def who(s, c): return c.this.fld('variable_order').z


class Dec(Prop):
    """lets the theory decide the variable"""
    q = 'yaga::Solver::decide'
    ev = 'decide'
    def ensures(s, c):
        n0 = z3.Int(LOG + '.len'); st = c.postst
        a, b = c[0].number.z, c[0].var_type.z
        return [('the theory decides once', And(lget(st, 'len') == n0 + 1, s.g(c, 'ev', n0) == EV['decide'], s.g(c, 'who', n0) == s.who(c))), ('the variable given', And(s.g(c, 'a2', n0) == a, s.g(c, 'a3', n0) == b)), ('earlier', s.kept(st)),
                ('counted', c.this_.fld('total_decisions').z == c.this.fld('total_decisions').z + 1)]
    def requires(s, c): return Prop.requires(s, c) + [('counter', c.this.fld('total_decisions').z < INT_MAX)]


class Restart(Ev1):
    """announces the return to level 0, clears the trail, announces the restart; in this order"""
    q = 'yaga::Solver::restart'
    def modifies(s, c): return [(LOG, ()), c.this.lv]
    def requires(s, c): return [('counter', c.this.fld('total_restarts').z < INT_MAX)]
    def ensures(s, c):
        n0 = z3.Int(LOG + '.len'); st = c.postst; g = lambda l, i: s.g(c, l, i)
        return [('three steps', lget(st, 'len') == n0 + 3), ('the return to level 0 is announced first', And(g('ev', n0) == EV['on_before_backtrack'], g('a2', n0) == 0)),
                ('then the trail is cleared', g('ev', n0 + 1) == EV2['clear']), ('then the restart is announced', g('ev', n0 + 2) == EV['on_restart']), ('earlier', s.kept(st)),
                ('counted', c.this_.fld('total_restarts').z == c.this.fld('total_restarts').z + 1)]


AI = z3.ArraySort(I, I); AAI = z3.ArraySort(I, AI)


ALEV = z3.Function('level of analysis', I, I); ALEN = z3.Function('length of analysis', I, I); AVAL = z3.Function('clause of analysis', I, AI)


def world2(w):
    N = w.natives

    def n_one(ex, e, this, args):
        r = ex.havoc_val(ex.ety(e), 'analyzed')
        k = gget(ex.st, 'an')
        # what the k-th analysis gives: stated once for each k
        ex.fact(And(k >= 0, k < MAXLEN, ALEV(k) == r.lv[('second',)], (ALEN(k) == 0) == (r.lv[('first', 'len')] == 0)))
        gset(ex, r.lv[('first', 'len')], 'rawlen'); gset(ex, r.lv[('first', '[]', 'value')], 'rawval')
        # the conflict given is the k-th one
        a = ex.lv(args[1])
        v = ex.rd(a)
        con = ex.topspec[0]
        ex.oblige('every conflict is analyzed, in order', And(k < con.len, v.lv[('len',)] == z3.Select(con.leaf('[]', 'len'), k), v.lv[('[]', 'value')] == z3.Select(con.leaf('[]', '[]', 'value'), k)), 'pre')
        gset(ex, k + 1, 'an')
        return r

    def n_min(ex, e, this, args):
        lv = ex.lv(args[1]); v = ex.rd(lv)
        k = gget(ex.st, 'an') - 1
        ex.oblige('the clause just derived is minimized, once', And(gget(ex.st, 'rawlen') == v.lv[('len',)], gget(ex.st, 'rawval', sort=AI) == v.lv[('[]', 'value')], v.lv[('len',)] > 0), 'pre')
        nv = ex.havoc_val(lv.ty, 'minimized')
        ex.fact(nv.lv[('len',)] > 0)
        ex.wr(lv, nv)
        gset(ex, IntV(-1), 'rawlen')
        ex.fact(And(ALEN(k) == nv.lv[('len',)], AVAL(k) == nv.lv[('[]', 'value')]))
    N[('q', 'yaga::Conflict_analysis::analyze')] = n_one
    N[('q', 'yaga::Subsumption::minimize')] = n_min


class Analyze(Contract):
    """every conflict is analyzed once; the clauses learned are those derived at the lowest level, which is returned"""
    q = 'yaga::Solver::analyze_conflicts'
    def modifies(s, c): return [(G, ()), c.this.lv, c.args[0]]
    def requires(s, c): return [('fresh', gget(c.prest, 'an') == 0), ('conflict', c[0].len > 0), ('counters', And(c.this.fld('total_conflicts').z < INT_MAX, c.this.fld('total_conflict_clauses').z < INT_MAX - c[0].len, c.this.fld('total_conflict_clauses').z >= 0)), ('minimizer', c.this.fld('subsumption').z > 0)]
    def low(s, st, lev, n): return FA(lambda k: Implies(And(k >= 0, k < n), lev <= ALEV(k)))
    def eqc(s, ln, vals, st, j, k):
        return And(z3.Select(ln, j) == ALEN(k), Implies(ALEN(k) > 0, z3.Select(vals, j) == AVAL(k)))
    def sound(s, ln, vals, m, st, n, lev):
        return FA(lambda j: Implies(And(j >= 0, j < m), EX(lambda k: And(k >= 0, k < n, ALEV(k) == lev, s.eqc(ln, vals, st, j, k)))))
    def comp(s, ln, vals, m, st, n, lev):
        return FA(lambda k: Implies(And(k >= 0, k < n, ALEV(k) == lev), EX(lambda j: And(j >= 0, j < m, s.eqc(ln, vals, st, j, k)))))
    def ensures(s, c):
        st = c.postst; n = c[0].len; r = c.res; lev = r.lv[('second',)]
        ln, vals, m = r.lv[('first', '[]', 'len')], r.lv[('first', '[]', '[]', 'value')], r.lv[('first', 'len')]
        return [('every conflict is analyzed', gget(st, 'an') == n), ('the lowest level', s.low(st, lev, n)), ('something is learned', m > 0),
                ('only clauses derived at the lowest level', s.sound(ln, vals, m, st, n, lev)), ('all clauses derived at the lowest level', s.comp(ln, vals, m, st, n, lev))]
    def templates(s, ex, lid, L):
        out = [('count', lambda e: And(gget(e.st, 'an') >= 0, gget(e.st, 'an') <= e.topspec[0].len))]
        for cn, rd in L.counters:
            out += [('an=' + cn, lambda e, rd=rd: gget(e.st, 'an') == rd(e)),
                    ('stat ' + cn, lambda e, rd=rd: O(e, e.st, e.topspec.thislv).fld('total_conflict_clauses').z == e.topspec.this.fld('total_conflict_clauses').z + rd(e)),
                    ('rest ' + cn, lambda e, rd=rd: FA(lambda k: Implies(And(k >= rd(e), k < e.topspec[0].len), And(z3.Select(O(e, e.st, e.topspec.args[0]).leaf('[]', 'len'), k) == z3.Select(e.topspec[0].leaf('[]', 'len'), k), z3.Select(O(e, e.st, e.topspec.args[0]).leaf('[]', '[]', 'value'), k) == z3.Select(e.topspec[0].leaf('[]', '[]', 'value'), k)))))]
        out.append(('same len', lambda e: O(e, e.st, e.topspec.args[0]).len == e.topspec[0].len))
        vecs = [lv for lv in ex.frames[-1].vars.values() if isinstance(lv, LV) and lv.ty.k == 'rec' and lv.ty.is_std('std::vector') and not lv.idx]
        for v in vecs:
            for sn, t, kind, _ in ex.vf.scope_terms(ex):
                if kind != "int": continue
                n = lambda e: gget(e.st, 'an')
                P = lambda e, v=v: (O(e, e.st, v).leaf('[]', 'len'), O(e, e.st, v).leaf('[]', '[]', 'value'), O(e, e.st, v).len)
                k = '%s.%s' % (v.root, sn)
                out += [('low ' + k, lambda e, t=t: s.low(e.st, t(e), n(e))), ('init ' + k, lambda e, t=t: Implies(n(e) == 0, t(e) == INT_MAX)), ('first ' + k, lambda e, t=t, P=P: Implies(n(e) > 0, P(e)[2] > 0)),
                        ('sound ' + k, lambda e, t=t, P=P: s.sound(*P(e), e.st, n(e), t(e))), ('comp ' + k, lambda e, t=t, P=P: s.comp(*P(e), e.st, n(e), t(e)))]
        return out


_world1 = world
def world(w):
    _world1(w); world2(w)


CONTRACTS = [Analyze(), Check(), Split(), Prop(), PickV(), Dec(), Restart()]
