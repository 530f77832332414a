"""Boolean propagation (src/bool/Bool_theory, src/Theory): replacing watches, decisions, the part of the trail still to propagate.

DEF, VALUE: the current assignment of boolean variables (answers of Model, proved for C04)."""
from spec import *
import subsume
from subsume import HEAP

DEF = z3.Function('variable is defined', I, B)
VALUE = z3.Function('value of variable', I, B)
G = 'global:assigned'


def FALSE(v): return And(DEF(lit_ord(v)), VALUE(lit_ord(v)) == (v < 0))


def world(w):
    from stl import mk

    def evall(ex, e, this, args):
        if ex.prog.types[e['fn']['pt'][1]].nonref().s != 'yaga::Literal': return evalc(ex, e, this, args)
        a = ex.bind_args(e, e['fn']['pt'], args)[1]; a = ex.rd(a) if isinstance(a, LV) else a
        v = a.lv[('value',)]
        return Val(ex.ety(e), {('has',): DEF(lit_ord(v)), ('val',): VALUE(lit_ord(v)) == (v > 0)})

    def evalc(ex, e, this, args):
        c = O(ex, ex.st, ex.bind_args(e, e['fn']['pt'], args)[1])
        b = ex.fresh(B, 'ev'); h = ex.fresh(B, 'evh')
        ex.fact(And(h, Not(b)) == range_all(0, c.len, lambda j: FALSE(z3.Select(c.leaf('[]', 'value'), j))))
        return Val(ex.ety(e), {('has',): h, ('val',): b})
    w.natives[('q', 'yaga::eval')] = evall
    w.natives[('q', 'yaga::Trail::model')] = lambda ex, e, this, args: ex.new_root('%s:model%s' % (ex.ctxname(), e['_i']), ex.ety(e).nonref())

    def event(kind):
        def f(ex, e, this, args):
            a = ex.bind_args(e, e['fn']['pt'], args)
            g = lambda n, s: ex.st.mem.get(G, {}).get((n,), z3.Const(G + '.' + n, s))
            put = lambda n, x: ex.wr_leaf(LV(G, (n,), (), None), (), x)
            if kind == 'set': put('set', g('set', I) + 1); put('ord', a[0].z); put('val', a[1].z)
            else:
                v = a[0]; v = ex.rd(v) if isinstance(v, LV) else v
                put('dec', g('dec', I) + 1); put('decided', v.lv[('number',)])
        return f
    w.natives[('q', 'yaga::Model<bool>::set_value')] = event('set')
    w.natives[('q', 'yaga::Trail::decide')] = event('dec')


def ghost(st, n, sort=I): return st.mem.get(G, {}).get((n,), z3.Const(G + '.' + n, sort))


def watch_lists(o): return o.fld('watched').fld('values')


class Replace(Contract):
    q = 'yaga::Bool_theory::replace_second_watch'
    def clause(s, c, st): return HEAP(c.ex, st), c[1].clause.z
    def requires(s, c):
        h, a = s.clause(c, c.prest); n = h.n(a); w = watch_lists(c.this)
        return [('clause of two or more', And(a > 0, n >= 2, n <= INT_MAX)), ('second literal is false', FALSE(h.at(a, IntV(1)))), ('index', Implies(n > 2, And(c[1].index.z >= 2, c[1].index.z < n))),
                ('literals', FA(lambda j: (Implies(And(j >= 0, j < n), And(lit_ok(h.at(a, j)), lit_idx(h.at(a, j)) < w.len)), [h.at(a, j)])))]
    def modifies(s, c): return [c.this.fld('watched').lv, c.args[1], (HEAP(c.ex, c.prest).root, ())]
    def ensures(s, c):
        h, a = s.clause(c, c.prest); u = HEAP(c.ex, c.postst); n = h.n(a); r = c.ret.z
        w, x = watch_lists(c.this), watch_lists(c.this_)
        wl = lambda o: o.leaf('[]', 'len'); wc = lambda o: o.leaf('[]', '[]', 'clause'); wi = lambda o: o.leaf('[]', '[]', 'index')
        l = u.at(a, IntV(1)); k = lit_idx(l); m = z3.Select(wl(w), k); i = c.post(1).index.z
        return [('no replacement: all further literals are false', Implies(Not(r), And(FA(lambda j: (Implies(And(j >= 2, j < n), FALSE(h.at(a, j))), [h.at(a, j)]))))),
                ('no replacement: nothing changes', Implies(Not(r), And(wl(x) == wl(w), FA(lambda j: Implies(And(j >= 0, j < n), u.at(a, j) == h.at(a, j)))))),
                ('the new watch is not false', Implies(r, Not(FALSE(l)))),
                ('two literals of the clause are swapped', And(u.n(a) == n, Implies(r, And(i >= 2, i < n, l == h.at(a, i), u.at(a, i) == h.at(a, IntV(1)), FA(lambda j: Implies(And(j >= 0, j < n, j != 1, j != i), u.at(a, j) == h.at(a, j))))))),
                ('other clauses stay', FA(lambda b, j: Implies(b != a, And(u.at(b, j) == h.at(b, j), u.n(b) == h.n(b))), 2)),
                ('the clause is watched by the new literal', Implies(r, And(z3.Select(wl(x), k) == m + 1, z3.Select(z3.Select(wc(x), k), m) == a, z3.Select(z3.Select(wi(x), k), m) == i))),
                ('other watches stay', Implies(r, FA(lambda q, j: Implies(Or(q != k, j < m), And(Implies(q != k, z3.Select(wl(x), q) == z3.Select(wl(w), q)), z3.Select(z3.Select(wc(x), q), j) == z3.Select(z3.Select(wc(w), q), j))), 2))),
                ('index stays in the clause', And(c.post(1).clause.z == a, Implies(n > 2, And(i >= 2, i < n))))]
    def templates(s, ex, lid, L):
        c = ex.topspec; h, a = s.clause(c, c.prest); n = h.n(a); end = c[1].index.z
        i = lambda e: O(e, e.st, c.args[1]).index.z
        return [('visited literals are false', lambda e: FA(lambda j: (Implies(Or(And(i(e) > end, j >= end, j < i(e)), And(i(e) < end, Or(And(j >= end, j < n), And(j >= 2, j < i(e))))), FALSE(h.at(a, j))), [h.at(a, j)]))),
                ('index', lambda e: And(i(e) >= 2, i(e) < n)), ('clause', lambda e: O(e, e.st, c.args[1]).clause.z == a),
                ('clauses', lambda e: And(HEAP(e, e.st).data == h.data, HEAP(e, e.st).lens == h.lens)), ('lists', lambda e: And(*[watch_lists(O(e, e.st, c.thislv)).leaf(*q) == watch_lists(c.this).leaf(*q) for q in (('[]', 'len'), ('[]', '[]', 'clause'), ('[]', '[]', 'index'), ('len',))]))]


class Decide(Contract):
    q = 'yaga::Bool_theory::decide'
    def requires(s, c):
        o = c[2].number.z; p = c.this.fld('phase')
        return [('variable', And(o >= 0, o < p.len)), ('a phase strategy', And(c.this.fld('var_phase').z >= 0, c.this.fld('var_phase').z <= 2))]
    def modifies(s, c): return [(G, ())]
    def ensures(s, c):
        o, t = c[2].number.z, c[2].var_type.z; ph = c.this.fld('var_phase').z; a, b = c.prest, c.postst
        return [('other types are left alone', Implies(t != 0, And(ghost(b, 'set') == ghost(a, 'set'), ghost(b, 'dec') == ghost(a, 'dec')))),
                ('assigned and decided once', Implies(t == 0, And(ghost(b, 'set') == ghost(a, 'set') + 1, ghost(b, 'ord') == o, ghost(b, 'dec') == ghost(a, 'dec') + 1, ghost(b, 'decided') == o))),
                ('the phase asked for', Implies(t == 0, ghost(b, 'val', B) == If(ph == 0, z3.BoolVal(True), If(ph == 1, z3.BoolVal(False), z3.Select(c.this.fld('phase').leaf('[]'), o)))))]


class Forget(Contract):
    """backtracking makes the next request for assigned variables start over"""
    q = 'yaga::Theory::on_before_backtrack'
    def modifies(s, c): return [c.this.fld('current_level').lv, c.this.fld('next_index').lv]
    def ensures(s, c): return [('starts over', And(c.this_.fld('current_level').z == -1, c.this_.fld('next_index').z == 0))]


CONTRACTS = [Replace(), Decide(), Forget()]
