"""Function applications (src/uf): the list of variables an application waits for.

ASG: variables which are assigned on the trail (answers of Trail::decision_level, proved for C05)."""
from spec import *

ASG = z3.Function('variable is assigned', I, I, B)
LEVEL = z3.Function('level of an assigned variable', I, I, I)


def world(w):
    def level(ex, e, this, args):
        a = ex.bind_args(e, e['fn']['pt'], args)
        if not a: return None
        v = a[0]; v = ex.rd(v) if isinstance(v, LV) else v
        t, o = v.lv[('var_type',)], v.lv[('number',)]
        return Val(ex.ety(e), {('has',): ASG(t, o), ('val',): LEVEL(t, o)})
    w.natives[('q', 'yaga::Trail::decision_level')] = level


class List:
    def __init__(s, o):
        f = o.fld('to_watch'); s.n = f.len; s.t = f.leaf('[]', 'var_type'); s.o = f.leaf('[]', 'number')
    def at(s, j): return z3.Select(s.t, j), z3.Select(s.o, j)
    def asg(s, j): return ASG(*s.at(j))
    def same(s, j, u, k): return And(z3.Select(s.t, j) == z3.Select(u.t, k), z3.Select(s.o, j) == z3.Select(u.o, k))
    def within(s, u): return FA(lambda j: (Implies(And(j >= 0, j < s.n), z3.Exists([K], And(K >= 0, K < u.n, s.same(j, u, K)), patterns=[z3.Select(u.o, K)])), [z3.Select(s.o, j)]))
    def kept(s, u):
        """MARK is true everywhere (it names the positions at which to look)"""
        return FA(lambda j: (Implies(And(j >= 0, j < s.n, MARK(j)), z3.Exists([K], And(K >= 0, K < u.n, MARK(K), s.same(j, u, K)), patterns=[MARK(K)])), [MARK(j)]))


MARK = z3.Function('mark', I, B)
K = z3.Int('position in the other list')


class Assigned(Contract):
    """the application is complete when the watched variable is assigned"""
    q = 'yaga::Uninterpreted_functions::Assignment_watchlist::all_assigned'
    def requires(s, c): return [('not empty', And(List(c.this).n >= 1, List(c.this).n <= INT_MAX))]
    def ensures(s, c): return [('answer for the watched variable', c.ret.z == List(c.this).asg(IntV(0)))]


class Watched(Contract):
    q = 'yaga::Uninterpreted_functions::Assignment_watchlist::get_watched_var'
    def requires(s, c): return [('not empty', And(List(c.this).n >= 1, List(c.this).n <= INT_MAX))]
    def ensures(s, c):
        t, o = List(c.this).at(IntV(0))
        return [('the first variable', And(c.ret.var_type.z == t, c.ret.number.z == o))]


class On_assign(Contract):
    """when the watched variable becomes assigned another unassigned variable is watched, if there is one"""
    q = 'yaga::Uninterpreted_functions::Assignment_watchlist::on_assign'
    def requires(s, c):
        l = List(c.this)
        return [('not empty', And(l.n >= 1, l.n <= INT_MAX)), ('the watched variable is assigned', l.asg(IntV(0))), ('MARK is true', FA(lambda j: (MARK(j), [MARK(j)])))]
    def modifies(s, c): return [c.this.fld('to_watch').lv]
    def ensures(s, c):
        l, m = List(c.this), List(c.this_)
        return [('the watched variable is assigned only if all are', Implies(m.asg(IntV(0)), range_all(0, m.n, lambda j: m.asg(j)))),
                ('no variable is added', And(m.n == l.n, m.within(l))), ('no variable is lost', l.kept(m)),
                ('a complete list stays', Implies(range_all(0, l.n, lambda j: l.asg(j)), range_all(0, l.n, lambda j: m.same(j, l, j))))]
    def templates(s, ex, lid, L):
        c = ex.topspec; l = List(c.this); m = lambda e: List(O(e, e.st, c.thislv)); out = []
        for cn, rd in L.counters:
            out += [('variables after %s are assigned unless the watched one is not' % cn, lambda e, rd=rd: Or(Not(m(e).asg(IntV(0))), FA(lambda j: (Implies(And(j > rd(e), j < l.n), m(e).asg(j)), [z3.Select(m(e).o, j)])))),
                    ('variables before %s are assigned unless the watched one is not' % cn, lambda e, rd=rd: Or(Not(m(e).asg(IntV(0))), FA(lambda j: (Implies(And(j >= 0, j < rd(e)), m(e).asg(j)), [z3.Select(m(e).o, j)]))))]
        for cn, rd in L.counters: out += [('marks at %s' % cn, lambda e, rd=rd: And(MARK(rd(e)), MARK(rd(e) - 1), MARK(rd(e) + 1), MARK(IntV(0))))]
        return out + [('size', lambda e: m(e).n == l.n), ('no variable is added', lambda e: m(e).within(l)), ('no variable is lost', lambda e: l.kept(m(e))),
                      ('a complete list stays', lambda e: Implies(range_all(0, l.n, lambda j: l.asg(j)), range_all(0, l.n, lambda j: m(e).same(j, l, j))))]


CONTRACTS = [Assigned(), Watched(), On_assign()]
