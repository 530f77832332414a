"""Conflict analysis (src/Conflict_analysis): the derived clause follows by resolution, is false, and tells the level to return to.

LEV: decision level of a boolean variable (answers of Trail::decision_level, proved for C05). CNT(S, t): the number of literals of
the set S at level t. TRUE: an arbitrary assignment that satisfies the clauses of the database. FALSE: the current assignment."""
from spec import *
import trail, subsume

SA = z3.ArraySort(I, B)
LEV = z3.Function('level of variable', I, I)
CNT = z3.Function('literals at level', SA, I, I)
TRUE = z3.Function('true in a model of the database', I, B)
FALSE = z3.Function('false in the current assignment', I, B)
POS = z3.Function('position in the clause', I, I)
VALUE = z3.Function('value of variable', I, B)
lev = lambda v: LEV(lit_ord(v))


def occurs(ex, h):
    k = z3.Int('k!oc')
    t = z3.Int('t!oc')
    ex.fact(z3.ForAll([k, t], Implies(And(z3.Select(h, k), lev(k) == t), CNT(h, t) >= 1), patterns=[z3.MultiPattern(z3.Select(h, k), CNT(h, t))]))


def world(w):
    from stl import mk, lvof

    def dlevel(ex, e, this, args):
        v = ex.bind_args(e, e['fn']['pt'], args)[0]; v = ex.rd(v) if isinstance(v, LV) else v
        l = LEV(v.lv[('number',)])
        return Val(ex.ety(e), {('has',): l >= 0, ('val',): l})
    w.natives[('q', 'yaga::Trail::decision_level')] = dlevel

    def evalc(ex, e, this, args):
        a = ex.bind_args(e, e['fn']['pt'], args)[1]
        c = O(ex, ex.st, a)
        b = ex.fresh(B, 'ev'); h = ex.fresh(B, 'evh')
        ex.fact(And(h, Not(b)) == range_all(0, c.len, lambda j: FALSE(z3.Select(c.leaf('[]', 'value'), j))))
        return Val(ex.ety(e), {('has',): h, ('val',): b})
    w.natives[('q', 'yaga::eval')] = evalc
    w.natives[('q', 'yaga::Trail::model')] = lambda ex, e, this, args: ex.new_root('%s:model%s' % (ex.ctxname(), e['_i']), ex.ety(e).noref() if hasattr(ex.ety(e), 'noref') else ex.ety(e))

    def shook(ex, this, old, k, h, ins):
        new = ex.rd_raw(ex.st, this, ('has',))
        t = z3.Int('t!cnt')
        d = If(And(Not(h), lev(k) == t), IntV(1), IntV(0)) if ins else If(And(h, lev(k) == t), IntV(-1), IntV(0))
        ex.fact(z3.ForAll([t], And(CNT(new, t) == CNT(old, t) + d, CNT(new, t) >= 0, CNT(new, t) <= ex.rdl(this, 'size')), patterns=[CNT(new, t)])); occurs(ex, new)
        ex.fact(ex.rdl(this, 'size') <= 2**30)         # at most one literal of each variable is false
    w.set_hook = shook; w.opt_checked = True
    w.natives[('q', 'yaga::Model<bool>::value')] = lambda ex, e, this, args: mk(ex, e, VALUE(ex.bind_args(e, e['fn']['pt'], args)[0].z))
    w.callback = lambda ex, e, this, args: Val(ex.ety(e), {})      # told of each clause used; changes neither the trail nor the analysis

    def chook(ex, it, i, p, n):
        # counting the elements with a property that is "at level t" on the set counts the literals at level t
        ords, pos, (h, sz) = it.data[0], it.data[1], (ex.rd_raw(ex.st, it.lv, ('has',)), ex.rdl(it.lv, 'size'))
        t, j = z3.Ints('t!ch j!ch')
        same = z3.ForAll([j], Implies(And(j >= 0, j < sz), z3.substitute(p, (i, j)) == (lev(ords[0](j)) == t)), patterns=[ords[0](j)])
        ex.fact(z3.ForAll([t], Implies(same, n == CNT(h, t)), patterns=[CNT(h, t)]))
        occurs(ex, h)
    w.count_hook = chook


def O0(e, c): return O(e, e.st, c.this.lv)


class SET:
    def __init__(s, o):
        s.o = o; f = o.fld('conflict')
        s.h = f.leaf('has'); s.size = f.leaf('size'); s.top = o.top_level.z; s.num = o.num_top_level.z
    def __getitem__(s, k): return z3.Select(s.h, k)
    def all(s, f): return FA(lambda k: (Implies(s[k], f(k)), [s[k]]))
    def ok(s):
        return [('set of assigned literals', And(s.size >= 0, s.size <= 2**30, CNT(s.h, s.top) >= 0, CNT(s.h, s.top) <= s.size, s.all(lambda k: And(lit_ok(k), lev(k) >= 0, lev(k) <= s.top, FALSE(k))))), ('counts the literals at the top level', s.num == CNT(s.h, s.top))]


class CLS:
    def __init__(s, o): s.n = o.len; s.d = o.leaf('[]', 'value')
    def __getitem__(s, i): return z3.Select(s.d, i)
    def all(s, f): return FA(lambda j: (Implies(And(j >= 0, j < s.n), f(s[j])), [s[j]]))
    def some(s, f): return Not(FA(lambda j: (Implies(And(j >= 0, j < s.n), Not(f(s[j]))), [s[j]])))


class Init(Contract):
    q = 'yaga::Conflict_analysis::init'
    def requires(s, c):
        a = CLS(c[1])
        return [('clause is false', And(a.n >= 0, a.n < 2**29, a.all(lambda v: And(lit_ok(v), lev(v) >= 0, FALSE(v)))))]
    def modifies(s, c): return [c.this.fld(n).lv for n in ('conflict', 'top_level', 'num_top_level')]
    def ensures(s, c):
        a, t = CLS(c[1]), SET(c.this_)
        return t.ok() + [('literals of the clause', And(a.all(lambda v: t[v]), t.all(lambda k: a.some(lambda v: v == k)))),
                         ('true in every model that satisfies the clause', Implies(a.some(lambda v: TRUE(v)), EX(lambda k: And(t[k], TRUE(k))))),
                         ('top level is the highest', And(Implies(a.n > 0, t.num >= 1), t.top >= 0, Implies(a.n > 0, a.some(lambda v: lev(v) == t.top))))]
    def templates(s, ex, lid, L):
        c = ex.topspec; a = CLS(c[1]); out = []
        st = lambda e: SET(O0(e, c))
        for n, rd in L.counters:
            out += [('inserted ' + n, lambda e, rd=rd: FA(lambda j: (Implies(And(j >= 0, j < rd(e)), And(st(e)[a[j]], lev(a[j]) <= st(e).top)), [a[j]]))),
                    ('only ' + n, lambda e, rd=rd: st(e).all(lambda k: EX(lambda j: And(j >= 0, j < rd(e), a[j] == k)))),
                    ('start ' + n, lambda e, rd=rd: Implies(rd(e) == 0, st(e).top == 0)), ('max ' + n, lambda e, rd=rd: Implies(rd(e) > 0, Not(FA(lambda j: (Implies(And(j >= 0, j < rd(e)), lev(a[j]) != st(e).top), [a[j]])))))]
        out += [('size ' + n, lambda e, rd=rd: And(st(e).size >= 0, st(e).size <= rd(e))) for n, rd in L.counters] + [('set ok', lambda e: st(e).all(lambda k: And(lit_ok(k), lev(k) >= 0, lev(k) <= st(e).top, FALSE(k)))), ('top', lambda e: st(e).top >= 0)]
        return out


class Resolve(Contract):
    """resolution of the set with a reason on one of its literals"""
    q = 'yaga::Conflict_analysis::resolve'
    def requires(s, c):
        o, l, t = CLS(c[1]), c[2].value.z, SET(c.this)
        return t.ok() + [('the literal is in the set', And(t[l], lit_ok(l), lev(l) == t.top)),
                         ('the reason implies the complement', And(o.n >= 0, o.n < 2**58, o.some(lambda v: v == -l), o.all(lambda v: And(lit_ok(v), v != l, lev(v) >= 0, lev(v) <= t.top, Or(v == -l, FALSE(v))))))]
    def modifies(s, c): return [c.this.fld(n).lv for n in ('conflict', 'num_top_level')]
    def ensures(s, c):
        o, l, t, u = CLS(c[1]), c[2].value.z, SET(c.this), SET(c.this_)
        return u.ok() + [('the resolvent', And(t.all(lambda k: Or(k == l, u[k])), o.all(lambda v: Or(v == -l, u[v])), u.all(lambda k: And(k != l, Or(t[k], o.some(lambda v: And(v == k, v != -l))))))),
                         ('another literal at the level stays', Implies(o.some(lambda v: And(v != -l, lev(v) == t.top)), u.num >= 1)),
                         ('follows from the set and the reason', Implies(And(EX(lambda k: And(t[k], TRUE(k))), o.some(lambda v: TRUE(v)), Not(And(TRUE(l), TRUE(-l)))), EX(lambda k: And(u[k], TRUE(k)))))]
    def templates(s, ex, lid, L):
        c = ex.topspec; o, l, t = CLS(c[1]), c[2].value.z, SET(c.this); out = []
        st = lambda e: SET(O0(e, c))
        for n, rd in L.counters:
            out += [('inserted ' + n, lambda e, rd=rd: FA(lambda j: (Implies(And(j >= 0, j < rd(e), o[j] != -l), st(e)[o[j]]), [o[j]]))),
                    ('only ' + n, lambda e, rd=rd: st(e).all(lambda k: Or(t[k], EX(lambda j: And(j >= 0, j < rd(e), o[j] == k, k != -l)))))]
        out += [('kept', lambda e: t.all(lambda k: st(e)[k])), ('top', lambda e: st(e).top == t.top), ('count', lambda e: st(e).num == CNT(st(e).h, t.top)),
                ('size', lambda e: And(st(e).size >= 0, st(e).size <= 2**30, CNT(st(e).h, t.top) >= 0, CNT(st(e).h, t.top) <= st(e).size)), ('set ok', lambda e: st(e).all(lambda k: And(lit_ok(k), lev(k) >= 0, lev(k) <= st(e).top, FALSE(k))))]
        return out


class Finish(Contract):
    q = 'yaga::Conflict_analysis::finish'
    def requires(s, c):
        t = SET(c.this)
        return t.ok() + [('levels', And(t.top >= 0, t.top < INT_MAX))]
    def modifies(s, c): return []
    def lemmas(s, c):
        """counting: at most one literal at the level means two literals of the set at that level are equal; size and counts agree"""
        t = SET(c.this); h = t.h
        one = FA(lambda a, b: (Implies(And(CNT(h, t.top) <= 1, t[a], t[b], lev(a) == t.top, lev(b) == t.top), a == b), [z3.MultiPattern(t[a], t[b])]), 2)
        ax, ay = z3.Ints('top!a top!b')
        return [And(one, CNT(h, t.top) >= 0, CNT(h, t.top) <= t.size, Implies(CNT(h, t.top) >= 1, And(t[ax], lev(ax) == t.top)), Implies(CNT(h, t.top) >= 2, And(t[ax], t[ay], ax != ay, lev(ay) == t.top)))]
    def ensures(s, c):
        t = SET(c.this); r = c.ret.fld('first'); lv = c.ret.fld('second').z; a = CLS(r)
        lits = And(a.n == t.size, a.all(lambda v: t[v]), t.all(lambda k: a.some(lambda v: v == k)))
        order = FA(lambda i, j: (Implies(And(i >= 0, i < j, j < a.n), lev(a[i]) >= lev(a[j])), [z3.MultiPattern(a[i], a[j])]), 2)
        dist = FA(lambda i, j: (Implies(And(i >= 0, i < j, j < a.n), a[i] != a[j]), [z3.MultiPattern(a[i], a[j])]), 2)
        known = And(lits, order, dist)      # proved on their own; the rest follows from them
        return [('the literals of the set', lits),
                ('no literal twice', dist), ('ordered by level', order),
                ('false under the assignment', a.all(lambda v: FALSE(v))),
                ('empty clause ends the search', Implies(a.n == 0, lv == -1)),
                ('asserting level', Implies(And(known, a.n > 0, t.num == 1), And(lev(a[IntV(0)]) == t.top, lv <= t.top, lv >= 0, Implies(t.top > 0, lv < t.top), FA(lambda j: (Implies(And(j >= 1, j < a.n), lev(a[j]) <= lv), [a[j]]))))),
                ('not lower than needed', Implies(And(a.n > 1, t.num == 1), lv == lev(a[IntV(1)]))),
                ('semantic split', Implies(And(known, a.n > 0, t.num >= 2), And(lv == t.top - 1, lev(a[IntV(0)]) == t.top, lev(a[IntV(1)]) == t.top)))]


class Analyze(Contract):
    """the whole derivation: every reason on the trail is a clause of the database, so the result holds in every model of it"""
    q = 'yaga::Conflict_analysis::analyze'
    inline_only = True
    def match(s, p, f): return len(f['params']) == 3
    def reasons(s, c):
        t, h = trail.T(c[0]), subsume.HEAP(c.ex, c.prest)
        def f(k, i):
            ty, o = t.var(k, i); r = t.rsn(k, i)
            l = If(VALUE(o), -(o + 1), o + 1); R = z3.Select(h.data, r)
            alln = FA(lambda j: (Implies(And(j >= 0, j < h.n(r)), And(lit_ok(R[j]), R[j] != l, lev(R[j]) >= 0, lev(R[j]) <= k, Or(R[j] == -l, FALSE(R[j])))), [R[j]]))
            some = lambda g: Not(FA(lambda j: (Implies(And(j >= 0, j < h.n(r)), Not(g(R[j]))), [R[j]])))
            return (Implies(And(k >= 0, k < t.n, i >= 0, i < t.cnt(k), ty == 0, r != 0, LEV(o) == k), And(o >= 0, o < MAXVAR, r > 0, h.n(r) >= 1, h.n(r) < 2**58, alln, some(lambda v: v == -l), some(lambda v: TRUE(v)), Implies(k > 0, some(lambda v: And(v != -l, lev(v) == k))))), [r])
        g = lambda k, i: Implies(And(k >= 0, k < t.n, i >= 0, i < t.cnt(k), t.var(k, i)[0] == 0), LEV(t.var(k, i)[1]) >= 0)
        return And(FA(f, 2), FA(g, 2))
    def requires(s, c):
        a, t = CLS(c[1]), trail.T(c[0])
        return [('clause is false', And(a.n > 0, a.n < 2**29, a.all(lambda v: And(lit_ok(v), lev(v) >= 0, lev(v) < t.n, FALSE(v))), a.some(lambda v: TRUE(v)))),
                ('trail', And(t.n >= 1, t.n < INT_MAX, FA(lambda k: (Implies(And(k >= 0, k < t.n), And(t.cnt(k) >= 0, t.cnt(k) < MAXLEN)), [t.cnt(k)])))), ('a model is consistent', FA(lambda v: (Not(And(TRUE(v), TRUE(-v))), [TRUE(v)]))), ('reasons', s.reasons(c))]
    def modifies(s, c): return [c.this.fld(n).lv for n in ('conflict', 'top_level', 'num_top_level')]
    def ensures(s, c):
        t = SET(c.this_); r = c.ret.fld('first'); lv = c.ret.fld('second').z; a = CLS(r)
        return [('holds in every model of the database', a.some(lambda v: TRUE(v))), ('false under the assignment', a.all(lambda v: FALSE(v))),
                ('ordered by level', FA(lambda i, j: (Implies(And(i >= 0, i < j, j < a.n), lev(a[i]) >= lev(a[j])), [z3.MultiPattern(a[i], a[j])]), 2)),
                ('asserting or a split at the conflict level', Implies(t.top > 0, Or(And(lev(a[IntV(0)]) == t.top, lv >= 0, lv < t.top, FA(lambda j: (Implies(And(j >= 1, j < a.n), lev(a[j]) <= lv), [a[j]]))), And(a.n >= 2, lv == t.top - 1, lev(a[IntV(0)]) == t.top, lev(a[IntV(1)]) == t.top)))),
                ('conflict level', CLS(c[1]).some(lambda v: lev(v) == t.top))]
    def templates(s, ex, lid, L):
        c = ex.topspec
        st = lambda e: SET(O0(e, c)); t = trail.T(c[0])
        return [('ok %d' % i, lambda e, i=i: st(e).ok()[i][1]) for i in range(2)] + [('true', lambda e: Not(st(e).all(lambda k: Not(TRUE(k))))), ('count', lambda e: Or(st(e).top == 0, st(e).num >= 1)), ('top', lambda e: And(st(e).top >= 0, st(e).top < t.n)), ('highest', lambda e: CLS(c[1]).some(lambda v: lev(v) == st(e).top))]


CONTRACTS = [Init(), Resolve(), Finish(), Analyze()]
