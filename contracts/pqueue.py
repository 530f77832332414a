"""The variable priority queue is a 4-ary max heap with a position table."""
from spec import *

CAPACITY = True
PATTERNS = False
PQ = 'yaga::Variable_priority_queue'


class Q:
    def __init__(s, o):
        s.o = o
        s.n = o.fld('pq').len
        s.o_ = o.fld('pq').leaf('[]', 'first', 'number'); s.t_ = o.fld('pq').leaf('[]', 'first', 'var_type'); s.s_ = o.fld('pq').leaf('[]', 'second')
        s.pos = o.fld('position').leaf('[]', '[]'); s.plen = o.fld('position').leaf('[]', 'len'); s.pn = o.fld('position').len
    def ord(s, i): return z3.Select(s.o_, i)
    def typ(s, i): return z3.Select(s.t_, i)
    def sc(s, i): return z3.Select(s.s_, i)
    def row(s, t): return z3.Select(s.plen, t)
    def p(s, t, o): return z3.Select(z3.Select(s.pos, t), o)
    def inrow(s, t, o): return And(t >= 0, t < s.pn, o >= 0, o < s.row(t))
    def before(s, i, j):
        return Or(s.sc(i) > s.sc(j), And(s.sc(i) == s.sc(j), Or(s.typ(i) < s.typ(j), And(s.typ(i) == s.typ(j), s.ord(i) < s.ord(j)))))

    def table(s, loose=False):
        return [('sizes', And(s.n >= 0, s.n < MAXLEN, s.pn >= 0, s.pn < 1000, FA(lambda t: Implies(And(t >= 0, t < s.pn), And(s.row(t) >= 0, s.row(t) <= MAXVAR))))),
                ('each variable of the heap is at its recorded position', FA(lambda i: Implies(And(i >= 0, i < s.n), And(s.inrow(s.typ(i), s.ord(i)), s.p(s.typ(i), s.ord(i)) == i)))),
                ('each recorded position holds the variable', FA(lambda t, o: Implies(s.inrow(t, o), Or(s.p(t, o) == -1, And(TRUE if loose else FALSE, s.p(t, o) >= s.n), And(s.p(t, o) >= 0, s.p(t, o) < s.n, s.typ(s.p(t, o)) == t, s.ord(s.p(t, o)) == o))), 2))]

    def heap(s, lo=None, but=None, top=None):
        """no child goes before its parent (for parents from lo on, other than but, children other than top)"""
        def f(p, c):
            h = And(p >= 0, c < s.n, 4 * p + 1 <= c, c <= 4 * p + 4)
            if lo is not None: h = And(h, p >= lo)
            if but is not None: h = And(h, p != but)
            if top is not None: h = And(h, c != top)
            return Implies(h, Not(s.before(c, p)))
        return FA(f, 2)

    def grand(s, k):
        """children of k do not go before the parent of k"""
        return FA(lambda p, c: Implies(And(p >= 0, 4 * p + 1 <= k, k <= 4 * p + 4, c < s.n, 4 * k + 1 <= c, c <= 4 * k + 4), Not(s.before(c, p))), 2)

    def has(s, t, o): return And(s.inrow(t, o), s.p(t, o) != -1)
    def score(s, t, o): return s.sc(s.p(t, o))

    def same(a, b):
        """b holds the same variables with the same scores as a"""
        return And(a.n == b.n, a.pn == b.pn, FA(lambda t: Implies(And(t >= 0, t < a.pn), a.row(t) == b.row(t))),
                   FA(lambda t, o: Implies(a.inrow(t, o), And((a.p(t, o) == -1) == (b.p(t, o) == -1), (a.p(t, o) >= a.n) == (b.p(t, o) >= a.n), Implies(And(a.p(t, o) != -1, a.p(t, o) < a.n), a.score(t, o) == b.score(t, o)))), 2))


class QC(Contract):
    def cur(s, e): return Q(O(e, e.st, e.topspec.thislv))
    def modifies(s, c): return [c.this.fld('pq').lv, c.this.fld('position').lv]
    def setup(s, c):
        if c.args and c.ex.w.is_iter(c.args[0].ty): c.args[0] = Val(c.args[0].ty, {(): Iter(c.this.fld('pq').lv, z3.Int('it'))})
    def it(s, c): return c.args[0].lv[()].idx


class Fix_up(QC):
    q = PQ + '::fix_up'
    def requires(s, c):
        a = Q(c.this); k = s.it(c)
        return a.table() + [('position', And(k >= 0, k < a.n)), ('heap except at the node', a.heap(top=k)), ('children are below the parent', a.grand(k))]
    def ensures(s, c):
        a, b = Q(c.this), Q(c.this_)
        return b.table() + [('heap', b.heap()), ('same variables and scores', a.same(b))]
    def templates(s, ex, lid, L):
        a = Q(ex.topspec.this)
        out = [('same', lambda e: a.same(s.cur(e)))]
        out += [(n, lambda e, i=i: s.cur(e).table()[i][1]) for i, (n, _) in enumerate(a.table())]
        for cn, rd in L.counters:
            out += [('heap but ' + cn, lambda e, rd=rd: s.cur(e).heap(top=rd(e))), ('grand ' + cn, lambda e, rd=rd: s.cur(e).grand(rd(e)))]
        return out


class Fix_down(QC):
    q = PQ + '::fix_down'
    weight = 3
    def requires(s, c):
        a = Q(c.this); k = s.it(c)
        return a.table(loose=True) + [('position', And(k >= 0, k < a.n)), ('heap below the node, or everywhere but there', Or(a.heap(lo=k + 1), And(a.heap(but=k), a.grand(k))))]
    def ensures(s, c):
        a, b = Q(c.this), Q(c.this_); k = s.it(c)
        return b.table(loose=True) + [('heap at and below the node', Implies(a.heap(lo=k + 1), b.heap(lo=k))), ('heap', Implies(And(a.heap(but=k), a.grand(k)), b.heap())), ('same variables and scores', a.same(b))]
    def templates(s, ex, lid, L):
        a = Q(ex.topspec.this); k = s.it(ex.topspec)
        out = [('same', lambda e: a.same(s.cur(e)))]
        out += [(n, lambda e, i=i: s.cur(e).table(loose=True)[i][1]) for i, (n, _) in enumerate(a.table(loose=True))]
        for cn, rd in L.counters:
            out += [('heap but ' + cn, lambda e, rd=rd: Implies(And(a.heap(but=k), a.grand(k)), And(s.cur(e).heap(but=rd(e)), s.cur(e).grand(rd(e))))),
                    ('subheap but ' + cn, lambda e, rd=rd: Implies(a.heap(lo=k + 1), And(s.cur(e).heap(lo=k, but=rd(e)), FA(lambda p, c: Implies(And(p >= k, 4 * p + 1 <= rd(e), rd(e) <= 4 * p + 4, c < a.n, 4 * rd(e) + 1 <= c, c <= 4 * rd(e) + 4), Not(s.cur(e).before(c, p))), 2))))]
            for dn, rd2 in L.counters:
                if cn == dn: continue
                out += [('range %s of %s by %d' % (cn, dn, x), lambda e, rd=rd, rd2=rd2, x=x: rd(e) == If(4 * rd2(e) + x < a.n, 4 * rd2(e) + x, a.n)) for x in (1, 5)]
                out += [('max %s of %s' % (dn, cn), lambda e, rd=rd, rd2=rd2: FA(lambda c: Implies(And(c >= 4 * ((rd2(e) - 1) / 4) + 1, c < rd(e)), Not(s.cur(e).before(c, rd2(e))))))]
        return out


class Var:
    def __init__(s, o): s.t, s.o = o.fld('var_type').z, o.fld('number').z


class Queue(QC):
    inline_only = True
    def requires(s, c): return s.wf(c)
    def wf(s, c): a = Q(c.this); return a.table() + [('heap', a.heap())]
    def v(s, c, i=0): return c[i].var_type.z, c[i].number.z
    def vok(s, c): t, o = s.v(c); return ('variable', And(t >= 0, t < 255, o >= 0, o < MAXVAR))
    def after(s, c): b = Q(c.this_); return b.table() + [('heap', b.heap())]
    def others(s, a, b, v):
        """variables other than v are held as before"""
        f = lambda t, o: Implies(Not(And(t == v[0], o == v[1])), And(b.has(t, o) == a.has(t, o), Implies(a.has(t, o), b.score(t, o) == a.score(t, o))))
        return FA((lambda t, o: (f(t, o), [b.p(t, o), a.p(t, o)])) if PATTERNS else f, 2)


class Push(Queue):
    q = PQ + '::push'
    def requires(s, c): a = Q(c.this); return s.wf(c) + [s.vok(c), ('not held', Not(a.has(*s.v(c))))] + ([('capacity', a.n < INT_MAX - 1)] if CAPACITY else [])
    def ensures(s, c):
        a, b, v = Q(c.this), Q(c.this_), s.v(c)
        return s.after(c) + [('one more', b.n == a.n + 1), ('held with its score', And(b.has(*v), b.score(*v) == c[1].z)), ('others unchanged', s.others(a, b, v))]


class Pop(Queue):
    q = PQ + '::pop'
    def requires(s, c): return s.wf(c) + [('not empty', Q(c.this).n > 0)]
    def ensures(s, c):
        a, b = Q(c.this), Q(c.this_); v = (a.typ(IntV(0)), a.ord(IntV(0)))
        return s.after(c) + [('one less', b.n == a.n - 1), ('the top is removed', Not(b.has(*v))), ('others unchanged', s.others(a, b, v))]


class Update(Queue):
    q = PQ + '::update'
    def requires(s, c): return s.wf(c) + [s.vok(c)]
    def ensures(s, c):
        a, b, v = Q(c.this), Q(c.this_), s.v(c)
        return s.after(c) + [('same size', b.n == a.n), ('score changed if held', And(b.has(*v) == a.has(*v), Implies(a.has(*v), b.score(*v) == c[1].z))), ('others unchanged', s.others(a, b, v))]


class Contains(Queue):
    q = PQ + '::contains'
    def modifies(s, c): return []
    def requires(s, c): return s.wf(c) + [s.vok(c)]
    def ensures(s, c): return [('held', c.ret.z == Q(c.this).has(*s.v(c)))]


class Find(Queue):
    q = PQ + '::find'
    def modifies(s, c): return []
    def requires(s, c): return s.wf(c) + [s.vok(c)]
    def ensures(s, c):
        a, v = Q(c.this), s.v(c); k = c.res.lv[()].idx
        return [('position of a held variable, end of others', k == If(a.has(*v), a.p(*v), a.n))]


class Top(Queue):
    q = PQ + '::top'
    def modifies(s, c): return []
    def requires(s, c): return s.wf(c) + [('not empty', Q(c.this).n > 0)]
    def ensures(s, c):
        a = Q(c.this); z = IntV(0)
        return [('first element', And(c.ret.var_type.z == a.typ(z), c.ret.number.z == a.ord(z))), ('held', a.has(a.typ(z), a.ord(z)))]


class Top_max(Queue):
    """lemma by induction over positions: in a heap no element goes before the first one"""
    q = PQ + '::top'
    def modifies(s, c): return []
    def requires(s, c): return s.wf(c) + [('not empty', Q(c.this).n > 0)]
    def ensures(s, c):
        a = Q(c.this); i, p = z3.Ints('any parent'); z = IntV(0)
        hyp = FA(lambda j: Implies(And(j >= 0, j < i), Not(a.before(j, z))))
        up = Implies(And(i > 0, i < a.n, hyp), And(Not(a.before(p, z)), Not(a.before(i, p))))
        par = And(p >= 0, 4 * p + 1 <= i, i <= 4 * p + 4)
        return [('the parent is not after (instance)', Implies(par, up)), ('no element goes before the top (induction step)', Implies(And(i >= 0, i < a.n, Or(i == 0, And(p >= 0, p < i, 4 * p + 1 <= i, i <= 4 * p + 4)), hyp, Or(i == 0, up)), And(Not(a.before(i, z)), a.sc(i) <= a.sc(z))))]


class Empty(Queue):
    q = PQ + '::empty'
    def modifies(s, c): return []
    def ensures(s, c):
        a = Q(c.this)
        return [('empty', c.ret.z == (a.n == 0)), ('empty iff nothing is held', Implies(c.ret.z, FA(lambda t, o: Not(a.has(t, o)), 2)))]
class Size(Queue):
    q = PQ + '::size'
    def modifies(s, c): return []
    def ensures(s, c): return [('size', c.ret.z == Q(c.this).n)]


class Rescale(Queue):
    q = PQ + '::rescale'
    weight = 5
    def requires(s, c): return s.wf(c) + [('factor', c[0].z > 0)]
    def scaled(s, a, b, f):
        return FA(lambda t, o: And(b.has(t, o) == a.has(t, o), Implies(a.has(t, o), b.score(t, o) == a.score(t, o) / f)), 2)
    def ensures(s, c):
        a, b = Q(c.this), Q(c.this_)
        return s.after(c) + [('same size', b.n == a.n), ('same variables, scores divided', s.scaled(a, b, c[0].z))]
    def templates(s, ex, lid, L):
        c = ex.topspec; a = Q(c.this); f = c[0].z
        out = [('scaled', lambda e: s.scaled(a, s.cur(e), f)), ('n', lambda e: s.cur(e).n == a.n)]
        out += [(n, lambda e, i=i: s.cur(e).table()[i][1]) for i, (n, _) in enumerate(a.table())]
        for cn, rd in L.counters:
            out += [('heap>' + cn, lambda e, rd=rd: s.cur(e).heap(lo=rd(e) + 1)),
                    ('scaled<' + cn, lambda e, rd=rd: FA(lambda i: And(Implies(And(i >= 0, i < rd(e)), s.cur(e).sc(i) == a.sc(i) / f), Implies(And(i >= rd(e), i < a.n), s.cur(e).sc(i) == a.sc(i)))))]
        return out


class Is_before_node(Queue):
    q = PQ + '::is_before'
    def modifies(s, c): return []
    def requires(s, c): return []
    def ensures(s, c):
        def key(x): return (x.second.z, x.first.var_type.z, x.first.number.z) if 'std::pair' in x.lv.ty.s else (RealV0, x.var_type.z, x.number.z)
        try: l, r = key(c[0]), key(c[1])
        except Unsupported: raise
        return [('ordered by score, then by type and ordinal', c.ret.z == Or(l[0] > r[0], And(l[0] == r[0], Or(l[1] < r[1], And(l[1] == r[1], l[2] < r[2])))))]


RealV0 = z3.RealVal(0)
CONTRACTS = [k() for k in (Fix_up, Fix_down, Push, Pop, Update, Contains, Find, Top, Top_max, Empty, Size, Rescale)]
