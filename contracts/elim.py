"""Fourier-Motzkin elimination (src/lra/Lra_conflict_analysis): derived constraints are sound combinations.

A derivation `poly pred 0` is a vector of (variable, coefficient), a constant and a relation. resolve() hands s * poly + m * other to
normalize(), which keeps the polynomial (bounded check): recorded in ghost state as the polynomial at that call."""
from spec import *
import linear
from linear import EQ, LT, LEQ, RS
import z3

P, Q = z3.Int('position of the variable in the derivation'), z3.Int('position of the variable in the other')


def world(w):
    linear.world(w)
    w.natives[('q', 'yaga::detail::Linear_polynomial<yaga::Long_fraction>::normalize')] = normalize


COMB = 'global:combined'
LEAVES = {'n': ('variables', 'len'), 'x': ('variables', '[]', 'first'), 'c': ('variables', '[]', 'second'), 'k': ('constant',)}


def normalize(ex, e, this, args):
    """the polynomial stays the same (recorded before), a variable whose coefficients cancel does not occur afterwards"""
    for p in LEAVES.values(): ex.wr_leaf(LV(COMB, p, (), None), (), ex.rd_raw(ex.st, this, p))
    u = COMBINED(ex, ex.st); b = POLY(ex.topspec[0]); a = POLY(ex.topspec.this)
    ex.havoc_lv(this) if hasattr(ex, 'havoc_lv') else ex.wr(this, ex.undef_val(this.ty))
    n = O(ex, ex.st, this).fld('variables'); v = ex.topspec[1].z; q = a.n + Q
    k = z3.Int('k!nz')
    once = FA(lambda j: (Implies(And(j >= 0, j < u.n, u.x[j] == v), Or(j == P, j == q)), [u.x[j]]))
    ex.fact(And(n.len >= 0, n.len <= u.n, Implies(And(once, u.x[P] == v, u.x[q] == v, u.c[P] + u.c[q] == 0), FA(lambda j: Implies(And(j >= 0, j < n.len), z3.Select(n.leaf('[]', 'first'), j) != v)))))


class COMBINED:
    def __init__(s, ex, st):
        m = st.mem.get(COMB, {}); srt = {'n': I, 'x': linear.AI, 'c': linear.AR, 'k': RS}
        for f, p in LEAVES.items(): setattr(s, f, m.get(p, z3.Const(COMB + '.' + f, srt[f])))


class POLY:
    def __init__(s, o):
        v = o.fld('poly').fld('variables'); s.n = v.len
        s.x = v.leaf('[]', 'first'); s.c = v.leaf('[]', 'second'); s.k = o.fld('poly').fld('constant').z; s.pred = o.fld('pred').fld('type').z
    def ok(s): return And(s.n >= 0, s.n < 2**57, s.pred >= 0, s.pred <= 2)


class Combine(Contract):
    q = 'yaga::Fm_elimination::combine'
    def requires(s, c): return [('relations', And(*[And(c[i].fld('type').z >= 0, c[i].fld('type').z <= 2) for i in (0, 1)]))]
    def ensures(s, c):
        a, b, r = [x.fld('type').z for x in (c[0], c[1], c.ret)]
        x, y = z3.Reals('x!c y!c')
        h = lambda p, v: linear.holds(p, v, z3.RealVal(0))
        return [('the sum of two constraints satisfies the combined relation', z3.ForAll([x, y], Implies(And(h(a, x), h(b, y)), h(r, x + y)))), ('as strong as possible', And(Implies(And(a == EQ, b == EQ), r == EQ), Implies(Or(a == LT, b == LT), r == LT)))]


class Init_mult(Contract):
    q = 'yaga::Fm_elimination::init'
    def match(s, p, f): return len(f['params']) == 3
    def pre(s, c):
        k = linear.LCV(c[0]); ro = O(c.ex, c.prest, c.ex.heap_lv([t for t in c.ex.prog.types if t.s == 'yaga::Linear_constraints<yaga::Long_fraction>'][0], k.home))
        return k, ro
    def requires(s, c):
        k, ro = s.pre(c)
        return [('constraint', And(linear.in_repo(ro, k), Not(k.empty()), k.home > 0)), ('relation', And(c[1].fld('type').z >= 0, c[1].fld('type').z <= 2))]
    def modifies(s, c): return [c.this.fld('poly').lv, c.this.fld('pred').lv]
    def ensures(s, c):
        k, ro = s.pre(c); m = c[2].z; u = POLY(c.this_)
        cs, xs = ro.fld('coefficients').leaf('[]'), ro.fld('variables').leaf('[]')
        return [('relation', u.pred == c[1].fld('type').z), ('constant', u.k == -k.rhs * m),
                ('coefficients', And(u.n == k.b - k.a, FA(lambda j: (Implies(And(j >= 0, j < u.n), And(u.x[j] == xs[k.a + j], u.c[j] == cs[k.a + j] * m)), [u.c[j]]))))]
    def templates(s, ex, lid, L):
        c = ex.topspec; k, ro = s.pre(c); m = c[2].z
        cs, xs = ro.fld('coefficients').leaf('[]'), ro.fld('variables').leaf('[]')
        u = lambda e: POLY(O(e, e.st, c.thislv))
        return [('copied', lambda e: FA(lambda j: (Implies(And(j >= 0, j < u(e).n), And(u(e).x[j] == xs[k.a + j], u(e).c[j] == cs[k.a + j] * m)), [u(e).c[j]]))), ('pred', lambda e: u(e).pred == c[1].fld('type').z)] + \
               [('count %s' % n, lambda e, rd=rd: rd(e) == k.a + u(e).n) for n, rd in L.counters]


class Init(Contract):
    """a constraint and its complement become `poly pred 0` with the same solutions"""
    q = 'yaga::Fm_elimination::init'
    def match(s, p, f): return len(f['params']) == 1 and 'Fm_elim' not in p.types[f['params'][0]['t']].s
    pre = Init_mult.pre
    def requires(s, c):
        k, ro = s.pre(c)
        return [('constraint', And(linear.in_repo(ro, k), Not(k.empty()), k.home > 0, k.lit != 0, k.lit > -2**31)), ('not a disequality', Or(k.pred != EQ, k.lit > 0))]
    def modifies(s, c): return [c.this.fld('poly').lv, c.this.fld('pred').lv]
    def ensures(s, c):
        k, ro = s.pre(c); u = POLY(c.this_); v = z3.Real('v!i')
        cs, xs = ro.fld('coefficients').leaf('[]'), ro.fld('variables').leaf('[]')
        sg = If(u.c[0] == cs[k.a], z3.RealVal(1), z3.RealVal(-1))
        form = lambda t: And(u.k == -k.rhs * t, u.n == k.b - k.a, FA(lambda j: (Implies(And(j >= 0, j < u.n), And(u.x[j] == xs[k.a + j], u.c[j] == cs[k.a + j] * t)), [u.c[j]])))
        same = lambda t: z3.ForAll([v], linear.holds(u.pred, t * v - t * k.rhs, z3.RealVal(0)) == (linear.holds(k.pred, v, k.rhs) != (k.lit < 0)))
        return [('plus or minus the polynomial, with the same solutions', Or(*[And(form(t), same(t)) for t in (z3.RealVal(1), z3.RealVal(-1))]))]


class Resolve(Contract):
    q = 'yaga::Fm_elimination::resolve'
    def requires(s, c):
        a, b, v = POLY(c.this), POLY(c[0]), c[1].z
        one = lambda p, i: And(i >= 0, i < p.n, p.x[i] == v, p.c[i] != 0, FA(lambda j: (Implies(And(j >= 0, j < p.n, p.x[j] == v), j == i), [p.x[j]])))
        return [('derivations', And(a.ok(), b.ok())), ('both contain the variable once', And(one(a, P), one(b, Q))),
                ('bounds from opposite sides, or an equality', Or(a.pred == EQ, b.pred == EQ, (a.c[P] > 0) != (b.c[Q] > 0)))]
    def modifies(s, c): return [c.this.fld('poly').lv, c.this.fld('pred').lv, (COMB, ())]
    def ensures(s, c):
        a, b, u = POLY(c.this), POLY(c[0]), COMBINED(c.ex, c.postst)
        pr = c.this_.fld('pred').fld('type').z
        def comb(t):
            m = -t * a.c[P] / b.c[Q]
            return And(u.k == t * a.k + m * b.k, u.n == a.n + b.n, FA(lambda j: (Implies(And(j >= 0, j < a.n), And(u.x[j] == a.x[j], u.c[j] == t * a.c[j])), [u.c[j]])),
                       FA(lambda j: (Implies(And(j >= a.n, j < a.n + b.n), u.x[j] == b.x[j - a.n]), [u.x[j]])), FA(lambda j: (Implies(And(j >= a.n, j < a.n + b.n), u.c[j] == m * b.c[j - a.n]), [u.c[j]])), Or(t > 0, a.pred == EQ), Or(m > 0, b.pred == EQ), t * a.c[P] + m * b.c[Q] == 0)
        x, y = z3.Reals('x!r y!r'); h = lambda p, w: linear.holds(p, w, z3.RealVal(0))
        return [('a combination that cancels the variable, positive where the relation is not equality', Or(comb(z3.RealVal(1)), comb(z3.RealVal(-1)))),
                ('relation of the sum', z3.ForAll([x, y], Implies(And(h(a.pred, x), h(b.pred, y)), h(pr, x + y))))]
    def templates(s, ex, lid, L):
        c = ex.topspec; a, b = POLY(c.this), POLY(c[0])
        u = lambda e: POLY(O(e, e.st, c.thislv)); out = []
        neg, pos = z3.RealVal(-1), z3.RealVal(1)
        for n, rd in L.counters:
            out += [('negated ' + n, lambda e, rd=rd: FA(lambda j: (Implies(And(j >= 0, j < a.n), u(e).c[j] == If(j < rd(e), -a.c[j], a.c[j])), [u(e).c[j]]))),
                    ('appended ' + n, lambda e, rd=rd: u(e).n == a.n + rd(e))]
            own = lambda e, t: And(u(e).k == t * a.k, FA(lambda j: (Implies(And(j >= 0, j < a.n), u(e).c[j] == t * a.c[j]), [u(e).c[j]])))
            oth = lambda e, x, rd: FA(lambda j: (Implies(And(j >= a.n, j < a.n + rd(e)), u(e).c[j] == x * b.c[j - a.n]), [u(e).c[j]]))
            for vn, lv in linear.reals(ex):
                x = lambda e, lv=lv: O(e, e.st, lv).z
                out += [('case %s %s' % (vn, n), lambda e, x=x: Or(And(x(e) * b.c[Q] == -a.c[P], own(e, pos), Or(x(e) > 0, b.pred == EQ)), And(x(e) * b.c[Q] == a.c[P], own(e, neg), x(e) > 0, b.pred != EQ))),
                        ('other %s %s' % (vn, n), lambda e, x=x, rd=rd: oth(e, x(e), rd))]
            out.append(('other vars ' + n, lambda e, rd=rd: FA(lambda j: (Implies(And(j >= a.n, j < a.n + rd(e)), u(e).x[j] == b.x[j - a.n]), [u(e).x[j]]))))
        out += [('vars', lambda e: FA(lambda j: (Implies(And(j >= 0, j < a.n), u(e).x[j] == a.x[j]), [u(e).x[j]]))), ('len', lambda e: u(e).n == a.n), ('pred', lambda e: u(e).pred == a.pred)]
        return out


CONTRACTS = [Combine(), Init_mult(), Init(), Resolve()]
