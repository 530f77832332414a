"""Polynomials: elementwise contracts of the operations on monomial lists (src/terms/Arithmetic_polynomial.h, src/utils/Linear_polynomial.cpp).

A list holds each variable at most once (Polynomial: in increasing order) and no zero coefficient."""
from spec import *
import rational_abs, terms
from terms import PLEAVES, x_of

RS = z3.RealSort()


def world(w):
    rational_abs.world(w)
    from stl import mk
    def xv(ex, e, args, i=0):
        v = ex.bind_args(e, e['fn']['pt'], args)[i]; v = ex.rd(v) if isinstance(v, LV) else v
        return v.lv[('x',)]
    def three(ex, e, this, args):
        a, b = xv(ex, e, args, 0), xv(ex, e, args, 1)
        return Val(ex.ety(e), {(): If(a < b, IntV(-1), If(a == b, IntV(0), IntV(1)))})
    w.natives[('q', 'yaga::terms::operator<=>')] = three


class P:
    """monomials of a Polynomial<term_t>"""
    def __init__(s, o): s.n, s.xs, s.cs = [o.leaf(*p) for p in PLEAVES]
    def x(s, j): return z3.Select(s.xs, j)
    def c(s, j): return z3.Select(s.cs, j)
    def wf(s):
        return And(s.n >= 0, s.n <= MAXVAR, FA(lambda j: (Implies(And(j >= 0, j < s.n), s.c(j) != 0), [s.c(j)])),
                   FA(lambda i, j: (Implies(And(i >= 0, i < j, j < s.n), s.x(i) < s.x(j)), [(s.x(i), s.x(j))]), 2))


PT = 'yaga::Polynomial<yaga::terms::term_t>::'
class Scale(Contract):
    """every coefficient is scaled, the variables stay"""
    def requires(s, c): return [('a polynomial', P(c.this).wf())] + s.pre(c)
    def pre(s, c): return []
    def modifies(s, c): return [c.this.fld('poly').lv]
    def ensures(s, c):
        p, q = P(c.this), P(c.this_)
        return [('as many monomials', q.n == p.n), ('same variables', FA(lambda j: (Implies(And(j >= 0, j < p.n), q.x(j) == p.x(j)), [q.x(j)]))),
                ('coefficients', FA(lambda j: (Implies(And(j >= 0, j < p.n), q.c(j) == s.f(c, p.c(j))), [q.c(j)])))]
    def templates(s, ex, lid, L):
        c = ex.topspec; p = P(c.this); q = lambda e: P(O(e, e.st, c.thislv)); out = [('len', lambda e: q(e).n == p.n), ('vars', lambda e: FA(lambda j: (Implies(And(j >= 0, j < p.n), q(e).x(j) == p.x(j)), [q(e).x(j)])))]
        for n, rd in L.counters:
            out += [('done ' + n, lambda e, rd=rd: FA(lambda j: (Implies(And(j >= 0, j < rd(e)), q(e).c(j) == s.f(c, p.c(j))), [q(e).c(j)]))),
                    ('rest ' + n, lambda e, rd=rd: FA(lambda j: (Implies(And(j >= rd(e), j < p.n), q(e).c(j) == p.c(j)), [q(e).c(j)])))]
        return out
class Negate(Scale):
    q = PT + 'negate'
    def f(s, c, x): return -x
class Multiply(Scale):
    q = PT + 'multiply_by'
    def pre(s, c): return [('not zero', c[0].z != 0)]
    def f(s, c, x): return x * c[0].z


class Add_term(Contract):
    """one more monomial, in its place"""
    q = PT + 'add_term'
    def requires(s, c):
        p = P(c.this)
        return [('a polynomial', p.wf()), ('a coefficient that is not zero', c[1].z != 0), ('room', p.n < MAXVAR), ('a new variable', FA(lambda j: (Implies(And(j >= 0, j < p.n), p.x(j) != x_of(c[0])), [p.x(j)])))]
    def modifies(s, c): return [c.this.fld('poly').lv]
    def ensures(s, c):
        p, q = P(c.this), P(c.this_); r = c.ex.topspec is c and c.ex.fresh(I, 'at')
        at = lambda j: q.x(j) == x_of(c[0])
        return [('a polynomial', q.wf()), ('one more monomial', q.n == p.n + 1),
                ('monomials before it stay', FA(lambda j: (Implies(And(j >= 0, j < p.n, p.x(j) < x_of(c[0])), And(q.x(j) == p.x(j), q.c(j) == p.c(j))), [p.x(j)]))),
                ('monomials after it move up', FA(lambda j: (Implies(And(j >= 0, j < p.n, p.x(j) > x_of(c[0])), And(q.x(j + 1) == p.x(j), q.c(j + 1) == p.c(j))), [p.x(j)]))),
                ('the others are the new one', FA(lambda j: (Implies(And(j >= 0, j < q.n), Or(And(q.x(j) == x_of(c[0]), q.c(j) == c[1].z), And(j < p.n, q.x(j) == p.x(j), q.c(j) == p.c(j)), And(j > 0, q.x(j) == p.x(j - 1), q.c(j) == p.c(j - 1)))), [q.x(j)])))]


class U:
    """monomials of a utils::Linear_polynomial"""
    def __init__(s, o): s.n, s.m, s.xs, s.cs, s.k = o.fld('vars').len, o.fld('coef').len, o.fld('vars').leaf('[]'), o.fld('coef').leaf('[]'), o.fld('constant').z
    def x(s, j): return z3.Select(s.xs, j)
    def c(s, j): return z3.Select(s.cs, j)
    def wf(s): return And(s.n >= 0, s.n <= MAXVAR, s.m == s.n, FA(lambda j: (Implies(And(j >= 0, j < s.n), s.c(j) != 0), [s.c(j)])),
                          FA(lambda i, j: (Implies(And(i >= 0, i < j, j < s.n), s.x(i) != s.x(j)), [(s.x(i), s.x(j))]), 2))


class U_negate(Contract):
    q = 'yaga::utils::Linear_polynomial::negate'
    def requires(s, c): return [('a polynomial', U(c.this).wf())]
    def modifies(s, c): return [c.thislv]
    def ensures(s, c):
        p, q = U(c.this), U(c.this_)
        return [('as many monomials', And(q.n == p.n, q.m == p.m)), ('same variables', FA(lambda j: (Implies(And(j >= 0, j < p.n), q.x(j) == p.x(j)), [q.x(j)]))),
                ('coefficients', FA(lambda j: (Implies(And(j >= 0, j < p.n), q.c(j) == -p.c(j)), [q.c(j)]))), ('constant', q.k == -p.k)]
    def templates(s, ex, lid, L):
        c = ex.topspec; p = U(c.this); q = lambda e: U(O(e, e.st, c.thislv)); out = [('len', lambda e: And(q(e).n == p.n, q(e).m == p.m)), ('constant', lambda e: q(e).k == p.k), ('vars', lambda e: FA(lambda j: (Implies(And(j >= 0, j < p.n), q(e).x(j) == p.x(j)), [q(e).x(j)])))]
        for n, rd in L.counters:
            out += [('done ' + n, lambda e, rd=rd: FA(lambda j: (Implies(And(j >= 0, j < rd(e)), q(e).c(j) == -p.c(j)), [q(e).c(j)]))),
                    ('rest ' + n, lambda e, rd=rd: FA(lambda j: (Implies(And(j >= rd(e), j < p.n), q(e).c(j) == p.c(j)), [q(e).c(j)])))]
        return out


class U_subtract(Contract):
    q = 'yaga::utils::Linear_polynomial::subtract_var'
    def requires(s, c):
        p = U(c.this)
        return [('a polynomial', p.wf()), ('a new variable', FA(lambda j: (Implies(And(j >= 0, j < p.n), p.x(j) != c[0].fld('number').z), [p.x(j)])))]
    def modifies(s, c): return [c.thislv]
    def ensures(s, c):
        p, q = U(c.this), U(c.this_)
        return [('one more monomial', And(q.n == p.n + 1, q.m == q.n)), ('the variable, with coefficient -1', And(q.x(p.n) == c[0].fld('number').z, q.c(p.n) == -1)),
                ('the others stay', FA(lambda j: (Implies(And(j >= 0, j < p.n), And(q.x(j) == p.x(j), q.c(j) == p.c(j))), [q.x(j), q.c(j)]))), ('constant', q.k == p.k)]


F = z3.Function('coefficient in this', I, RS)
G = z3.Function('coefficient in the other', I, RS)
PF = z3.Function('position in this', I, I)
PG = z3.Function('position in the other', I, I)


def ghost(p, f, pos):
    """f is the coefficient function of p, pos the position of each of its variables"""
    return And(FA(lambda j: (Implies(And(j >= 0, j < p.n), And(f(p.x(j)) == p.c(j), pos(p.x(j)) == j)), [p.x(j)])),
               FA(lambda v: (Or(f(v) == 0, And(pos(v) >= 0, pos(v) < p.n, p.x(pos(v)) == v)), [f(v)])))


AT = z3.Function('a position', I, B)
def listed(q, v): return EX(lambda k: (And(k >= 0, k < q.n, q.x(k) == v), [AT(k)]))


class U_add(Contract):
    """the coefficient of every variable is the sum of its coefficients"""
    q = 'yaga::utils::Linear_polynomial::add'
    def other(s, c): return U(c[0])
    def requires(s, c):
        p, o = U(c.this), s.other(c)
        return [('a polynomial', p.wf()), ('another', o.wf()), ('room', p.n + o.n < MAXVAR), ('coefficients', ghost(p, F, PF)), ('coefficients of the other', s.ghost2(o))]
    def ghost2(s, o): return ghost(o, G, PG)
    def modifies(s, c): return [c.thislv, c[0].lv]
    def so_far(s, c, n): 
        o = s.other(c)
        return lambda v: F(v) + If(And(G(v) != 0, PG(v) < n), G(v), z3.RealVal(0))
    def state(s, c, q, h):
        return [('as many coefficients as variables', q.m == q.n), ('size', q.n >= 0),
                ('distinct', FA(lambda i, j: (Implies(And(i >= 0, i < j, j < q.n), q.x(i) != q.x(j)), [(q.x(i), q.x(j))]), 2)),
                ('not zero', FA(lambda j: (Implies(And(j >= 0, j < q.n), q.c(j) != 0), [q.c(j)]))),
                ('coefficients', FA(lambda j: (Implies(And(j >= 0, j < q.n), q.c(j) == h(q.x(j))), [q.x(j)]))),
                ('no other', FA(lambda v: (Or(h(v) == 0, listed(q, v)), [F(v)])))]
    def ensures(s, c):
        p, q, o = U(c.this), U(c.this_), s.other(c)
        return s.state(c, q, lambda v: F(v) + G(v)) + [('constant', q.k == s.const(p, o))]
    def const(s, p, o): return p.k + o.k
    def templates(s, ex, lid, L):
        c = ex.topspec; p = U(c.this); o = s.other(c); q = lambda e: U(O(e, e.st, c.thislv)); out = [('constant', lambda e: q(e).k == p.k)]
        for n, rd in L.counters:
            for k in range(6):
                out.append(('state %d %s' % (k, n), lambda e, rd=rd, k=k: s.state(c, q(e), s.so_far(c, rd(e)))[k][1]))
            out.append(('small ' + n, lambda e, rd=rd: q(e).n <= p.n + rd(e)))
        return out


CONTRACTS = [Negate(), Multiply(), Add_term(), U_negate(), U_subtract()]
