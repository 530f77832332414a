"""Clausal translation (src/parser/Solver_wrapper.cpp, src/terms/Term_visitor.h).

BI / RV: meaning of the terms under an assignment of the atoms (contracts/terms.py). BVAL / RVAL: values of the solver's variables. The variable made for
an atom has the atom's value. The same code is verified twice: `Force` assumes only that the asserted clauses hold and shows that the literal of a term has
the term's value; `Model` gives every added variable the value of its term and shows that every asserted clause holds."""
from spec import *
import rational_abs, terms
from terms import tok, opp, x_of, TYPE, KIND, K, BV, BI, RV, arith, variable, COEF, VAR
from poly import U

RS = z3.RealSort()
BVAL = z3.Function('value of boolean variable', I, B)           # by literal value (ordinal + 1)
RVAL = z3.Function('value of rational variable', I, RS)
CNT = z3.Function('number of arguments of', I, I)
ARG = z3.Function('arguments of', I, z3.ArraySort(I, I))
NEWT = z3.Int('term being translated')
DONE = z3.Function('term is processed', I, B)
AI, AR = z3.ArraySort(I, I), z3.ArraySort(I, RS)
PV = z3.Function('sum of products', AI, AR, I, RS)


def LT(v): return If(v > 0, BVAL(v), Not(BVAL(-v)))
def arg(t, j): return z3.Select(ARG(t), j)
def UV(p): return PV(p.xs, p.cs, p.n) + p.k
def kind(x, *ns): return Or(*[KIND(x / 2) == K[n] for n in ns])
def pos(x): return 2 * (x / 2)


def axioms(ex):
    t, n, i, v = z3.Ints('t!c n!c i!c v!c'); xs, ys = z3.Const('xs!c', AI), z3.Const('ys!c', AI); cs = z3.Const('cs!c', AR); r = z3.Real('r!c')
    W = z3.Function('true argument', I, I); ex.fact(And(KIND(IntV(2)) == K['ARITH_CONSTANT'], RV(IntV(4)) == 0))
    ex.fact(z3.ForAll([t, i], Implies(And(i >= 0, i < CNT(t)), And(tok(arg(t, i)), DONE(arg(t, i) / 2) == DONE(arg(t, i) / 2))), patterns=[arg(t, i)]))
    ex.fact(z3.ForAll([t], And(CNT(t) >= 0, CNT(t) < MAXVAR), patterns=[CNT(t)]))
    k = KIND(t); a = lambda j: arg(t, IntV(j))
    ex.fact(z3.ForAll([t], And(
        Implies(k == K['OR_TERM'], And(TYPE(t) == 0, CNT(t) >= 2, Implies(BI(t), And(W(t) >= 0, W(t) < CNT(t), BV(arg(t, W(t))))))),
        Implies(k == K['ARITH_GE_ATOM'], And(TYPE(t) == 0, CNT(t) == 1, arith(a(0)), Not(kind(a(0), 'ARITH_CONSTANT')), BI(t) == (RV(a(0)) >= 0))),
        Implies(k == K['ARITH_EQ_ATOM'], And(TYPE(t) == 0, CNT(t) == 1, arith(a(0)), BI(t) == (RV(a(0)) == 0))),
        Implies(k == K['ARITH_BINEQ_ATOM'], And(TYPE(t) == 0, CNT(t) == 2, kind(a(0), 'UNINTERPRETED_TERM', 'ITE_TERM'), variable(a(0)), arith(a(1)), kind(a(1), 'UNINTERPRETED_TERM', 'ITE_TERM', 'ARITH_CONSTANT'), BI(t) == (RV(a(0)) == RV(a(1))))),
        Implies(k == K['ITE_TERM'], And(TYPE(t) == 1, CNT(t) == 3, a(0) % 2 == 0, TYPE(a(0) / 2) == 0, arith(a(1)), arith(a(2)), Not(kind(a(0), 'CONSTANT_TERM')), RV(2 * t) == If(BV(a(0)), RV(a(1)), RV(a(2))))),
        Implies(k == K['ARITH_POLY'], And(TYPE(t) == 1, CNT(t) >= 2, RV(2 * t) == terms.TS(ARG(t), CNT(t)))),
        Implies(Or(k == K['ARITH_CONSTANT'], k == K['ARITH_PRODUCT']), TYPE(t) == 1),
        Implies(Or(k == K['UNINTERPRETED_TERM'], k == K['APP_TERM']), Or(TYPE(t) == 0, TYPE(t) == 1)),
        (k == K['CONSTANT_TERM']) == (t == 1), Implies(t == 1, TYPE(t) == 0)), patterns=[KIND(t)]))
    ex.fact(z3.ForAll([t, i], Implies(And(k == K['OR_TERM'], i >= 0, i < CNT(t)), And(TYPE(arg(t, i) / 2) == 0, Not(kind(arg(t, i), 'CONSTANT_TERM')), Implies(BV(arg(t, i)), BI(t)))), patterns=[arg(t, i)]))
    ex.fact(z3.ForAll([t, i], Implies(And(k == K['ARITH_POLY'], i >= 0, i < CNT(t)), And(arith(arg(t, i)), Not(kind(arg(t, i), 'ARITH_POLY')), Implies(kind(arg(t, i), 'ARITH_CONSTANT'), i == 0))), patterns=[arg(t, i)]))
    ex.fact(z3.ForAll([t], Implies(kind(t, 'ARITH_PRODUCT'), RV(t) == COEF(t) * RV(VAR(t))), patterns=[VAR(t)]))
    # a sum does not depend on what lies beyond its last product
    ex.fact(z3.ForAll([xs, cs, n, i, v], Implies(i >= n, PV(z3.Store(xs, i, v), cs, n) == PV(xs, cs, n)), patterns=[PV(z3.Store(xs, i, v), cs, n)]))
    ex.fact(z3.ForAll([xs, cs, n, i, r], Implies(i >= n, PV(xs, z3.Store(cs, i, r), n) == PV(xs, cs, n)), patterns=[PV(xs, z3.Store(cs, i, r), n)]))


def unfold(ex, p):
    """the last two products of a sum"""
    for n in (p.n, p.n - 1): ex.fact(Implies(n >= 1, PV(p.xs, p.cs, n) == PV(p.xs, p.cs, n - 1) + p.c(n - 1) * RVAL(p.x(n - 1))))
    for n in (0,): ex.fact(PV(p.xs, p.cs, IntV(n)) == 0)


def world(w):
    terms.world(w); rational_abs.world(w)
    from stl import mk
    def argvals(ex, e, args): return ex.bind_args(e, e['fn']['pt'], args)
    def xv(ex, e, args, i=0):
        v = argvals(ex, e, args)[i]; v = ex.rd(v) if isinstance(v, LV) else v
        return v.lv[('x',)]
    TM = 'yaga::terms::Term_manager::'
    def get_args(ex, e, this, args):
        t = xv(ex, e, args) / 2
        root = ex.fresh_root('%s:args%s' % (ex.ctxname(), e['_i']), terms.term_vector(ex)); o = O(ex, ex.st, root); a = o.leaf('[]', 'x'); n = o.len
        ex.fact(And(n == CNT(t), n >= 0, a == ARG(t)))
        return Val(ex.ety(e).nonref(), {(): Range(Iter(root, IntV(0), False, None), Iter(root, n, False, None))})
    w.natives[('q', TM + 'get_args')] = get_args
    def variable_made(ex, e, this, args):
        ty = argvals(ex, e, args)[0]; ty = (ex.rd(ty) if isinstance(ty, LV) else ty).z
        v = ex.undef_val(ex.ety(e)); n = v.lv[('number',)]
        ex.fact(And(n >= 0, n < MAXVAR, v.lv[('var_type',)] == ty)); x = x_of(ex.topspec[0]); k = KIND(x / 2)
        atom = Or(k == K['UNINTERPRETED_TERM'], k == K['APP_TERM'])
        if ex.topspec.spec.model: atom = z3.BoolVal(True)
        ex.fact(And(Implies(And(atom, ty == 0), BVAL(n + 1) == BI(x / 2)), Implies(And(atom, ty == 1), RVAL(n) == RV(x))))
        return v
    w.natives[('q', 'yaga::Yaga::make')] = variable_made; w.natives[('q', 'yaga::Yaga::make_function_application')] = variable_made
    def constraint(ex, e, this, args):
        vs = [ex.rd(v) if isinstance(v, LV) else v for v in [ex.lv(a) if a.get('lv') else ex.ev(a) for a in args]]
        xs, n = vs[0].lv[('[]',)], vs[0].lv[('len',)]; cs, m = vs[1].lv[('[]',)], vs[1].lv[('len',)]
        op, rhs = [x for q, x in sorted(vs[2].lv.items())][0], vs[3].z
        ex.oblige('one coefficient per variable', n == m, 'pre')
        v = ex.undef_val(ex.ety(e)); l = v.lv[('value',)]; s = PV(xs, cs, n)
        for q in (0, 1, 2): ex.fact(PV(xs, cs, IntV(q)) == sum([z3.Select(cs, i) * RVAL(z3.Select(xs, i)) for i in range(q)], z3.RealVal(0)))
        ex.fact(And(lit_ok(l), Implies(op == OPS['eq'], l > 0), LT(l) == If(op == OPS['eq'], s == rhs, If(op == OPS['leq'], s <= rhs, s < rhs))))
        ex.oblige('a relation that is translated', Or(*[op == OPS[o] for o in ('eq', 'leq', 'lt')]), 'pre')
        return v
    OPS = {'eq': 0, 'lt': 1, 'leq': 2}
    w.natives[('q', 'yaga::Yaga::linear_constraint')] = constraint
    def clause(ex, e, this, args):
        vs = [ex.rd(v) if isinstance(v, LV) else v for v in [ex.lv(a) if a.get('lv') else ex.ev(a) for a in args]]
        if vs[0].ty.nonref().is_std('std::vector'):
            a, n = vs[0].lv[('[]', 'value')], vs[0].lv[('len',)]; W = ex.fresh(I, 'true literal')
            if ex.topspec.spec.model: goal = EX(lambda j: And(j >= 0, j < n, LT(z3.Select(a, j))))
            else: goal = And(W >= 0, W < n, LT(z3.Select(a, W)))
        else: goal = Or(*[LT(v.lv[('value',)]) for v in vs])
        if ex.topspec.spec.model: ex.oblige('the clause holds', goal, 'pre')
        else: ex.fact(goal)
        return Val(ex.ety(e), {})
    w.natives[('q', 'yaga::Yaga::assert_clause')] = clause
    def negate(ex, e, this, args):
        p = U(O(ex, ex.st, this)); v0 = UV(p); n = p.n
        ex.wr_leaf(this, ('coef', '[]'), ex.fresh(AR, 'negated')); ex.wr_leaf(this, ('constant',), -p.k)
        ex.fact(UV(U(O(ex, ex.st, this))) == -v0); return Val(ex.ety(e), {})
    w.natives[('q', 'yaga::utils::Linear_polynomial::negate')] = negate
    def subtract(ex, e, this, args):
        v = argvals(ex, e, args)[0]; v = ex.rd(v) if isinstance(v, LV) else v
        p = U(O(ex, ex.st, this)); v0 = UV(p); n = p.n
        ex.oblige('as many coefficients as variables', p.m == p.n, 'pre')
        for q, s in ((('vars', '[]'), AI), (('coef', '[]'), AR)): ex.wr_leaf(this, q, ex.fresh(s, 'with variable'))
        for q in ('vars', 'coef'): ex.wr_leaf(this, (q, 'len'), n + 1)
        ex.fact(UV(U(O(ex, ex.st, this))) == v0 - RVAL(v.lv[('number',)])); return Val(ex.ety(e), {})
    w.natives[('q', 'yaga::utils::Linear_polynomial::subtract_var')] = subtract


class Tables:
    def __init__(s, o):
        b, r = o.fld('internal_bool_vars'), o.fld('internal_rational_vars')
        s.hb, s.lb, s.hr, s.lr = b.leaf('has'), b.leaf('{}', 'value'), r.leaf('has'), r.leaf('{}')
    def B(s, x): return z3.Select(s.hb, x)
    def R(s, x): return z3.Select(s.hr, x)
    def lit(s, x): return z3.Select(s.lb, x)
    def var(s, x): return z3.Select(s.lr, x)
    def wf(s, t=None):
        of = lambda x: x / 2 != NEWT if t is None else z3.BoolVal(True)
        return [('literals mean their terms', FA(lambda x: (Implies(s.B(x), And(x % 2 == 0, lit_ok(s.lit(x)), Implies(of(x), LT(s.lit(x)) == BV(x)))), [s.B(x)]))),
                ('variables mean their terms', FA(lambda x: (Implies(s.R(x), And(x % 2 == 0, s.var(x) >= 0, s.var(x) < MAXVAR, Implies(of(x), RVAL(s.var(x)) == RV(x)))), [s.R(x)])))]
    def done(s):
        """processed terms are in the tables, and so are the variables in processed terms"""
        return [('processed variables', FA(lambda t: (Implies(DONE(t), And(t != NEWT, Implies(variable(2 * t), s.R(2 * t)), Implies(And(TYPE(t) == 0, t > 1), s.B(2 * t)), Implies(KIND(t) == K['ARITH_PRODUCT'], And(s.R(VAR(2 * t)), VAR(2 * t) / 2 != NEWT, variable(VAR(2 * t)))))), [DONE(t)]))),
                ('processed parts', FA(lambda t, j: (Implies(And(DONE(t), j >= 0, j < CNT(t)), DONE(arg(t, j) / 2)), [(DONE(t), arg(t, j))]), 2))]


class Poly(Contract):
    q = 'yaga::parser::Internalizer_config::internalize_poly'
    model = False
    def setup(s, c): c.spec = s; axioms(c.ex)
    def common(s, c):
        T = Tables(c.this)
        return T.wf() + T.done() + [('managers', c.this.fld('term_manager').deref().fld('term_table').z > 0)]
    def requires(s, c):
        x = x_of(c[0])
        return s.common(c) + [('an arithmetic term', arith(x)), ('processed', DONE(x / 2))]
    def ensures(s, c):
        p = U(c.ret); unfold(c.ex, p); return [('as many coefficients as variables', And(p.n == p.m, p.n >= 0, p.n < MAXVAR + 1)), ('same meaning', UV(p) == RV(x_of(c[0])))]
    def templates(s, ex, lid, L):
        c = ex.topspec; t = x_of(c[0]) / 2; out = []
        for vid, lv in sorted(ex.frames[-1].vars.items()):
            if not (isinstance(lv, LV) and lv.ty is not None and lv.ty.q == 'yaga::utils::Linear_polynomial'): continue
            p = lambda e, lv=lv: U(O(e, e.st, lv))
            out.append(('shape %s' % vid, lambda e, p=p: And(p(e).n == p(e).m, p(e).n >= 0)))
            for n, rd in L.counters:
                out += [('sum %s %s' % (vid, n), lambda e, p=p, rd=rd: (unfold(e, p(e)), UV(p(e)) == terms.tsum(e, ARG(t), rd(e)))[1]), ('size %s %s' % (vid, n), lambda e, p=p, rd=rd: p(e).n <= rd(e)),
                        ('constant %s %s' % (vid, n), lambda e, p=p, rd=rd: Implies(rd(e) == 0, And(p(e).n == 0, p(e).k == 0)))]
        return out


class Force(Poly):
    q = 'yaga::parser::Internalizer_config::visit'
    weight = 3
    def requires(s, c):
        x = x_of(c[0]); t = x / 2; T = Tables(c.this)
        return s.common(c) + [('translated now', t == NEWT), ('a term', And(tok(x), Not(DONE(t)), Implies(TYPE(t) == 1, x % 2 == 0))), ('it can be translated', Or(t == 1, *[KIND(t) == K[n] for n in KINDS])), ('true is true', BI(IntV(1))),
                ('parts are processed', FA(lambda j: (Implies(And(j >= 0, j < CNT(t)), DONE(arg(t, j) / 2)), [arg(t, j)]))), ('not yet translated', And(Not(T.B(pos(x))), Not(T.R(pos(x))), Not(T.B(x))))]
    def modifies(s, c): return [c.this.fld('internal_bool_vars').lv, c.this.fld('internal_rational_vars').lv]
    def ensures(s, c):
        x = x_of(c[0]); t = x / 2; a, b = Tables(c.this), Tables(c.this_)
        return b.wf(t) + [('a formula gets a literal', Implies(And(TYPE(t) == 0, t > 1), b.B(pos(x)))), ('a number that is not a sum gets a variable', Implies(And(variable(x)), b.R(x))),
                         ('others stay', FA(lambda y: And(Implies(a.B(y), And(b.B(y), b.lit(y) == a.lit(y))), Implies(a.R(y), And(b.R(y), b.var(y) == a.var(y))))))]
    def templates(s, ex, lid, L):
        c = ex.topspec; x = x_of(c[0]); t = x / 2; out = []
        T = lambda e: Tables(O(e, e.st, c.thislv)); nw = lambda e: T(e).lit(pos(x)); o = lambda e, lv: O(e, e.st, lv)
        out += [('has', lambda e: T(e).B(pos(x)))]
        for vid, lv in sorted(ex.frames[-1].vars.items()):
            if isinstance(lv, LV) and lv.ty is not None and lv.ty.q == 'yaga::Literal':
                out.append(('literal %s' % vid, lambda e, lv=lv: o(e, lv).fld('value').z == nw(e)))
            if not (isinstance(lv, LV) and lv.ty is not None and lv.ty.is_std('std::vector')): continue
            el = lambda e, j, lv=lv: z3.Select(o(e, lv).leaf('[]', 'value'), j); n = lambda e, lv=lv: o(e, lv).len
            AL = lambda e, j: T(e).lit(pos(arg(t, j)))
            for cn, rd in L.counters:
                out += [('length %s %s' % (vid, cn), lambda e, n=n, rd=rd: And(n(e) == rd(e), rd(e) <= CNT(t))),
                        ('literals %s %s' % (vid, cn), lambda e, el=el, rd=rd: FA(lambda j: (Implies(And(j >= 0, j < rd(e)), And(lit_ok(el(e, j)), LT(el(e, j)) == BV(arg(t, j)))), [arg(t, j), el(e, j)]))),
                        ('forced %s %s' % (vid, cn), lambda e, el=el, rd=rd: FA(lambda j: (Implies(And(j >= 0, j < rd(e), LT(el(e, j))), LT(nw(e))), [el(e, j)])))]
            out += [('all %s' % vid, lambda e, n=n: n(e) == CNT(t)), ('all literals %s' % vid, lambda e, el=el: FA(lambda j: (Implies(And(j >= 0, j < CNT(t)), And(lit_ok(el(e, j)), LT(el(e, j)) == BV(arg(t, j)))), [arg(t, j), el(e, j)])))]
        return out


KINDS = ['ARITH_GE_ATOM', 'ARITH_EQ_ATOM', 'ARITH_BINEQ_ATOM', 'APP_TERM', 'UNINTERPRETED_TERM', 'OR_TERM', 'ITE_TERM', 'ARITH_CONSTANT', 'ARITH_PRODUCT', 'ARITH_POLY']


class Model(Force):
    model = True
    inline_only = True


CONTRACTS = [Poly(), Force(), Model()]
