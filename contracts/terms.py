"""Term construction (src/terms/Term_manager.cpp): every request yields a term that means what was requested.

Terms never change (C19), so their meaning under any one assignment is a function of the handle: B (boolean terms, by index; odd handles are
negations) and R (arithmetic terms). Term_table constructors are given their meaning here (bounded check here and for C19)."""
from spec import *
import linear

RS = z3.RealSort()
BI = z3.Function('meaning of boolean term', I, B)
RV = z3.Function('meaning of arithmetic term', I, RS)
KIND = z3.Function('kind of term', I, I)
TYPE = z3.Function('type of term', I, I)
SELF = 'boolean meaning'
UNDEF = -1
K = {n: i for i, n in enumerate('UNUSED_TERM RESERVED_TERM CONSTANT_TERM ARITH_CONSTANT UNINTERPRETED_TERM ITE_TERM APP_TERM EQ_TERM DISTINCT_TERM OR_TERM XOR_TERM ARITH_EQ_ATOM ARITH_GE_ATOM ARITH_BINEQ_ATOM ARITH_PRODUCT ARITH_POLY'.split())}


def BV(x): return If(x % 2 == 0, BI(x / 2), Not(BI(x / 2)))
BM = z3.Function('meaning of boolean handle', I, B)         # BM(x) == BV(x)
AT = z3.Function('position', I, B)          # always true: names positions for the solver
def opp(x): return If(x % 2 == 0, x + 1, x - 1)
def tok(x): return And(x >= 2, x < 2**31 - 2)
def x_of(o): return o.fld('x').z


def world(w):
    linear.world(w)
    from stl import mk, rng
    def term(ex, e, fact):
        v = ex.undef_val(ex.ety(e)); r = v.lv[('x',)]
        ex.fact(tok(r)); ex.fact(fact(r)); return v
    def argvals(ex, e, args): return ex.bind_args(e, e['fn']['pt'], args)
    def elems(ex, v):
        v = ex.rd(v) if isinstance(v, LV) else v
        r = v.lv[()]; c = O(ex, ex.st, r.b.lv).leaf('[]', 'x')
        return (lambda i: z3.Select(c, r.b.idx + i)), r.e.idx - r.b.idx
    def or_term(ex, e, this, args):
        a, n = elems(ex, argvals(ex, e, args)[0])
        if z3.is_int_value(z3.simplify(n)): return term(ex, e, lambda r: And(r % 2 == 0, TYPE(r / 2) == 0, BV(r) == Or(*[BV(a(i)) for i in range(z3.simplify(n).as_long())])))
        W = ex.fresh(I, 'true argument')
        return term(ex, e, lambda r: And(r % 2 == 0, TYPE(r / 2) == 0, FA(lambda j: (Implies(And(j >= 0, j < n, BV(a(j))), BV(r)), [a(j)])), Implies(BV(r), And(W >= 0, W < n, BV(a(W))))))
    w.natives[('q', 'yaga::terms::Term_table::or_term')] = or_term
    w.natives[('q', 'yaga::terms::Term_manager::get_type')] = lambda ex, e, this, args: mk(ex, e, TYPE(xv(ex, e, args) / 2))
    def xv(ex, e, args, i=0):
        v = argvals(ex, e, args)[i]; v = ex.rd(v) if isinstance(v, LV) else v
        return v.lv[('x',)]
    w.natives[('q', 'yaga::terms::Term_manager::get_type')] = lambda ex, e, this, args: mk(ex, e, TYPE(xv(ex, e, args) / 2))
    def three(ex, e, this, args):       # compiler-generated comparison of handles
        a, b = xv(ex, e, args, 0), xv(ex, e, args, 1)
        return Val(ex.ety(e), {(): If(a < b, IntV(-1), If(a == b, IntV(0), IntV(1)))})
    w.natives[('q', 'yaga::terms::operator<=>')] = three
    for n in ('get_kind',):
        for c in ('Term_manager', 'Term_table'): w.natives[('q', 'yaga::terms::%s::%s' % (c, n))] = lambda ex, e, this, args: mk(ex, e, KIND(xv(ex, e, args) / 2))


    # -- arithmetic ------------------------------------------------------------------------------------------
    def kind_is(n):
        return lambda ex, e, this, args: mk(ex, e, KIND(xv(ex, e, args) / 2) == K[n])
    for q, n in (('is_arithmetic_constant', 'ARITH_CONSTANT'), ('is_uninterpreted_constant', 'UNINTERPRETED_TERM'), ('is_arithmetic_product', 'ARITH_PRODUCT'), ('is_arithmetic_polynomial', 'ARITH_POLY'), ('is_ite', 'ITE_TERM'), ('is_app', 'APP_TERM')):
        w.natives[('q', 'yaga::terms::Term_table::' + q)] = kind_is(n)
    def ratref(ex, e, z, nm):
        lv = ex.new_root('%s:%s%s' % (ex.ctxname(), nm, e['_i']), ex.ety(e).nonref()); ex.wr(lv, Val(lv.ty, {(): z})); return lv
    def value_of(ex, e, this, args):
        x = xv(ex, e, args); ex.oblige('a constant', KIND(x / 2) == K['ARITH_CONSTANT'], 'pre')
        ex.fact((RV(x) == 0) == (x == 4))       # equal numbers are one term (C19)
        return ratref(ex, e, RV(x), 'value')
    w.natives[('q', 'yaga::terms::Term_table::arithmetic_constant_value')] = value_of
    def product_facts(ex, x):
        ex.oblige('a product', KIND(x / 2) == K['ARITH_PRODUCT'], 'pre')
        ex.fact(And(RV(x) == COEF(x) * RV(VAR(x)), COEF(x) != 0, variable(VAR(x))))
    def coeff_of(ex, e, this, args):
        x = xv(ex, e, args); product_facts(ex, x); return ratref(ex, e, COEF(x), 'coeff')
    w.natives[('q', 'yaga::terms::Term_table::coeff_of_product')] = coeff_of
    def var_of(ex, e, this, args):
        x = xv(ex, e, args); product_facts(ex, x); v = ex.undef_val(ex.ety(e)); ex.fact(v.lv[('x',)] == VAR(x)); return v
    w.natives[('q', 'yaga::terms::Term_table::var_of_product')] = var_of
    def real(ex, v):
        v = ex.rd(v) if isinstance(v, LV) else v
        return v.z
    def constant(ex, e, this, args):
        z = real(ex, argvals(ex, e, args)[0])
        return term(ex, e, lambda r: And(arith(r), KIND(r / 2) == K['ARITH_CONSTANT'], RV(r) == z, (z == 0) == (r == 4)))
    w.natives[('q', 'yaga::terms::Term_table::arithmetic_constant')] = constant
    def product(ex, e, this, args):
        a = argvals(ex, e, args); c = real(ex, a[0]); v = xv(ex, e, args, 1)
        ex.oblige('product of a number and a variable', And(variable(v), c != 0), 'pre')
        return term(ex, e, lambda r: And(arith(r), KIND(r / 2) == K['ARITH_PRODUCT'], RV(r) == c * RV(v), COEF(r) == c, VAR(r) == v))
    w.natives[('q', 'yaga::terms::Term_table::arithmetic_product')] = product
    def atom(kind, n, meaning):
        def h(ex, e, this, args):
            xs = [xv(ex, e, args, i) for i in range(n)]
            ex.oblige('arithmetic terms', And(*[arith(x) for x in xs]), 'pre')
            if n == 2: ex.oblige('a variable and a variable or number', And(variable(xs[0]), Or(variable(xs[1]), KIND(xs[1] / 2) == K['ARITH_CONSTANT'])), 'pre')
            return term(ex, e, lambda r: And(r % 2 == 0, TYPE(r / 2) == 0, KIND(r / 2) == K[kind], BV(r) == meaning(*[RV(x) for x in xs])))
        return h
    w.natives[('q', 'yaga::terms::Term_table::arithmetic_geq_zero')] = atom('ARITH_GE_ATOM', 1, lambda a: a >= 0)
    w.natives[('q', 'yaga::terms::Term_table::arithmetic_eq_zero')] = atom('ARITH_EQ_ATOM', 1, lambda a: a == 0)
    w.natives[('q', 'yaga::terms::Term_table::arithmetic_binary_eq')] = atom('ARITH_BINEQ_ATOM', 2, lambda a, b: a == b)
    def ite(ex, e, this, args):
        c, a, b = [xv(ex, e, args, i) for i in range(3)]
        ex.oblige('condition and arithmetic terms', And(tok(c), arith(a), arith(b)), 'pre')
        return term(ex, e, lambda r: And(arith(r), KIND(r / 2) == K['ITE_TERM'], RV(r) == If(BV(c), RV(a), RV(b))))
    w.natives[('q', 'yaga::terms::Term_table::arithmetic_ite')] = ite
    def monomials(ex, e, this, args):
        x = xv(ex, e, args); ex.oblige('a polynomial', KIND(x / 2) == K['ARITH_POLY'], 'pre')
        root = ex.fresh_root('%s:monomials%s' % (ex.ctxname(), e['_i']), term_vector(ex)); o = O(ex, ex.st, root); a = o.leaf('[]', 'x'); n = o.len
        ex.fact(And(n >= 2, n <= MAXVAR, RV(x) == TS(a, n), FA(lambda j: (Implies(And(j >= 0, j < n), arith(a[j])), [a[j]]))))
        return Val(ex.ety(e).nonref(), {(): Range(Iter(root, IntV(0), False, None), Iter(root, n, False, None))})
    w.natives[('q', 'yaga::terms::Term_table::monomials_of')] = monomials
    def polynomial(ex, e, this, args):
        a, n = elems(ex, argvals(ex, e, args)[0]); p = PO(ex.topspec[0])
        ex.oblige('at least two monomials', n >= 2, 'pre')
        ex.oblige('arithmetic terms', FA(lambda j: (Implies(And(j >= 0, j < n), arith(a(j))), [a(j)])), 'pre')
        # sums of equal summands are equal
        same = And(n == p.n, FA(lambda j: (Implies(And(j >= 0, j < n), RV(a(j)) == p.c(j) * XV(p.x(j))), [a(j)])))
        return term(ex, e, lambda r: And(arith(r), KIND(r / 2) == K['ARITH_POLY'], Implies(same, RV(r) == p.value())))
    w.natives[('q', 'yaga::terms::Term_table::arithmetic_polynomial')] = polynomial
    # -- polynomials (C20) -----------------------------------------------------------------------------------------
    PT = 'yaga::Polynomial<yaga::terms::term_t>::'
    def pobj(ex, lv): return PO(O(ex, ex.st, lv))
    def changed(ex, this):
        for p in PLEAVES: ex.wr_leaf(this, p, ex.fresh(ex.rd_raw(ex.st, this, p).sort(), 'poly'))
        n = pobj(ex, this); ex.fact(n.wf()); n.unfold(ex); return n
    def merge(ex, e, this, args):
        a = argvals(ex, e, args); c = real(ex, a[1])
        o = pobj(ex, a[0]) if isinstance(a[0], LV) else PO(a[0]); old = pobj(ex, this)
        ex.oblige('polynomials', And(old.wf(), o.wf(), c != 0), 'pre')
        n = changed(ex, this)
        ex.fact(n.value() == old.value() + c * o.value())
        ex.fact(Implies(And(n.n == 0, c == -1), old.canon() == o.canon()))      # equal polynomials
    w.natives[('q', PT + 'merge')] = merge
    def add_term(ex, e, this, args):
        v = xv(ex, e, args, 0); c = real(ex, argvals(ex, e, args)[1]); old = pobj(ex, this)
        ex.oblige('a new variable and a coefficient', And(old.n == 0, c != 0, Or(v == UNDEF, variable(v))), 'pre')
        n = changed(ex, this)
        ex.fact(And(n.n == 1, n.value() == c * XV(v)))
    w.natives[('q', PT + 'add_term')] = add_term
    def scaled(get):
        def h(ex, e, this, args):
            old = pobj(ex, this); k = get(ex, e, args)
            ex.oblige('a polynomial', And(old.wf(), k != 0), 'pre')
            n = changed(ex, this); ex.fact(And(n.n == old.n, n.value() == k * old.value()))
        return h
    w.natives[('q', PT + 'negate')] = scaled(lambda ex, e, args: z3.RealVal(-1))
    w.natives[('q', PT + 'multiply_by')] = scaled(lambda ex, e, args: real(ex, argvals(ex, e, args)[0]))
    w.natives[('q', PT + 'divide_by')] = scaled(lambda ex, e, args: 1 / real(ex, argvals(ex, e, args)[0]))


PLEAVES = [('poly', 'len'), ('poly', '[]', 'var', 'x'), ('poly', '[]', 'coeff')]
AI, AR = z3.ArraySort(I, I), z3.ArraySort(I, RS)
PV = z3.Function('sum of monomials', AI, AR, I, RS)
CANON = z3.Function('term of a polynomial', AI, AR, I, I)
TS_ = z3.Function('sum of terms', AI, I, RS)
COEF = z3.Function('coefficient of product', I, RS)
VAR = z3.Function('variable of product', I, I)


def TS(a, n): return TS_(a, n)
def TSB(a, n): return TS(a.a, n)
def XV(x): return If(x == UNDEF, z3.RealVal(1), RV(x))
def arith(x):
    k = KIND(x / 2)
    return And(tok(x), x % 2 == 0, TYPE(x / 2) == 1, Or(*[k == K[n] for n in ('ARITH_CONSTANT', 'UNINTERPRETED_TERM', 'ITE_TERM', 'APP_TERM', 'ARITH_PRODUCT', 'ARITH_POLY')]))
def variable(x):
    k = KIND(x / 2)
    return And(tok(x), x % 2 == 0, TYPE(x / 2) == 1, Or(*[k == K[n] for n in ('UNINTERPRETED_TERM', 'ITE_TERM', 'APP_TERM')]))
def term_vector(ex): return [t for t in ex.prog.types if t.k == 'rec' and t.is_std('std::vector') and t.targs and t.targs[0].s == 'yaga::terms::term_t'][0]


class PO:
    """a polynomial: variables in increasing order (the constant first), coefficients not zero"""
    def __init__(s, o):
        if isinstance(o, Val): s.n, s.xs, s.cs = [o.lv[p] for p in PLEAVES]
        else: s.n, s.xs, s.cs = [o.leaf(*p) for p in PLEAVES]
    def x(s, j): return z3.Select(s.xs, j)
    def c(s, j): return z3.Select(s.cs, j)
    def wf(s):
        return And(s.n >= 0, s.n <= MAXVAR, FA(lambda j: (Implies(And(j >= 0, j < s.n), And(s.c(j) != 0, Or(s.x(j) == UNDEF, variable(s.x(j))))), [s.x(j)], )), FA(lambda j: (Implies(And(j >= 0, j < s.n), s.c(j) != 0), [s.c(j)])),
                   FA(lambda i, j: (Implies(And(i >= 0, i < j, j < s.n), s.x(i) < s.x(j)), [(s.x(i), s.x(j))]), 2))
    def value(s): return PV(s.xs, s.cs, s.n)
    def canon(s): return CANON(s.xs, s.cs, s.n)
    def unfold(s, ex):
        for k in (0, 1, 2): ex.fact(PV(s.xs, s.cs, IntV(k)) == sum([s.c(i) * XV(s.x(i)) for i in range(k)], z3.RealVal(0)))


class Boolean(Contract):
    """a request for a boolean term: the meaning of the result is a function of the meanings of the arguments"""
    n = 2
    def requires(s, c):
        x = z3.Int('x!any')
        return [('terms', And(*[tok(x_of(c[i])) for i in range(s.n)])), ('true is true', BI(IntV(1)))] + ([('table', c.this.fld('term_table').z > 0)] if c.thislv is not None else [])
    def ensures(s, c):
        r = x_of(c.ret)
        return [('a term', tok(r)), ('meaning', BV(r) == s.meaning(*[BV(x_of(c[i])) for i in range(s.n)]))]


class Opposite(Boolean):
    q = 'yaga::terms::opposite_term'; n = 1
    def meaning(s, a): return Not(a)
    def ensures(s, c): return Boolean.ensures(s, c) + [('handle', x_of(c.ret) == opp(x_of(c[0])))]
class Binary_or(Boolean):
    q = 'yaga::terms::Term_manager::mk_binary_or'
    def meaning(s, a, b): return Or(a, b)
class Binary_and(Boolean):
    q = 'yaga::terms::Term_manager::mk_binary_and'
    def meaning(s, a, b): return And(a, b)
class Implies_(Boolean):
    q = 'yaga::terms::Term_manager::mk_implies'
    def meaning(s, a, b): return Implies(a, b)
class Iff(Boolean):
    q = 'yaga::terms::Term_manager::mk_iff'
    def meaning(s, a, b): return a == b
class Xor(Boolean):
    q = 'yaga::terms::Term_manager::mk_xor'
    def meaning(s, a, b): return a != b
class Bool_ite(Boolean):
    q = 'yaga::terms::Term_manager::mk_bool_ite'; n = 3
    def meaning(s, a, b, c): return If(a, b, c)


class ARGS:
    """elements of a span parameter, in some state"""
    def __init__(s, c, post=False, i=0):
        r = c.args[i]; r = c.ex.rd(r) if isinstance(r, LV) else r
        r = r.lv[()]; s.lv = r.b.lv; s.b = r.b.idx; s.n = r.e.idx - r.b.idx
        s.a = O(c.ex, c.postst if post else c.prest, s.lv).leaf('[]', 'x'); s.c = c
    def __getitem__(s, j): return z3.Select(s.a, s.b + j)
    def at(s, e): return O(e, e.st, s.lv).leaf('[]', 'x')


class Span(Boolean):
    n = 0
    def setup(s, c):
        ty = [t for t in c.ex.prog.types if t.k == 'rec' and t.is_std('std::vector') and t.targs and t.targs[0].s == 'yaga::terms::term_t'][0]
        root = c.ex.new_root('arguments', ty); n = O(c.ex, c.ex.st, root).len
        c.ex.fact(And(n >= 0, n <= MAXVAR))
        c.args[0] = Val(c.args[0].ty.nonref(), {(): Range(Iter(root, IntV(0), False, None), Iter(root, n, False, None))})
        c.prest = c.ex.st
    def requires(s, c):
        a = ARGS(c)
        return [('terms', FA(lambda j: (Implies(And(j >= 0, j < a.n), tok(a[j])), [a[j]]))), ('true is true', BI(IntV(1))), ('table', c.this.fld('term_table').z > 0)]
    def modifies(s, c): return [ARGS(c).lv]


class Or_(Span):
    q = 'yaga::terms::Term_manager::mk_or'
    U = False
    def ensures(s, c):
        a = ARGS(c); r = x_of(c.ret); W = z3.Int('argument that decides'); u = s.U
        return [('a term', tok(r)), ('decided by an argument', FA(lambda j: (Implies(And(j >= 0, j < a.n, BV(a[j]) != u), BV(r) != u), [a[j]]))),
                ('not decided otherwise', Implies(FA(lambda j: (Implies(And(j >= 0, j < a.n), BV(a[j]) == u), [a[j]])), BV(r) == u))]
    def templates(s, ex, lid, L):
        c = ex.topspec; a = ARGS(c); out = []
        v = z3.Int('v!bm'); ex.fact(z3.ForAll([v], BM(v) == BV(v), patterns=[BM(v)])); ex.fact(z3.ForAll([v], AT(v), patterns=[AT(v)]))
        srt = O(ex, ex.st, a.lv).leaf('[]', 'x')
        none = lambda ar, n: FA(lambda j: (Implies(And(j >= 0, j < n, AT(j)), Not(BM(z3.Select(ar, j)))), [AT(j), z3.Select(ar, j)]))
        S = ex.st.mem
        ints = [(n, rd) for n, rd in list(L.counters) + [(n, rd) for n, rd, k, e0 in L.unm if k == 'int'] if not n.endswith('.x')]
        handles = [('h%d' % vid, lv) for vid, lv in sorted(ex.frames[-1].vars.items()) if isinstance(lv, LV) and lv.ty is not None and lv.ty.q == 'yaga::terms::term_t']
        for i, ri in ints:
            for k, rk in ints:
                if i == k: continue
                out += [('bounds %s %s' % (i, k), lambda e, ri=ri, rk=rk: And(rk(e) >= 0, rk(e) <= ri(e), ri(e) >= 1, *[AT(x) for x in (rk(e), rk(e) - 1, ri(e), ri(e) - 1)])),
                        ('rest %s %s' % (i, k), lambda e, ri=ri: FA(lambda j: (Implies(j >= ri(e), z3.Select(a.at(e), j) == z3.Select(srt, j)), [z3.Select(a.at(e), j)]))),
                        ('kept %s %s' % (i, k), lambda e, ri=ri, rk=rk: Implies(none(a.at(e), rk(e)), none(srt, ri(e)))),
                        ('only %s %s' % (i, k), lambda e, rk=rk: Implies(none(srt, a.n), none(a.at(e), rk(e))))]
                for h, lv in handles:
                    x = lambda e, lv=lv: O(e, e.st, lv).fld('x').z
                    out += [('last %s %s %s' % (h, i, k), lambda e, x=x, ri=ri: x(e) == z3.Select(srt, ri(e) - 1)),
                            ('kept last %s %s %s' % (h, i, k), lambda e, x=x, rk=rk: And(Implies(rk(e) == 0, x(e) == 3), Implies(rk(e) >= 1, x(e) == z3.Select(a.at(e), rk(e) - 1)))),
                            ('above %s' % h, lambda e, x=x: x(e) >= 3)]
        return out


class And_(Or_):
    q = 'yaga::terms::Term_manager::mk_and'
    U = True
    def templates(s, ex, lid, L):
        c = ex.topspec; a = ARGS(c)
        return [x for n, rd in L.counters for x in
                [('flipped ' + n, lambda e, rd=rd: FA(lambda j: (Implies(And(j >= 0, j < rd(e)), z3.Select(a.at(e), j) == opp(a[j])), [z3.Select(a.at(e), j)], ))),
                 ('seen ' + n, lambda e, rd=rd: FA(lambda j: (Implies(And(j >= 0, j < rd(e)), z3.Select(a.at(e), j) == opp(a[j])), [a[j]]))),
                 ('rest ' + n, lambda e, rd=rd: FA(lambda j: (Implies(j >= rd(e), z3.Select(a.at(e), j) == a[j]), [z3.Select(a.at(e), j)])))]]


def polys(ex):
    return [('p%d' % vid, lv) for vid, lv in sorted(ex.frames[-1].vars.items()) if isinstance(lv, LV) and lv.ty is not None and lv.ty.k == 'rec' and lv.ty.q == 'yaga::Polynomial']


def tsum(e, a, n):
    e.fact(And(TS(a, IntV(0)) == 0, TS(a, n + 1) == TS(a, n) + RV(z3.Select(a, n))))
    return TS(a, n)


def summed(ex, L, a):
    out = []
    for pn, lv in polys(ex):
        p = lambda e, lv=lv: PO(O(e, e.st, lv))
        out.append(('polynomial %s' % pn, lambda e, p=p: p(e).wf()))
        out += [('sum %s %s' % (pn, n), lambda e, rd=rd, p=p: (p(e).unfold(e), p(e).value() == tsum(e, a, rd(e)))[1]) for n, rd in L.counters]
    return out


class To_poly(Contract):
    """the polynomial of an arithmetic term"""
    q = 'yaga::terms::Term_manager::term_to_poly'
    def requires(s, c): return [('an arithmetic term', arith(x_of(c[0]))), ('zero is zero', RV(IntV(4)) == 0), ('table', c.this.fld('term_table').z > 0)]
    def ensures(s, c):
        r = PO(c.ret); r.unfold(c.ex)
        if c.ex.topspec is c: c.ex.fact(r.canon() == x_of(c[0]))        # assumption: one term per polynomial (bounded search here and for C19)
        return [('the term of its polynomial', r.canon() == x_of(c[0])), ('a polynomial', r.wf()), ('same meaning', r.value() == RV(x_of(c[0])))]
    def templates(s, ex, lid, L):
        root = [k for k in ex.st.mem if ':monomials' in str(k)]
        if not root: return []
        a = O(ex, ex.st, LV(root[-1], (), (), term_vector(ex))).leaf('[]', 'x')
        return summed(ex, L, a)


class To_term(Contract):
    q = 'yaga::terms::Term_manager::poly_to_term'
    def requires(s, c): return [('a polynomial', PO(c[0]).wf()), ('zero is zero', And(RV(IntV(4)) == 0, arith(IntV(4)))), ('table', c.this.fld('term_table').z > 0)]
    def lemmas(s, c): PO(c[0]).unfold(c.ex); return []
    def templates(s, ex, lid, L):
        c = ex.topspec; p = PO(c[0]); out = []
        for vid, lv in sorted(ex.frames[-1].vars.items()):
            if isinstance(lv, LV) and lv.ty is not None and lv.ty.k == 'rec' and lv.ty.is_std('std::vector'):
                o = lambda e, lv=lv: O(e, e.st, lv)
                for n, rd in L.counters:
                    out += [('translated %s %s' % (vid, n), lambda e, o=o, rd=rd: FA(lambda j: (Implies(And(j >= 0, j < rd(e)), And(arith(z3.Select(o(e).leaf('[]', 'x'), j)), RV(z3.Select(o(e).leaf('[]', 'x'), j)) == p.c(j) * XV(p.x(j)))), [z3.Select(o(e).leaf('[]', 'x'), j)]))),
                            ('count %s %s' % (vid, n), lambda e, o=o, rd=rd: o(e).len == rd(e))]
        return out
    def ensures(s, c):
        r = x_of(c.ret); p = PO(c[0])
        return [('an arithmetic term', arith(r)), ('same meaning', RV(r) == p.value())]


class Arithmetic(Boolean):
    def requires(s, c): return [('arithmetic terms', And(*[arith(x_of(c[i])) for i in range(s.n)])), ('constants', And(RV(IntV(4)) == 0, arith(IntV(4)), BI(IntV(1)))), ('table', c.this.fld('term_table').z > 0)]
    def ensures(s, c):
        r = x_of(c.ret)
        return [('a term', tok(r)), ('meaning', BV(r) == s.meaning(*[RV(x_of(c[i])) for i in range(s.n)]))]


class Geq(Arithmetic):
    q = 'yaga::terms::Term_manager::mk_arithmetic_geq'
    def meaning(s, a, b): return a >= b
class Leq(Arithmetic):
    q = 'yaga::terms::Term_manager::mk_arithmetic_leq'
    def meaning(s, a, b): return a <= b
class Lt(Arithmetic):
    q = 'yaga::terms::Term_manager::mk_arithmetic_lt'
    def meaning(s, a, b): return a < b
class Gt(Arithmetic):
    q = 'yaga::terms::Term_manager::mk_arithmetic_gt'
    def meaning(s, a, b): return a > b
class Eq(Arithmetic):
    q = 'yaga::terms::Term_manager::mk_arithmetic_eq'
    def meaning(s, a, b): return a == b
class Direct_eq(Arithmetic):
    q = 'yaga::terms::Term_manager::direct_arithmetic_binary_equality'
    def requires(s, c):
        a, b = x_of(c[0]), x_of(c[1]); num = lambda x: And(arith(x), KIND(x / 2) == K['ARITH_CONSTANT'])
        return Arithmetic.requires(s, c) + [('different; variables, or a variable and a number', And(a != b, Or(variable(a), variable(b)), Or(variable(a), num(a)), Or(variable(b), num(b))))]
    def meaning(s, a, b): return a == b


class Number(Arithmetic):
    def ensures(s, c):
        r = x_of(c.ret)
        return [('an arithmetic term', arith(r)), ('meaning', RV(r) == s.meaning(*[RV(x_of(c[i])) for i in range(s.n)]))]


class Minus(Number):
    q = 'yaga::terms::Term_manager::mk_arithmetic_minus'
    def meaning(s, a, b): return a - b
class Unary_minus(Number):
    q = 'yaga::terms::Term_manager::mk_unary_minus'; n = 1
    def meaning(s, a): return -a
class Divides(Number):
    q = 'yaga::terms::Term_manager::mk_divides'
    def requires(s, c): return Number.requires(s, c) + [('divided by a number', And(KIND(x_of(c[1]) / 2) == K['ARITH_CONSTANT'], RV(x_of(c[1])) != 0))]
    def meaning(s, a, b): return a / b
class Arith_ite(Boolean):
    q = 'yaga::terms::Term_manager::mk_arithmetic_ite'; n = 3
    def requires(s, c): return Boolean.requires(s, c) + [('arithmetic terms', And(arith(x_of(c[1])), arith(x_of(c[2]))))]
    def ensures(s, c):
        r = x_of(c.ret); a, b, d = [x_of(c[i]) for i in range(3)]
        return [('an arithmetic term', arith(r)), ('meaning', RV(r) == If(BV(a), RV(b), RV(d)))]


class Plus(Span):
    q = 'yaga::terms::Term_manager::mk_arithmetic_plus'
    def requires(s, c):
        a = ARGS(c)
        return [('arithmetic terms', FA(lambda j: (Implies(And(j >= 0, j < a.n), arith(a[j])), [a[j]]))), ('constants', And(RV(IntV(4)) == 0, arith(IntV(4)))), ('table', c.this.fld('term_table').z > 0)]
    def modifies(s, c): return []
    def ensures(s, c):
        a = ARGS(c); r = x_of(c.ret)
        return [('an arithmetic term', arith(r)), ('meaning', RV(r) == TSB(a, a.n))]


    def templates(s, ex, lid, L): return summed(ex, L, ARGS(ex.topspec).a)


class Times(Plus):
    q = 'yaga::terms::Term_manager::mk_arithmetic_times'
    def requires(s, c):
        a = ARGS(c)
        return Plus.requires(s, c) + [('linear', And(a.n <= 2, Implies(a.n == 2, Or(*[KIND(a[i] / 2) == K['ARITH_CONSTANT'] for i in (IntV(0), IntV(1))]))))]
    def modifies(s, c): return [ARGS(c).lv]
    def templates(s, ex, lid, L):
        a = ARGS(ex.topspec); out = []
        for vn, lv in linear.reals(ex):
            for n, rd in L.counters:
                out.append(('product %s %s' % (vn, n), lambda e, lv=lv, rd=rd: O(e, e.st, lv).z == If(rd(e) == 0, z3.RealVal(1), If(rd(e) == 1, RV(z3.Select(a.at(e), 0)), RV(z3.Select(a.at(e), 0)) * RV(z3.Select(a.at(e), 1))))))
                out.append(('few ' + n, lambda e, rd=rd: And(rd(e) >= 0, rd(e) <= 2)))
        return out
    def ensures(s, c):
        a = ARGS(c); r = x_of(c.ret)
        return [('an arithmetic term', arith(r)), ('meaning', RV(r) == If(a.n == 0, z3.RealVal(1), If(a.n == 1, RV(a[0]), RV(a[0]) * RV(a[1]))))]




class Typed(Boolean):
    """a request whose meaning depends on the type of its arguments"""
    def requires(s, c):
        x = [x_of(c[i]) for i in range(s.n)]
        return Boolean.requires(s, c) + [('constants', And(RV(IntV(4)) == 0, arith(IntV(4)))), ('terms of real type are arithmetic', And(*[Implies(TYPE(v / 2) == 1, arith(v)) for v in x])), ('arguments of one type, bool or real', And(TYPE(x[s.n - 2] / 2) == TYPE(x[s.n - 1] / 2), Or(*[TYPE(x[s.n - 1] / 2) == i for i in (0, 1)])))]
    def ensures(s, c):
        x = [x_of(c[i]) for i in range(s.n)]; r = x_of(c.ret); i = s.n - 2
        num, boo = s.types(x)
        return [('a term', tok(r)), ('meaning for numbers', Implies(TYPE(x[i] / 2) == 1, num(r))), ('meaning for booleans', Implies(TYPE(x[i] / 2) == 0, boo(r)))]


class Binary_eq(Typed):
    q = 'yaga::terms::Term_manager::mk_binary_eq'
    def types(s, x): return (lambda r: BV(r) == (RV(x[0]) == RV(x[1]))), (lambda r: BV(r) == (BV(x[0]) == BV(x[1])))
class Ite(Typed):
    q = 'yaga::terms::Term_manager::mk_ite'; n = 3
    def requires(s, c): return Typed.requires(s, c) + [('boolean condition', TYPE(x_of(c[0]) / 2) == 0)]
    def types(s, x): return (lambda r: And(arith(r), RV(r) == If(BV(x[0]), RV(x[1]), RV(x[2])))), (lambda r: BV(r) == If(BV(x[0]), BV(x[1]), BV(x[2])))


CONTRACTS = [Opposite(), Binary_or(), Binary_and(), Implies_(), Iff(), Xor(), Bool_ite(), Or_(), And_(), To_poly(), To_term(), Geq(), Leq(), Lt(), Gt(), Eq(), Direct_eq(), Minus(), Unary_minus(), Divides(), Arith_ite(), Plus(), Times(), Binary_eq(), Ite()]
