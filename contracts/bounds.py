"""Bounds of variables: stacks of bounds sorted from the weakest to the tightest; the queries return the tightest valid bound.

An Implied_value never changes after construction, so a bound is represented by an identity; what its accessors return are functions of the identity.
Their definitions are verified in bound.py."""
from spec import *
import linear
from linear import LCV, EQ, LT, LEQ, holds

RS = z3.RealSort()
IVQ = 'yaga::Implied_value'
VAL = z3.Function('bound value', I, RS)
VAR = z3.Function('bound variable', I, I)
STRICT = z3.Function('bound is strict', I, B)
OBS = z3.Function('bound is obsolete', I, B)


def leaf_fn(ty, p, srt): return z3.Function('reason of the bound.' + '.'.join(p), I, srt)


def reason_leaf(h, ex, ty, *p):
    return leaf_fn(ty, p, ex.w.shape(ty)[p])(h)


def handle(ex, this):
    return ex.rd(this).z if isinstance(this, LV) else this.z


def world(w):
    linear.world(w)
    w.abstract[IVQ] = {(): I}
    from stl import mk
    N = w.natives
    q = lambda n: ('q', IVQ + '::' + n)
    N[q('is_obsolete')] = lambda ex, e, this, args: mk(ex, e, OBS(handle(ex, this)))
    N[q('is_strict')] = lambda ex, e, this, args: mk(ex, e, STRICT(handle(ex, this)))
    N[q('var')] = lambda ex, e, this, args: mk(ex, e, VAR(handle(ex, this)))

    def by_ref(f):
        def h(ex, e, this, args):
            ty = ex.w.prog.types[e['fn']['rt']].nonref() if 'rt' in e['fn'] else ex.ety(e).nonref()
            lv = ex.new_root('%s:acc%s' % (ex.ctxname(), e['_i']), ty)
            hd = handle(ex, this)
            f(ex, lv, ty, hd)
            return lv
        return h

    def value(ex, lv, ty, hd): ex.wr(lv, Val(ty, {(): VAL(hd)}))
    def reason(ex, lv, ty, hd): ex.wr(lv, Val(ty, {p: leaf_fn(ty, p, srt)(hd) for p, srt in ex.w.shape(ty).items()}))
    N[q('value')] = by_ref(value)
    N[q('reason')] = by_ref(reason)

    def ctor(ex, e, lv, args):
        if len(args) == 1:
            v = ex.ev(args[0]) if not args[0].get('lv') else ex.rd(ex.lv(args[0]))
            ex.wr(lv, Val(lv.ty, dict(v.lv))); return
        h = ex.fresh(I, 'bound')
        var = ex.ev(args[0]).z
        val = ex.rd(ex.lv(args[1])).z if args[1].get('lv') else ex.ev(args[1]).z
        cl = ex.lv(args[2]) if args[2].get('lv') else None
        cv = ex.rd(cl) if cl is not None else ex.ev(args[2])
        for a in args[3:]:
            if a.get('lv'): ex.lv(a)
        ex.fact(And(VAR(h) == var, VAL(h) == val))
        k = cv.lv
        for p, srt in ex.w.shape(cv.ty).items(): ex.fact(leaf_fn(cv.ty, p, srt)(h) == k[p])
        ex.fact(Not(OBS(h)))          # just derived from the current assignment (definition checked in bound.py)
        lit, pred = k[('literal', 'value')], k[('predicate', 'type')]
        if len(args) == 4: ex.fact(STRICT(h) == Not(z3.Xor(lit < 0, holds(pred, z3.RealVal(0), z3.RealVal(0)))))
        ex.wr(lv, Val(lv.ty, {(): h}))
    N[('ctor', IVQ)] = ctor


class S:
    """one stack (vector) of bounds"""
    def __init__(s, o): s.o = o; s.n = o.len; s.a = o.leaf('[]')
    def at(s, i): return z3.Select(s.a, i)


def better(lower, x, y):
    """bound x is tighter than y"""
    lt = VAL(x) > VAL(y) if lower else VAL(x) < VAL(y)
    return Or(lt, And(VAL(x) == VAL(y), STRICT(x), Not(STRICT(y))))


def excludes(lower, x, v):
    """bound x excludes the value v"""
    return Or(v < VAL(x) if lower else v > VAL(x), And(v == VAL(x), STRICT(x)))


def is_sorted(lower, s):
    return ('the stack is sorted', FA(lambda i, j: Implies(And(i >= 0, i < j, j < s.n), better(lower, s.at(j), s.at(i))), 2))


def sizes(s): return ('size', And(s.n >= 0, s.n < MAXLEN - 2))


class VB(Contract):
    inline_only = True
    def st(s, o, n): return S(o.fld(n))
    def modifies(s, c): return [c.this.fld(n).lv for n in ('ub', 'lb', 'disallowed')]
    def pre(s, c): return [(l[0] + ' of ' + n, l[1]) for n, low in (('ub', False), ('lb', True)) for l in (sizes(s.st(c.this, n)), is_sorted(low, s.st(c.this, n)))] + [sizes(s.st(c.this, 'disallowed'))]
    def post(s, c, names=('ub', 'lb')): return [('after: ' + is_sorted(low, S(c.this_.fld(n)))[0] + ' ' + n, is_sorted(low, S(c.this_.fld(n)))[1]) for n, low in (('ub', False), ('lb', True)) if n in names]


class Remove_obsolete(Contract):
    q = 'yaga::Variable_bounds::remove_obsolete'
    def requires(s, c): return [sizes(S(c[0]))]
    def modifies(s, c): return [c[0].lv]
    def rel(s, a, b):
        return [('a prefix is left', And(b.n >= 0, b.n <= a.n, FA(lambda i: Implies(And(i >= 0, i < b.n), b.at(i) == a.at(i))))), ('only obsolete bounds are dropped', FA(lambda i: Implies(And(i >= b.n, i < a.n), OBS(a.at(i)))))]
    def ensures(s, c):
        a, b = S(c[0]), S(c.post(0))
        return s.rel(a, b) + [('the last bound is valid', Or(b.n == 0, Not(OBS(b.at(b.n - 1)))))]
    def templates(s, ex, lid, L):
        c = ex.topspec; a = S(c[0])
        return [('rel%d' % i, lambda e, i=i: s.rel(a, S(O(e, e.st, c.args[0])))[i][1]) for i in range(2)]


class Remove_all(Contract):
    q = 'yaga::Variable_bounds::remove_all_obsolete'
    def requires(s, c): return [sizes(S(c[0]))]
    def modifies(s, c): return [c[0].lv]
    def ensures(s, c):
        a, b = S(c[0]), S(c.post(0)); h = z3.Int('any bound!h')
        inn = lambda s_, x: EX(lambda i: And(i >= 0, i < s_.n, s_.at(i) == x))
        return [('no obsolete bound is left', FA(lambda i: Implies(And(i >= 0, i < b.n), Not(OBS(b.at(i)))))), ('size', And(b.n >= 0, b.n <= a.n)),
                ('every valid bound is kept', FA(lambda i: Implies(And(i >= 0, i < a.n, Not(OBS(a.at(i)))), inn(b, a.at(i))))), ('nothing is added', FA(lambda i: Implies(And(i >= 0, i < b.n), inn(a, b.at(i)))))]


def kept(a, b): return ('valid bounds are kept, nothing is added', And(b.n <= a.n, FA(lambda i: Implies(And(i >= 0, i < b.n), b.at(i) == a.at(i))), FA(lambda i: Implies(And(i >= 0, i < a.n, Not(OBS(a.at(i)))), i < b.n))))


def pointee(c):
    """(is null, bound pointed at)"""
    x = c.res.lv[()]
    if z3.is_expr(x): return x == 0, None
    return FALSE, c.ex.rd_raw(c.postst, x.lv, ())


class Tightest(VB):
    lower = False; stack = 'ub'
    def requires(s, c): return s.pre(c)
    def ensures(s, c):
        a, b = s.st(c.this, s.stack), S(c.this_.fld(s.stack))
        null, p = pointee(c)
        r = s.post(c) + [kept(a, b)]
        none = FA(lambda i: Implies(And(i >= 0, i < a.n), OBS(a.at(i))))
        if p is None: return r + [('none only if every bound is obsolete', Implies(null, none))]
        return r + [('the bound is valid', Not(OBS(p))), ('no valid bound is tighter', FA(lambda i: Implies(And(i >= 0, i < a.n, Not(OBS(a.at(i)))), Not(better(s.lower, a.at(i), p))))),
                    ('it is one of the bounds', EX(lambda i: And(i >= 0, i < a.n, a.at(i) == p)))]


class Upper(Tightest): q = 'yaga::Variable_bounds::upper_bound'
class Lower(Tightest):
    q = 'yaga::Variable_bounds::lower_bound'
    lower = True; stack = 'lb'


class Add_bound(VB):
    lower = False; stack = 'ub'
    def requires(s, c): return s.pre(c) + [('the new bound is valid', Not(OBS(c[1].z)))]
    def ensures(s, c):
        a, b = s.st(c.this, s.stack), S(c.this_.fld(s.stack)); h = c[1].z
        last = b.at(b.n - 1)
        return s.post(c) + [('the new bound is implied by the last one', And(b.n > 0, Not(OBS(last)), Or(last == h, Not(better(s.lower, h, last))))),
                            ('added iff it is tighter', c.ret.z == (last == h)) if False else ('added means it is the last one', Implies(c.ret.z, last == h)),
                            ('not added means a valid bound is at least as tight', Implies(Not(c.ret.z), Not(better(s.lower, h, last)))),
                            ('valid bounds are kept', FA(lambda i: Implies(And(i >= 0, i < a.n, Not(OBS(a.at(i)))), And(i < b.n, b.at(i) == a.at(i)))))]


class Add_upper(Add_bound): q = 'yaga::Variable_bounds::add_upper_bound'
class Add_lower(Add_bound):
    q = 'yaga::Variable_bounds::add_lower_bound'
    lower = True; stack = 'lb'


class Check_bound(VB):
    lower = False; stack = 'ub'
    def requires(s, c): return s.pre(c)
    def ensures(s, c):
        a = s.st(c.this, s.stack); v = c[1].z
        return s.post(c) + [('allowed iff no valid bound excludes the value', c.ret.z == FA(lambda i: Implies(And(i >= 0, i < a.n, Not(OBS(a.at(i)))), Not(excludes(s.lower, a.at(i), v)))))]


class Check_upper(Check_bound): q = 'yaga::Variable_bounds::check_upper_bound'
class Check_lower(Check_bound):
    q = 'yaga::Variable_bounds::check_lower_bound'
    lower = True; stack = 'lb'


class Inequality(VB):
    q = 'yaga::Variable_bounds::inequality'
    def requires(s, c): return s.pre(c)
    def ensures(s, c):
        a = s.st(c.this, 'disallowed'); v = c[1].z
        null, p = pointee(c)
        none = FA(lambda i: Implies(And(i >= 0, i < a.n, Not(OBS(a.at(i)))), VAL(a.at(i)) != v))
        if p is None: return [('none only if no valid inequality disallows the value', Implies(null, none))]
        return [('the inequality is valid and disallows the value', And(Not(OBS(p)), VAL(p) == v))]


class Is_allowed(VB):
    q = 'yaga::Variable_bounds::is_allowed'
    weight = 3
    def requires(s, c): return s.pre(c)
    def ensures(s, c):
        l, u, d = (s.st(c.this, n) for n in ('lb', 'ub', 'disallowed')); v = c[1].z
        ok = lambda st, bad: FA(lambda i: Implies(And(i >= 0, i < st.n, Not(OBS(st.at(i)))), Not(bad(st.at(i)))))
        return [kept(s.st(c.this, n), S(c.this_.fld(n))) for n in ('lb', 'ub')] + [('allowed iff no valid bound or inequality excludes the value', c.ret.z == And(ok(l, lambda x: excludes(True, x, v)), ok(u, lambda x: excludes(False, x, v)), ok(d, lambda x: VAL(x) == v)))]


# ---- what a unit constraint says about its variable ----------------------------
class Implies_kind(Contract):
    def ro(s, c): return c[0].fld('constraints').deref()
    def requires(s, c):
        k = LCV(c[0]); ro = s.ro(c)
        return [('belongs to a repository', k.home > 0), ('stored', linear.in_repo(ro, k)), ('literal', lit_ok(k.lit)), ('not empty', Not(k.empty())), ('first coefficient is not zero', s.c0(c) != 0)]
    def c0(s, c): return s.ro(c).fld('coefficients')[LCV(c[0]).a].z
    def modifies(s, c): return []
    def sat(s, c, x, r):
        """the constraint on its first variable, the rest moved to the right-hand side r"""
        k = LCV(c[0]); return z3.Xor(k.neg(), holds(k.pred, s.c0(c) * x, r))
    def bounded(s, c, up):
        """every solution of the constraint is on one side of the value on which both sides are equal"""
        x, r = z3.Reals('x!any r!any')
        v = r / s.c0(c)
        return Implies(s.sat(c, x, r), x <= v if up else x >= v)


class Implies_upper(Implies_kind):
    q = 'yaga::Bounds::implies_upper_bound'
    def ensures(s, c): return [('solutions are below', Implies(c.ret.z, s.bounded(c, True))), ('upper bound iff an equality or an inequality in this direction', c.ret.z == s.kind(c))]
    def kind(s, c): k = LCV(c[0]); return If(k.pred == EQ, Not(k.neg()), k.neg() == (s.c0(c) < 0))


class Implies_lower(Implies_kind):
    q = 'yaga::Bounds::implies_lower_bound'
    def ensures(s, c): return [('solutions are above', Implies(c.ret.z, s.bounded(c, False))), ('lower bound iff an equality or an inequality in this direction', c.ret.z == s.kind(c))]
    def kind(s, c): k = LCV(c[0]); return If(k.pred == EQ, Not(k.neg()), k.neg() == (s.c0(c) > 0))


class Implies_eq(Implies_kind):
    q = 'yaga::Bounds::implies_equality'
    def ensures(s, c):
        k = LCV(c[0]); x, r = z3.Reals('x!any r!any')
        return [('equality', c.ret.z == And(k.pred == EQ, Not(k.neg()))), ('the only solution is the value', Implies(c.ret.z, Implies(s.sat(c, x, r), x == r / s.c0(c))))]


class Implies_neq(Implies_kind):
    q = 'yaga::Bounds::implies_inequality'
    def ensures(s, c):
        k = LCV(c[0]); x, r = z3.Reals('x!any r!any')
        return [('inequality', c.ret.z == And(k.pred == EQ, k.neg())), ('every other value is a solution', Implies(c.ret.z, s.sat(c, x, r) == (x != r / s.c0(c))))]



class Update(Contract):
    """the bound (or excluded value) the constraint on the trail puts on its first variable is recorded, and nothing else"""
    q = 'yaga::Bounds::update'
    weight = 9
    def models(s, c):
        return [O(c.ex, c.prest, s.ref(c, n)) for n in ('bool_model', 'owned_model')]
    def ref(s, c, n):
        o = c[0].fld(n); ty = o.lv.ty
        return c.ex.deref_ptr(c.ex.rd_raw(c.prest, o.lv, ()), ty.elem if ty.k in ('ref', 'ptr') else ty)
    def ro(s, c): return O(c.ex, c.prest, c.ex.deref_ptr(LCV(c[1]).home, c.ex.w.field(c.args[1].ty, 'constraints')[0].elem))
    def var(s, c): return z3.Select(s.ro(c).fld('variables').leaf('[]'), LCV(c[1]).a)
    def c0(s, c): return z3.Select(s.ro(c).fld('coefficients').leaf('[]'), LCV(c[1]).a)
    def stack(s, o, v, n): return S(o.fld('bounds')[v].fld(n))
    def requires(s, c):
        k = LCV(c[1]); ro = s.ro(c); bm, om = s.models(c); v = s.var(c)
        return [('belongs to a repository', k.home > 0), ('stored', linear.in_repo(ro, k)), ('literal', lit_ok(k.lit)), ('not empty', Not(k.empty())), ('first coefficient is not zero', s.c0(c) != 0),
                ('model', linear.model_ok(om)), ('boolean model', linear.model_ok(bm)), ('variables', linear.vars_in(ro, om, k, k.a)), ('others assigned', linear.assigned(ro, om, k, k.a + 1)),
                ('on the trail', And(lit_ord(k.lit) < bm.fld('defined').len, bm.fld('defined')[lit_ord(k.lit)].z)),
                ('bounded variable', And(v < c.this.fld('bounds').len, c.this.fld('bounds').len <= INT_MAX)), ('size', c.this.fld('updated_write').len < MAXLEN - 2)] + \
               [f for n, low in (('ub', False), ('lb', True)) for f in (sizes(s.stack(c.this, v, n)), is_sorted(low, s.stack(c.this, v, n)))] + [sizes(s.stack(c.this, v, 'disallowed'))]
    def modifies(s, c): return [c.this.fld('bounds').lv, c.this.fld('updated_write').lv]
    def ensures(s, c):
        k = LCV(c[1]); bm, om = s.models(c); v = s.var(c); ro = s.ro(c)
        d = linear.dot(c.ex, ro, om); d(k.a + 1, k.b)
        val = (k.rhs - linear.DOT(d.c, d.x, d.v, k.a + 1, k.b)) / s.c0(c)
        neg = bm.fld('values')[lit_ord(k.lit)].z == FALSE     # the variable of the constraint is false: the negative literal is on the trail
        strict = Not(z3.Xor(neg, holds(k.pred, z3.RealVal(0), z3.RealVal(0))))
        eq = k.pred == EQ; pos = s.c0(c) > 0
        kinds = {'ub': If(eq, Not(neg), neg != pos), 'lb': If(eq, Not(neg), neg == pos)}
        r = []

        for n, low in (('ub', False), ('lb', True), ('disallowed', None)):
            a, b = s.stack(c.this, v, n), s.stack(c.this_, v, n)
            old = lambda h: EX(lambda i: And(i >= 0, i < a.n, a.at(i) == h))
            new = lambda h: And(VAR(h) == v, VAL(h) == val, s.rlit(c, h) == If(neg, -z3.If(k.lit < 0, -k.lit, k.lit), z3.If(k.lit < 0, -k.lit, k.lit)))
            r.append(('every bound is an earlier one or the value forced by the constraint on the trail (%s)' % n, FA(lambda i: Implies(And(i >= 0, i < b.n), Or(new(b.at(i)), old(b.at(i)))))))
            if low is not None:
                last = b.at(b.n - 1)
                side = (VAL(last) >= val) if low else (VAL(last) <= val)
                r.append(('the constraint bounds the variable (%s)' % n, Implies(kinds[n], And(b.n > 0, Not(OBS(last)), side, Implies(And(VAL(last) == val, strict), STRICT(last))))))
                r.append(('sorted ' + n, is_sorted(low, b)[1]))
                r.append(('only constraints in this direction bound the variable (%s)' % n, Implies(Not(kinds[n]), And(b.n <= a.n, FA(lambda i: Implies(And(i >= 0, i < b.n), b.at(i) == a.at(i)))))))
            else:
                r.append(('the excluded value is recorded', Implies(And(eq, neg), EX(lambda i: And(i >= 0, i < b.n, VAL(b.at(i)) == val, Not(OBS(b.at(i))))))))
        a, b = c.this.fld('bounds'), c.this_.fld('bounds')
        r.append(('other variables keep their bounds', FA(lambda x: Implies(And(x >= 0, x < a.len, x != v), And(*[z3.Select(b.leaf('[]', n, l), x) == z3.Select(a.leaf('[]', n, l), x) for n in ('ub', 'lb', 'disallowed') for l in ('len', '[]')])))))
        w0, w1 = c.this.fld('updated_write'), c.this_.fld('updated_write')
        grown = Or(*[And(s.stack(c.this_, v, n).n > 0, new(s.stack(c.this_, v, n).at(s.stack(c.this_, v, n).n - 1)), Not(EX(lambda i: And(i >= 0, i < s.stack(c.this, v, n).n, s.stack(c.this, v, n).at(i) == s.stack(c.this_, v, n).at(s.stack(c.this_, v, n).n - 1))))) for n in ('ub', 'lb')])
        r.append(('a changed variable is reported', Implies(grown, And(w1.len == w0.len + 1, w1[w0.len].z == v))))
        return r
    def rlit(s, c, h): return leaf_fn(None, ('literal', 'value'), I)(h)


CONTRACTS = [k() for k in (Remove_obsolete, Remove_all, Upper, Lower, Add_upper, Add_lower, Check_upper, Check_lower, Inequality, Is_allowed, Implies_upper, Implies_lower, Implies_eq, Implies_neq, Update)]
