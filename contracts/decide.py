"""Decisions of linear arithmetic: the value chosen is one the bounds of the variable allow.

What the bounds answer (proved for Variable_bounds in bounds.py): is_allowed(v) iff no valid bound or excluded value forbids v;
lower_bound / upper_bound the tightest valid bounds or none. The queries only drop bounds that are no longer valid, so the answers
are the same during one decision: ALLOWED, LB, UB."""
from spec import *
import bounds
from bounds import VAL, STRICT, RS

ALLOWED = z3.Function('allowed', RS, B)
LB, UB = z3.Int('tightest lower bound'), z3.Int('tightest upper bound')
HASL, HASU = z3.Bool('has lower bound'), z3.Bool('has upper bound')
RQ = 'yaga::Long_fraction'
G = 'global:decision'


def within(v):
    return And(Implies(HASL, Not(bounds.excludes(True, LB, v))), Implies(HASU, Not(bounds.excludes(False, UB, v))))


def world(w):
    bounds.world(w)
    w.integral = Z
    from stl import mk, lvof
    N = w.natives

    def allowed(ex, e, this, args):
        ex.lv(args[0]) if args[0].get('lv') else ex.ev(args[0])
        v = ex.rd(lvof(ex, args[1])).z
        return mk(ex, e, ALLOWED(v))

    def bound(h, has):
        def f(ex, e, this, args):
            ty = ex.ety(e)
            if ex.decide(has):
                lv = ex.new_root('%s:bnd%s' % (ex.ctxname(), e['_i']), ty.elem)
                ex.wr(lv, Val(ty.elem, {(): h}))
                return Val(ty, {(): PtrLV(lv)})
            return Val(ty, {(): IntV(0)})
        return f
    q = lambda n: ('q', 'yaga::Variable_bounds::' + n)
    N[q('is_allowed')] = allowed
    N[q('lower_bound')] = bound(LB, HASL); N[q('upper_bound')] = bound(UB, HASU)

    def tdecide(ex, e, this, args):
        a = ex.bind_args(e, e['fn']['pt'], args)
        v = a[0]; v = ex.rd(v) if isinstance(v, LV) else v
        m = ex.st.mem.get(G, {}); n = m.get(('n',), z3.Int(G + '.n'))
        ex.wr_leaf(LV(G, ('n',), (), None), (), n + 1)
        ex.wr_leaf(LV(G, ('var',), (), None), (), v.lv[('number',)]); ex.wr_leaf(LV(G, ('type',), (), None), (), v.lv[('var_type',)])
    N[('q', 'yaga::Trail::decide')] = tdecide


def locs(ex):
    return [lv for lv in ex.frames[-1].vars.values() if isinstance(lv, LV) and not lv.idx and lv.ty is not None and lv.ty.q == RQ]


K = z3.Real('any integer')
Z = z3.Function('is an integer', RS, B)


def none(lo, hi, los=False, his=False):
    """the integer K is not allowed if it lies between lo and hi"""
    return Implies(And(K > lo if los else K >= lo, K < hi if his else K <= hi), Not(ALLOWED(K)))


def closed(e, x, seen):
    """sums, differences and multiples by whole numbers of integers are integers (facts of arithmetic, stated for the terms at hand)"""
    if x.get_id() in seen: return
    seen.add(x.get_id())
    if z3.is_rational_value(x): e.fact(Z(x) if x.denominator_as_long() == 1 else Not(Z(x))); return
    k = x.decl().kind()
    if k in (z3.Z3_OP_ADD, z3.Z3_OP_SUB, z3.Z3_OP_UMINUS, z3.Z3_OP_MUL):
        e.fact(Implies(And(*[Z(y) for y in x.children()]), Z(x)))
        for y in x.children(): closed(e, y, seen)
    elif k == z3.Z3_OP_ITE:
        e.fact(Implies(And(Z(x.arg(1)), Z(x.arg(2))), Z(x)))
        for y in x.children()[1:]: closed(e, y, seen)


def apart(a, b): return Implies(And(Z(a), Z(b), a < b), a + 1 <= b)


def isint(e, x):
    if e is not None:
        closed(e, x, set()); closed(e, -x, set())
        for y in (x, -x): e.fact(apart(K, y)); e.fact(apart(y, K))     # integers that differ are at least one apart
        e.fact(Z(K))
    return Z(x)


class Find(Contract):
    q = 'yaga::Linear_arithmetic::find_integer'
    def requires(s, c): return [('bounds are consistent', Implies(And(HASL, HASU), VAL(LB) <= VAL(UB)))]
    def modifies(s, c): return []
    def lemmas(s, c):
        return [Implies(ALLOWED(K), within(K))] + [Z(K)]
    def ensures(s, c):
        r = c.res; has, v = r.lv[('has',)], r.lv[('val',)]
        return [('an allowed integer', Implies(has, And(ALLOWED(v), isint(c.ex, v)))), ('found whenever there is one', Implies(Not(has), Not(ALLOWED(K)))), ('an integer exists unless bounded on both sides', Implies(Not(has), And(HASL, HASU)))]
    def templates(s, ex, lid, L):
        out = []
        lb, ub = VAL(LB), VAL(UB)
        for lv in locs(ex):
            x = lambda e, lv=lv: e.rd_raw(e.st, lv, ())
            n = lv.root
            out += [('int ' + n, lambda e, x=x: isint(e, x(e))), ('nonneg ' + n, lambda e, x=x: x(e) >= 0), ('around ' + n, lambda e, x=x: none(-x(e), x(e), True, True)),
                    ('from lb ' + n, lambda e, x=x: none(lb, x(e), False, True)), ('to ub ' + n, lambda e, x=x: none(x(e), ub, True, False)),
                    ('above lb ' + n, lambda e, x=x: x(e) >= lb), ('below ub ' + n, lambda e, x=x: x(e) <= ub)]
        return out


class Decide(Contract):
    q = 'yaga::Linear_arithmetic::decide'
    def var(s, c): return c[2].number.z, c[2].var_type.z
    def mod(s, c, st):
        import trail
        return O(c.ex, st, LV(trail.MB, (), (), None))
    def requires(s, c):
        o, t = s.var(c); this = c.this
        cv = this.fld('cached_values'); b = this.fld('bounds').fld('bounds')
        return [('bounds are consistent', Implies(And(HASL, HASU), VAL(LB) <= VAL(UB))), ('variable', And(o >= 0, o < cv.fld('defined').len, o < cv.fld('values').len, o < b.len, t >= 0)), ('model', s.model_ok(c))]
    def owned(s, c, st):
        """the model of rational variables of the trail"""
        a = z3.Select(O(c.ex, c.prest, c.args[1]).fld('var_models').leaf('[]'), 1)
        return O(c.ex, st, c.ex.heap_lv(s.cached(c).lv.ty, a))
    def cached(s, c): return c.this.fld('cached_values')
    def model_ok(s, c):
        tr = c[1].fld('var_models'); o, t = s.var(c)
        a = z3.Select(tr.leaf('[]'), 1)
        m = s.owned(c, c.prest); d = m.fld('defined').len
        cv = c.this.fld('cached_values')
        return And(tr.len >= 2, z3.Select(tr.leaf('[]'), 0) > 0, a > 0, a != z3.Select(tr.leaf('[]'), 0), m.fld('values').len == d, m.fld('ts').len == d, o < d, m.fld('global_ts').z < INT_MAX - 2, cv.fld('global_ts').z < INT_MAX - 2, cv.fld('ts').len == cv.fld('defined').len, cv.fld('values').len == cv.fld('defined').len)
    def modifies(s, c): return [c.this.fld('cached_values').lv, c.args[1], (G, ()), ('heap:yaga::Model_base', ())]
    def ensures(s, c):
        o, t = s.var(c); n = lambda st: st.mem.get(G, {}).get(('n',), z3.Int(G + '.n'))
        cv = c.this_.fld('cached_values')
        g = lambda l: c.postst.mem.get(G, {}).get((l,), z3.Int(G + '.' + l))
        v = z3.Select(cv.fld('values').leaf('[]'), o)
        return [('other types are left alone', Implies(t != 1, n(c.postst) == n(c.prest))), ('decided once', Implies(t == 1, And(n(c.postst) == n(c.prest) + 1, g('var') == o, g('type') == t))),
                ('the value chosen is allowed', Implies(t == 1, ALLOWED(v))), ('the trail model holds it', Implies(t == 1, And(z3.Select(s.owned(c, c.postst).fld('values').leaf('[]'), o) == v, z3.Select(s.owned(c, c.postst).fld('defined').leaf('[]'), o)))),
                ('other variables keep theirs', FA(lambda k: Implies(And(k >= 0, k < s.owned(c, c.prest).fld('defined').len, Or(k != o, t != 1)), And(z3.Select(s.owned(c, c.postst).fld('values').leaf('[]'), k) == z3.Select(s.owned(c, c.prest).fld('values').leaf('[]'), k), z3.Select(s.owned(c, c.postst).fld('defined').leaf('[]'), k) == z3.Select(s.owned(c, c.prest).fld('defined').leaf('[]'), k)))))]
    def templates(s, ex, lid, L): return []


CONTRACTS = [Find(), Decide()]
