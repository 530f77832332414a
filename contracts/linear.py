"""Linear constraints: evaluation, complement, implied bound."""
from spec import *
import rational_abs

RS = z3.RealSort()
AR = z3.ArraySort(I, RS); AI = z3.ArraySort(I, I)
EQ, LT, LEQ = 0, 1, 2


def world(w):
    rational_abs.world(w)


# DOT(c, x, v, a, b) = sum of c[j] * v[x[j]] for a <= j < b
DOT = z3.Function('dot', AR, AI, AR, I, I, RS)


class D:
    """weighted sum over stored coefficients and variables"""
    def __init__(s, ex, c, x, v): s.ex = ex; s.c = c; s.x = x; s.v = v
    def term(s, j): return z3.Select(s.c, j) * z3.Select(s.v, z3.Select(s.x, j))
    def __call__(s, a, b):
        s.ex.fact(Implies(a >= b, DOT(s.c, s.x, s.v, a, b) == 0))
        s.ex.fact(Implies(a < b, DOT(s.c, s.x, s.v, a, b) == DOT(s.c, s.x, s.v, a, b - 1) + s.term(b - 1)))
        s.ex.fact(Implies(a < b, DOT(s.c, s.x, s.v, a, b) == s.term(a) + DOT(s.c, s.x, s.v, a + 1, b)))     # lemma 'first term of a sum'
        s.ex.fact(Implies(a + 1 >= b, DOT(s.c, s.x, s.v, a + 1, b) == 0))
        return DOT(s.c, s.x, s.v, a, b)


def holds(pred, lhs, rhs): return If(pred == EQ, lhs == rhs, If(pred == LT, lhs < rhs, lhs <= rhs))


class LCV:
    """view of a Linear_constraint"""
    def __init__(s, o):
        s.o = o
        s.a = o.fld('position').fld('first').z; s.b = o.fld('position').fld('second').z
        s.pred = o.fld('predicate').fld('type').z; s.lit = o.fld('literal').fld('value').z; s.rhs = o.fld('constant').z
        s.home = o.fld('constraints').z
    def neg(s): return s.lit < 0
    def empty(s): return s.a >= s.b
    def pred_ok(s): return And(s.pred >= 0, s.pred <= 2)


def repo(o): return o.fld('variables'), o.fld('coefficients')


def dot(ex, ro, mo):
    return D(ex, ro.fld('coefficients').leaf('[]'), ro.fld('variables').leaf('[]'), mo.fld('values').leaf('[]'))


def in_repo(ro, k):
    n = ro.fld('variables').len
    return And(ro.fld('coefficients').len == n, n <= INT_MAX, Or(k.empty(), And(k.a >= 0, k.b <= n)), k.a >= 0, k.b >= k.a, k.pred_ok())


def model_ok(mo): return And(mo.fld('values').len == mo.fld('defined').len, mo.fld('ts').len == mo.fld('defined').len, mo.fld('defined').len <= MAXVAR)


def vars_in(ro, mo, k, a):
    n = mo.fld('defined').len
    return FA(lambda j: Implies(And(j >= a, j < k.b), And(ro.fld('variables')[j].z >= 0, ro.fld('variables')[j].z < n)))


def assigned(ro, mo, k, a):
    return FA(lambda j: Implies(And(j >= a, j < k.b), mo.fld('defined')[ro.fld('variables')[j].z].z))


class LC(Contract):
    inline_only = True
    noinl = False


class Pred_call(LC):
    q = 'yaga::Order_predicate::operator()'
    def requires(s, c): t = c.this.fld('type').z; return [('relation', And(t >= 0, t <= 2))]
    def ensures(s, c): return [('relation holds', c.ret.z == holds(c.this.fld('type').z, c[0].z, c[1].z))]


class Pred_eq(LC):
    q = 'yaga::Order_predicate::operator=='
    def other(s, c): return c[0].fld('type').z if isinstance(c.args[0], LV) else c[0].z
    def ensures(s, c): return [('same relation', c.ret.z == (c.this.fld('type').z == s.other(c)))]


class Pred_ne(Pred_eq):
    q = 'yaga::Order_predicate::operator!='
    def ensures(s, c): return [('different relation', c.ret.z == (c.this.fld('type').z != s.other(c)))]


class Cons_not(LC):
    q = 'yaga::Linear_constraint::operator~'
    def requires(s, c): return [('literal', lit_ok(LCV(c.this).lit))]
    def ensures(s, c):
        k, r = LCV(c.this), LCV(c.ret)
        return [('complement: same sum, relation and right-hand side, opposite sign', And(r.a == k.a, r.b == k.b, r.pred == k.pred, r.rhs == k.rhs, r.lit == -k.lit, r.home == k.home))]
    def modifies(s, c): return []


class Cons_negate(LC):
    q = 'yaga::Linear_constraint::negate'
    def requires(s, c): return [('literal', lit_ok(LCV(c.this).lit))]
    def modifies(s, c): return [c.this.fld('literal').lv]
    def ensures(s, c): return [('opposite literal', LCV(c.this_).lit == -LCV(c.this).lit)]


class Cons_strict(LC):
    q = 'yaga::Linear_constraint::is_strict'
    def requires(s, c): return [('relation', LCV(c.this).pred_ok())]
    def ensures(s, c):
        k = LCV(c.this)
        # strict iff the bound itself is excluded: 0 @ 0 evaluates to false
        return [('strict iff equality of both sides falsifies it', c.ret.z == Not(z3.Xor(k.neg(), holds(k.pred, z3.RealVal(0), z3.RealVal(0)))))]


class Cons_empty(LC):
    q = 'yaga::Linear_constraint::empty'
    def ensures(s, c): return [('no variables', c.ret.z == LCV(c.this).empty())]


class Cons_size(LC):
    q = 'yaga::Linear_constraint::size'
    def requires(s, c): k = LCV(c.this); return [('range', And(k.a >= 0, k.b >= 0))]
    def ensures(s, c): k = LCV(c.this); return [('number of variables', c.ret.z == k.b - k.a)]


class Cons_lit(LC):
    q = 'yaga::Linear_constraint::lit'
    def ensures(s, c): return [('literal', c.ret.fld('value').z == LCV(c.this).lit)]
class Cons_rhs(LC):
    q = 'yaga::Linear_constraint::rhs'
    def ensures(s, c): return [('right-hand side', c.ret.z == LCV(c.this).rhs)]
class Cons_pred(LC):
    q = 'yaga::Linear_constraint::pred'
    def ensures(s, c): return [('relation', c.ret.fld('type').z == LCV(c.this).pred)]


class Repo_eval(LC):
    q = 'yaga::Linear_constraints::eval'
    inline_only = False
    def requires(s, c):
        k = LCV(c[1])
        return [('stored', in_repo(c.this, k)), ('model', model_ok(c[0])), ('variables', vars_in(c.this, c[0], k, k.a)), ('assigned', assigned(c.this, c[0], k, k.a))]
    def ensures(s, c):
        k = LCV(c[1]); d = dot(c.ex, c.this, c[0])
        return [('true iff the weighted sum satisfies the relation', c.ret.z == z3.Xor(k.neg(), holds(k.pred, d(k.a, k.b), k.rhs)))]
    def start(s, k): return k.a
    def templates(s, ex, lid, L):
        c = ex.topspec; k = LCV(c[1]); d = dot(ex, c.this, c[0])
        out = []
        for cn, rd in L.counters:
            for st, a in (('all', k.a), ('rest', k.a + 1)):
                for rn, rr in L.unm_real if hasattr(L, 'unm_real') else []: pass
                for n, lv in reals(ex):
                    out.append(('%s=rhs-sum %s<%s' % (n, st, cn), lambda e, lv=lv, rd=rd, a=a: O(e, e.st, lv).z == k.rhs - d(a, rd(e))))
        return out


def reals(ex):
    out = []
    for vid, lv in sorted(ex.frames[-1].vars.items()):
        if isinstance(lv, LV) and lv.ty is not None and lv.ty.k == 'rec' and lv.ty.s == rational_abs.Q: out.append(('v%d' % vid, lv))
    return out


class Repo_implied(Repo_eval):
    q = 'yaga::Linear_constraints::implied_value'
    inline_only = False
    def requires(s, c):
        k = LCV(c[1])
        return [('stored', in_repo(c.this, k)), ('model', model_ok(c[0])), ('variables', vars_in(c.this, c[0], k, k.a + 1)), ('assigned', assigned(c.this, c[0], k, k.a + 1))]
    def ensures(s, c):
        k = LCV(c[1]); d = dot(c.ex, c.this, c[0]); x = z3.Real('x!any')
        r = c.ret.z
        c0 = z3.Select(d.c, k.a)
        d(k.a, k.b); d(k.a + 1, k.b)
        # for every value x of the first variable the constraint holds iff c0 * x @ returned value
        return [('right-hand side without the assigned variables', r == k.rhs - If(k.empty(), z3.RealVal(0), DOT(d.c, d.x, d.v, k.a + 1, k.b))),
                ('holds for exactly the values of the first variable that satisfy the constraint', Implies(Not(k.empty()), holds(k.pred, c0 * x + DOT(d.c, d.x, d.v, k.a + 1, k.b), k.rhs) == holds(k.pred, c0 * x, r)))]


class Cons_eval(LC):
    q = 'yaga::Linear_constraint::eval'
    inline_only = False
    def home(s, c): return c.this.fld('constraints').deref()
    def requires(s, c):
        k = LCV(c.this); ro = s.home(c)
        return [('belongs to a repository', k.home > 0), ('stored', in_repo(ro, k)), ('model', model_ok(c[0])), ('variables', vars_in(ro, c[0], k, k.a)), ('assigned', assigned(ro, c[0], k, k.a))]
    def ensures(s, c):
        k = LCV(c.this); d = dot(c.ex, s.home(c), c[0])
        return [('true iff the weighted sum satisfies the relation', c.ret.z == z3.Xor(k.neg(), holds(k.pred, d(k.a, k.b), k.rhs)))]


class Cons_implied(Cons_eval):
    q = 'yaga::Linear_constraint::implied_value'
    inline_only = False
    def requires(s, c):
        k = LCV(c.this); ro = s.home(c)
        return [('belongs to a repository', k.home > 0), ('stored', in_repo(ro, k)), ('model', model_ok(c[0])), ('variables', vars_in(ro, c[0], k, k.a + 1)), ('assigned', assigned(ro, c[0], k, k.a + 1))]
    def ensures(s, c):
        k = LCV(c.this); d = dot(c.ex, s.home(c), c[0])
        d(k.a + 1, k.b)
        return [('right-hand side without the assigned variables', c.ret.z == k.rhs - If(k.empty(), z3.RealVal(0), DOT(d.c, d.x, d.v, k.a + 1, k.b)))]


class Eval3(LC):
    """undetermined iff some variable is unassigned"""
    q = 'yaga::eval'
    def match(s, p, f): return len(f['params']) == 2 and 'Linear_constraint' in f['key']
    def home(s, c): return c[1].fld('constraints').deref()
    def requires(s, c):
        k = LCV(c[1]); ro = s.home(c)
        return [('belongs to a repository', k.home > 0), ('stored', in_repo(ro, k)), ('model', model_ok(c[0])), ('variables', vars_in(ro, c[0], k, k.a))]
    def ensures(s, c):
        k = LCV(c[1]); ro = s.home(c); d = dot(c.ex, ro, c[0]); r = c.ret
        return [('undetermined iff a variable is unassigned', r.leaf('has') == assigned(ro, c[0], k, k.a)),
                ('true iff the weighted sum satisfies the relation', Implies(r.leaf('has'), r.leaf('val') == z3.Xor(k.neg(), holds(k.pred, d(k.a, k.b), k.rhs))))]
    def templates(s, ex, lid, L):
        c = ex.topspec; k = LCV(c[1]); ro = s.home(c)
        return [('assigned<%s' % cn, lambda e, rd=rd: FA(lambda j: Implies(And(j >= k.a, j < rd(e)), c[0].fld('defined')[ro.fld('variables')[j].z].z))) for cn, rd in L.counters]


def lemma_dot_first(ex_fact=None):
    """DOT(a, b) = term(a) + DOT(a + 1, b) for a < b, by induction on b"""
    c = z3.Const('c', AR); x = z3.Const('x', AI); v = z3.Const('v', AR); a, b = z3.Ints('a b')
    t = lambda j: z3.Select(c, j) * z3.Select(v, z3.Select(x, j))
    d = lambda p, q: DOT(c, x, v, p, q)
    def unfold(p, q): return And(Implies(p >= q, d(p, q) == 0), Implies(p < q, d(p, q) == d(p, q - 1) + t(q - 1)))
    s = z3.Solver()
    s.add(unfold(a, b), unfold(a + 1, b), unfold(a, b - 1), unfold(a + 1, b - 1), a < b)
    s.add(Implies(a < b - 1, d(a, b - 1) == t(a) + d(a + 1, b - 1)))
    s.add(d(a, b) != t(a) + d(a + 1, b))
    return s.check() == z3.unsat


LEMMAS = [('first term of a sum', lemma_dot_first)]
CONTRACTS = [k() for k in (Pred_call, Pred_eq, Pred_ne, Cons_not, Cons_negate, Cons_strict, Cons_empty, Cons_size, Cons_lit, Cons_rhs, Cons_pred, Repo_eval, Repo_implied, Cons_eval, Cons_implied, Eval3)]
