"""Trusted contracts of the GMP functions that Long_fraction uses, and gcd lemmas (checked in lemmas/Gcd.lean)."""
import z3
from vcg import *
from stl import lvof, mk, V
from spec import *

gcdf = z3.Function('gcd', I, I, I)
QS, ZS = '__mpq_struct', '__mpz_struct'
size_f = z3.Function('mpz_limbs', I, I)


def Abs(x): return z3.If(x >= 0, x, -x)


# ---- lemma instances -----------------------------------------------------
def is_gcd(t): return z3.is_app(t) and t.decl().eq(gcdf)


def gcd_base(ex, t):
    """facts about one gcd term with non-negative arguments"""
    a, b = t.arg(0), t.arg(1)
    seen = ex.log.setdefault('gcd', {})
    if t.get_id() in seen: return
    seen[t.get_id()] = t
    nn = And(a >= 0, b >= 0)
    qa, qb = z3.Function('gcd_qa', I, I, I)(a, b), z3.Function('gcd_qb', I, I, I)(a, b)
    ex.fact(Implies(And(nn, Or(a > 0, b > 0)), And(t >= 1, Implies(a > 0, t <= a), Implies(b > 0, t <= b))))
    ex.fact(Implies(And(nn, a == 0), t == b)); ex.fact(Implies(And(nn, b == 0), t == a))
    ex.fact(Implies(And(nn, Or(a == 1, b == 1)), t == 1))
    ex.fact(gcdf(b, a) == t)
    ex.fact(Implies(And(nn, a == b), t == a))
    ex.lems.append(Implies(nn, And(a == t * qa, b == t * qb)))
    for (x, y) in list(ex.log.get('mul', [])):
        for (k, l) in ((x, y), (y, x)):
            for (u, v) in ((a, b), (b, a)):
                g = gcdf(u, k)
                if not z3.is_int_value(k): ex.lems.append(Implies(And(nn, v == x * y, x > 0, y > 0, u >= 0, gcdf(u, l) == 1), And(t == g, g <= k, g >= 1)))


def on_div(ex, a, b, q, r):
    """exact division by a gcd of the dividend; quotients are coprime"""
    L = ex.log.setdefault('div', [])
    rec = (a, b, q, r)
    ex.fact(Implies(And(gcdf(Abs(a), b) == 1, b > 1), r != 0))
    ex.fact(And(Implies(And(r == 0, b > 0, a > 0), And(q >= 1, q <= a)), Implies(And(b > 0, a < 0), And(q >= a, q <= 0)), Implies(And(r == 0, b > 0, a < 0), q <= -1), Implies(a == 0, q == 0), Implies(b == 1, q == a)))
    ts = []
    for t in ex.log.get('gcd', {}).values(): ts.append(t)
    for t in ts:
        u, v = t.arg(0), t.arg(1)
        ex.fact(Implies(And(b == t, b >= 1, u >= 0, v >= 0, Or(u == a, u == -a, v == a, v == -a)), r == 0))
    for (a2, b2, q2, r2) in L:
        for t in ts:
            u, v = t.arg(0), t.arg(1)
            ex.lems.append(Implies(And(b == t, b2 == t, t >= 1, u >= 0, v >= 0, Or(And(u == Abs(a), v == Abs(a2)), And(v == Abs(a), u == Abs(a2)))),
                                   And(gcdf(Abs(q), Abs(q2)) == 1, gcdf(Abs(q2), Abs(q)) == 1)))
        ex.lems.append(Implies(And(r == 0, r2 == 0, gcdf(Abs(a), Abs(a2)) == 1, q != 0, q2 != 0), And(gcdf(Abs(q), Abs(q2)) == 1, gcdf(Abs(q2), Abs(q)) == 1)))
    for t in ts:
        u, v = t.arg(0), t.arg(1)
        ex.lems.append(Implies(And(r == 0, u >= 0, v >= 0, t == 1, Abs(a) == u, q != 0, v != 0), And(gcdf(Abs(q), v) == 1, gcdf(v, Abs(q)) == 1)))
        ex.lems.append(Implies(And(r == 0, u >= 0, v >= 0, t == 1, Abs(a) == v, q != 0, u != 0), And(gcdf(Abs(q), u) == 1, gcdf(u, Abs(q)) == 1)))
    if not any(x[2].eq(q) for x in L): L.append(rec)


RANGES = [(0, 2**32 - 1), (-2**31, 2**31), (-2**32 + 1, 2**32 - 1)]


def rng(ex, x):
    if z3.is_int_value(x): v = x.as_long(); return v, v
    ch = ex.log.setdefault('rng', {})
    if x.get_id() in ch: return ch[x.get_id()][1]
    r = rng0(ex, x)
    ch[x.get_id()] = (x, r)
    return r


def rng0(ex, x):
    for lo, hi in RANGES:
        if ex.proved(And(x >= lo, x <= hi)): return lo, hi
    return None


def on_mul(ex, a, b):
    if z3.is_int_value(a) or z3.is_int_value(b): return
    ra, rb = rng(ex, a), rng(ex, b)
    p = a * b
    if ra and rb:
        (al, ah), (bl, bh) = ra, rb
        ex.fact(And(p >= bl * a + al * b - al * bl, p >= bh * a + ah * b - ah * bh, p <= bl * a + ah * b - ah * bl, p <= bh * a + al * b - al * bh))
    ex.fact(And(Implies(Or(a == 0, b == 0), p == 0), Implies(a == 1, p == b), Implies(b == 1, p == a), Implies(a == -1, p == -b),
                Implies(Or(And(a > 0, b > 0), And(a < 0, b < 0)), And(p > 0, p >= a, p >= b)), Implies(Or(And(a > 0, b < 0), And(a < 0, b > 0)), And(p < 0, Implies(a < 0, And(p <= a, p <= -b)), Implies(b < 0, And(p <= b, p <= -a))))))
    L = ex.log.setdefault('mul', [])
    for (x, y) in L:
        co = lambda s, t: gcdf(Abs(s), Abs(t)) == 1
        ex.lems.append(Implies(And(co(a, x), co(a, y), co(b, x), co(b, y)), And(gcdf(Abs(p), Abs(x * y)) == 1, gcdf(Abs(x * y), Abs(p)) == 1)))
    K = {}
    for (x, y, q, r) in ex.log.get('div', []): K[q.get_id()] = q; K[x.get_id()] = x
    for t in ex.log.get('gcd', {}).values():
        for x in t.children():
            if z3.is_const(x): K[x.get_id()] = x
    if 1:
        for k in K.values():
            if z3.is_int_value(k): continue
            ex.lems.append(Implies(And(gcdf(Abs(a), Abs(k)) == 1, gcdf(Abs(b), Abs(k)) == 1, k > 0), And(gcdf(Abs(p), k) == 1, gcdf(k, Abs(p)) == 1)))
    L.append((a, b))


def on_add(ex, op, a, b, r):
    for (x, y) in ex.log.get('mul', []):
        p = x * y
        for (k, d) in ((x, y), (y, x)):
            ex.lems.append(Implies(And(Or(p == a, p == b), d > 0), gcdf(Abs(r), d) == gcdf(Abs(r - p if op == '+' else (r + p)), d)))
            ex.lems.append(Implies(And(p == a, d > 0), And(gcdf(Abs(r), d) == gcdf(Abs(b), d))))
            if op == '+': ex.lems.append(Implies(And(p == b, d > 0), And(gcdf(Abs(r), d) == gcdf(Abs(a), d))))
            else: ex.lems.append(Implies(And(p == b, d > 0), And(gcdf(Abs(r), d) == gcdf(Abs(a), d))))


# ---- GMP -------------------------------------------------------------------
def pz(ex, a, ty=None):
    """lvalue of an mpz/mpq pointer argument"""
    p = ex.ev(a).z
    t = ex.ety(a)
    return ex.deref_ptr(p, t.elem if t.k in ('ptr', 'arr') else None)


def zget(ex, lv): return ex.rdl(lv)
def qn(ex, lv): return ex.rdl(lv, '_mp_num')
def qd(ex, lv): return ex.rdl(lv, '_mp_den')
def qset(ex, lv, n, d): ex.wr_leaf(lv, ('_mp_num',), n); ex.wr_leaf(lv, ('_mp_den',), d)


def canon(ex, lv, rel):
    n, d = ex.fresh(I, 'qn'), ex.fresh(I, 'qd')
    ex.fact(d >= 1); g = gcdf(Abs(n), d); ex.fact(g == 1); ex.fact(gcdf(d, Abs(n)) == 1)
    ex.fact(rel(n, d))
    ex.fact(Implies(n == 0, d == 1))
    qset(ex, lv, n, d)


def q3(f, div=False):
    def h(ex, e, this, args):
        r, a, b = [pz(ex, x) for x in args]
        na, da, nb, db = qn(ex, a), qd(ex, a), qn(ex, b), qd(ex, b)
        ex.oblige('operands of the GMP function are canonical', And(da >= 1, db >= 1, gcdf(Abs(na), da) == 1, gcdf(Abs(nb), db) == 1), 'pre')
        if div: ex.oblige('division by zero', nb != 0, 'pre')
        canon(ex, r, lambda n, d: And(f(n, d, na, da, nb, db), Implies(And(da == 1, db == 1), And(d == 1, f(n, z3.IntVal(1), na, z3.IntVal(1), nb, z3.IntVal(1)))) if not div else TRUE))
    return h


def fits(lo, hi):
    return lambda ex, e, this, args: (lambda v: mk(ex, e, z3.If(And(v >= lo, v <= hi), z3.IntVal(1), z3.IntVal(0))))(zget(ex, pz(ex, args[0])))


def get_ui(ex, e, this, args):
    v = zget(ex, pz(ex, args[0])); r = ex.fresh(I, 'ui')
    ex.fact(And(r >= 0, r < 2**64, Implies(And(v >= 0, v < 2**64), r == v)))
    return mk(ex, e, r)


def get_si(ex, e, this, args):
    v = zget(ex, pz(ex, args[0])); r = ex.fresh(I, 'si')
    ex.fact(And(r >= -2**63, r < 2**63, Implies(And(v >= -2**63, v < 2**63), r == v)))
    return mk(ex, e, r)


def set_(ex, e, this, args):
    lv = pz(ex, args[0]); v = ex.ev(args[1]).z
    ex.wr_leaf(lv, (), v)


def setz(ex, e, this, args):
    lv = pz(ex, args[0]); ex.wr_leaf(lv, (), zget(ex, pz(ex, args[1])))


def rounddiv(ceil):
    def h(ex, e, this, args):
        r, a, b = [pz(ex, x) for x in args]
        x, y = zget(ex, a), zget(ex, b)
        ex.oblige('division by zero', y != 0, 'pre')
        q = ex.fresh(I, 'qz')
        if ceil: ex.fact(Implies(y > 0, And(q * y >= x, q * y < x + y)))
        else: ex.fact(Implies(y > 0, And(q * y <= x, q * y > x - y)))
        ex.fact(Implies(y == 1, q == x))
        ex.fact(Implies(And(gcdf(Abs(x), y) == 1, y > 1), q * y != x))
        ex.wr_leaf(r, (), q)
    return h


def q1(f, nz=False):
    def h(ex, e, this, args):
        r, a = pz(ex, args[0]), pz(ex, args[1])
        n, d = qn(ex, a), qd(ex, a)
        if nz: ex.oblige('inverse of zero', n != 0, 'pre')
        x, y = f(n, d)
        qset(ex, r, x, y)
        ex.fact(Implies(gcdf(Abs(n), d) == 1, gcdf(Abs(x), y) == 1))
    return h


def q_equal(ex, e, this, args):
    a, b = pz(ex, args[0]), pz(ex, args[1])
    return mk(ex, e, z3.If(And(qn(ex, a) == qn(ex, b), qd(ex, a) == qd(ex, b)), z3.IntVal(1), z3.IntVal(0)))


def q_cmp(ex, e, this, args):
    a, b = pz(ex, args[0]), pz(ex, args[1])
    na, da, nb, db = qn(ex, a), qd(ex, a), qn(ex, b), qd(ex, b)
    ex.oblige('denominators are positive', And(da >= 1, db >= 1), 'pre')
    r = ex.fresh(I, 'cmp')
    ex.fact(And(r >= -2**31, r < 2**31, (r < 0) == (na * db < nb * da), (r > 0) == (na * db > nb * da)))
    return mk(ex, e, r)


def q_set_ui(ex, e, this, args):
    lv = pz(ex, args[0]); n = ex.ev(args[1]).z; d = ex.ev(args[2]).z
    qset(ex, lv, n, d)


def mp_size(ex, base):
    v = ex.rdl(base)
    t = ex.new_root('%s:sz%d' % (ex.ctxname(), ex.curline), ex.w.field_ty_int)
    s = size_f(v)
    ex.fact(And((s < 0) == (v < 0), (s == 0) == (v == 0), s > -2**31, s < 2**31))
    ex.wr(t, Val(ex.w.field_ty_int, {(): s}))
    return t


def mpz_temp(ex, e, this, args):
    zt = ex.prog.bystr[ZS]
    return Val(ex.ety(e), {(): PtrLV(LV('global:Long_fraction::temp', (), (), zt))})


def owned(ex):
    return ex.log.setdefault('owned', [])


def pool_alloc(ex, e, this, args):
    """a cell that no live number uses (assumed contract of the pool)"""
    p = ex.fresh(I, 'cell')
    ex.fact(p > 0)
    for g, a in owned(ex): ex.fact(Implies(g, p != a))
    owned(ex).append((TRUE, p))
    return mk(ex, e, p)


def world(w):
    w.abstract[QS] = {('_mp_num',): I, ('_mp_den',): I}
    w.abstract[ZS] = {(): I}
    N = w.natives
    q = lambda n: ('q', n)
    cross = lambda n, d, num, den: n * den == num * d
    N[q('__gmpq_add')] = q3(lambda n, d, na, da, nb, db: cross(n, d, na * db + nb * da, da * db))
    N[q('__gmpq_sub')] = q3(lambda n, d, na, da, nb, db: cross(n, d, na * db - nb * da, da * db))
    N[q('__gmpq_mul')] = q3(lambda n, d, na, da, nb, db: cross(n, d, na * nb, da * db))
    N[q('__gmpq_div')] = q3(lambda n, d, na, da, nb, db: cross(n, d, na * db, da * nb), True)
    N[q('__gmpq_neg')] = q1(lambda n, d: (-n, d))
    N[q('__gmpq_inv')] = q1(lambda n, d: (z3.If(n > 0, d, -d), Abs(n)), True)
    N[q('__gmpq_set')] = q1(lambda n, d: (n, d))
    N[q('__gmpq_equal')] = q_equal
    N[q('__gmpq_cmp')] = q_cmp
    N[q('__gmpq_set_ui')] = q_set_ui
    N[q('__gmpz_set_si')] = set_
    N[q('__gmpz_set_ui')] = set_
    N[q('__gmpz_set')] = setz
    N[q('__gmpz_get_ui')] = get_ui
    N[q('__gmpz_get_si')] = get_si
    N[q('__gmpz_fits_sint_p')] = fits(-2**31, 2**31 - 1)
    N[q('__gmpz_fits_uint_p')] = fits(0, 2**32 - 1)
    N[q('__gmpz_cdiv_q')] = rounddiv(True)
    N[q('__gmpz_fdiv_q')] = rounddiv(False)
    N[('member', ZS, '_mp_size')] = mp_size
    w.field_ty_int = w.prog.bystr['int']
    N[q('yaga::Long_fraction::mpqPool::alloc')] = pool_alloc
    N[q('yaga::Long_fraction::mpqPool::release')] = lambda ex, e, this, args: [ex.ev(a) for a in args] and None
    N[q('yaga::Long_fraction::mpz')] = mpz_temp
    w.fork_cond = True
    w.on_div = on_div; w.on_mul = on_mul; w.on_add = on_add


CONTRACTS = []
