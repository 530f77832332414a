"""Contracts of Long_fraction: exact rational arithmetic on a word / multi-precision representation."""
import z3
from spec import *
import gmp
from gmp import gcdf, Abs, QS, gcd_base

LF = 'yaga::Long_fraction'
HEAP = 'heap:' + QS
WMIN, WMAX, UMAX = -2**31, 2**31 - 1, 2**32 - 1


def bit(s, k): return (s / (1 << k)) % 2 == 1


class Num:
    """a Long_fraction in a state"""
    def __init__(s, o):
        s.o = o; ex = o.ex; st = o.st
        s.state, s.num, s.den, s.mpq = o.fld('state').z, o.fld('num').z, o.fld('den').z, o.fld('mpq').z
        qt = ex.prog.bystr[QS]
        def rd(st, f):
            sv = ex.st; ex.st = st
            try: return ex.rdl(ex.heap_lv(qt, s.mpq), f)
            finally: ex.st = sv
        s.n, s.d = rd(st, '_mp_num'), rd(st, '_mp_den')
        s.W, s.A, s.M = bit(s.state, 0), bit(s.state, 1), bit(s.state, 2)
        s.N, s.D = If(s.W, s.num, s.n), If(s.W, s.den, s.d)
        for t in (gcdf(Abs(s.num), s.den), gcdf(Abs(s.n), s.d), gcdf(Abs(s.N), s.D)): gcd_base(ex, t)

    def wf(s):
        return And(s.state >= 0, s.state <= 7, Or(s.W, s.M), Implies(s.M, s.A), Implies(s.A, s.mpq > 0),
                   Implies(s.W, And(s.den >= 1, s.den <= UMAX, s.num >= WMIN, s.num <= WMAX, gcdf(Abs(s.num), s.den) == 1)),
                   Implies(s.M, And(s.d >= 1, gcdf(Abs(s.n), s.d) == 1)),
                   Implies(And(s.W, s.M), And(s.n == s.num, s.d == s.den)),
                   Implies(Not(s.W), Not(And(s.n >= WMIN, s.n <= WMAX, s.d <= UMAX))))

    def same(s, t): return And(s.N == t.N, s.D == t.D)


def num_eq(ex, a, b):
    """lemma: fractions in lowest terms are equal only if their parts are"""
    return Implies(And(a.D >= 1, b.D >= 1, gcdf(Abs(a.N), a.D) == 1, gcdf(Abs(b.N), b.D) == 1), (a.N * b.D == b.N * a.D) == And(a.N == b.N, a.D == b.D))


class RatC(Contract):
    inline_alias = False
    objs = ()
    def nums(s, c):
        """[(name, root lv)] of the number objects among this and the reference arguments"""
        out = []
        if c.thislv is not None and c.thislv.ty.q == LF and s.fnkind != 'ctor': out.append(('this', c.thislv))
        for i, a in enumerate(c.args):
            if isinstance(a, LV) and a.ty.q == LF and all(a.root != r.root for _, r in out): out.append(('arg%d' % i, a))
        return out

    fnkind = 'fn'
    def setup(s, c):
        s.fnkind = c.fn['kind']
        if s.alias and len(c.args) == 1 and isinstance(c.args[0], LV): c.args = [c.thislv]
        ex = c.ex; own = gmp.owned(ex)
        ns = [Num(c.at_lv(lv)) for _, lv in s.nums(c)]
        for n in ns:
            own.append((n.A, n.mpq))
            gcd_base(ex, gcdf(Abs(n.num), n.den)); gcd_base(ex, gcdf(Abs(n.n), n.d))
        for i in range(len(ns)):
            for j in range(i): ex.fact(Implies(And(ns[i].A, ns[j].A), ns[i].mpq != ns[j].mpq))
        ex.log['nums'] = ns

    alias = False
    def requires(s, c): return [('representation', And(*[Num(c.at_lv(lv)).wf() for _, lv in s.nums(c)]))]
    def modifies(s, c): return [(lv.root, ()) for _, lv in s.nums(c)] + [(HEAP, ())]
    changed = ()        # names of the numbers whose value may change
    def kept(s, c):
        """operands keep their value, stay well-formed and own their cells"""
        r = []
        for nm, lv in s.nums(c):
            a, b = Num(c.at_lv(lv, c.prest)), Num(c.at_lv(lv, c.postst))
            r.append(('%s is well-formed' % nm, b.wf()))
            if nm not in s.changed: r.append(('%s keeps its value' % nm, b.same(a)))
        return r

    def this0(s, c): return Num(c.at_lv(c.thislv, c.prest))
    def this1(s, c): return Num(c.at_lv(c.thislv, c.postst))
    def arg0(s, c, i=0): return Num(c.at_lv(c.args[i], c.prest))
    def res(s, c):
        r = c.res
        if isinstance(r, LV): return Num(c.at_lv(r, c.postst))
        lv = c.ex.new_root('result!', r.ty)
        sv = c.ex.st; c.ex.st = c.postst
        try: c.ex.wr(lv, r)
        finally: c.ex.st = sv
        return Num(c.at_lv(lv, c.postst))


def value_is(r, num, den):
    return r.N * den == num * r.D


class Bin(RatC):
    compound = False
    def f(s, a, b): raise NotImplementedError
    def match(s, p, f): return len(f['params']) == 1
    @property
    def changed(s): return ('this',) if s.compound else ()
    def requires(s, c):
        r = RatC.requires(s, c)
        if s.nz: r.append(('divisor is not zero', s.arg0(c).N != 0))
        return r
    nz = False
    def ensures(s, c):
        a, b = s.this0(c), s.arg0(c)
        r = s.this1(c) if s.compound else s.res(c)
        n, d = s.f(a, b)
        out = s.kept(c)
        if not s.compound: out.append(('result is well-formed', r.wf()))
        out.append(('exact value', value_is(r, n, d)))
        return out
    @property
    def name(s): return s.__class__.__name__ + ('_alias' if s.alias else '')


class Add(Bin):
    weight = 9
    q = LF + '::operator+'
    def f(s, a, b): return a.N * b.D + b.N * a.D, a.D * b.D
class Sub(Bin):
    weight = 9
    q = LF + '::operator-'
    def f(s, a, b): return a.N * b.D - b.N * a.D, a.D * b.D
class Mul(Bin):
    weight = 8
    q = LF + '::operator*'
    def f(s, a, b): return a.N * b.N, a.D * b.D
class Div(Bin):
    q = LF + '::operator/'
    nz = True
    def f(s, a, b): return a.N * b.D, a.D * b.N
class AddA(Add):
    q = LF + '::operator+='; compound = True
class SubA(Sub):
    q = LF + '::operator-='; compound = True
class MulA(Mul):
    q = LF + '::operator*='; compound = True
class DivA(Div):
    q = LF + '::operator/='; compound = True


class Neg(RatC):
    q = LF + '::operator-'
    def match(s, p, f): return len(f['params']) == 0
    def ensures(s, c):
        a, r = s.this0(c), s.res(c)
        return s.kept(c) + [('result is well-formed', r.wf()), ('exact value', And(r.N == -a.N, r.D == a.D))]


class Negate(RatC):
    q = LF + '::negate'
    changed = ('this',)
    def ensures(s, c):
        a, r = s.this0(c), s.this1(c)
        return s.kept(c) + [('exact value', And(r.N == -a.N, r.D == a.D))]


class Inverse(RatC):
    q = LF + '::inverse'
    def requires(s, c): return RatC.requires(s, c) + [('not zero', s.this0(c).N != 0)]
    def ensures(s, c):
        a, r = s.this0(c), s.res(c)
        return s.kept(c) + [('result is well-formed', r.wf()), ('exact value', And(r.N == If(a.N > 0, a.D, -a.D), r.D == Abs(a.N)))]
class Inv(Inverse):
    q = LF + '::inv'


class Ctor_nd(RatC):
    q = LF + '::Long_fraction'
    def match(s, p, f): return p.ptypes(f) == ['int', 'unsigned int']
    def requires(s, c): return [('denominator', c[1].z >= 1)]
    def ensures(s, c):
        r = s.this1(c)
        return [('result is well-formed', r.wf()), ('exact value', value_is(r, c[0].z, c[1].z))]


class Ctor_int(RatC):
    q = LF + '::Long_fraction'
    def match(s, p, f): return len(p.ptypes(f)) == 1 and p.ptypes(f)[0] in ('int', 'unsigned int')
    def ensures(s, c):
        r = s.this1(c)
        return [('result is well-formed', r.wf()), ('exact value', And(r.N == c[0].z, r.D == 1))]


class Ctor_0(RatC):
    q = LF + '::Long_fraction'
    def match(s, p, f): return len(f['params']) == 0
    def ensures(s, c):
        r = s.this1(c)
        return [('result is well-formed', r.wf()), ('zero', And(r.N == 0, r.D == 1))]


class Ctor_mpz(RatC):
    q = LF + '::Long_fraction'
    def match(s, p, f): return p.ptypes(f) == ['__mpz_struct *']
    def z(s, c):
        ex = c.ex; sv = ex.st; ex.st = c.prest or ex.st
        try: return ex.rdl(ex.deref_ptr(c.argv(0), ex.prog.bystr[gmp.ZS]))
        finally: ex.st = sv
    def ensures(s, c):
        r = s.this1(c)
        return [('result is well-formed', r.wf()), ('exact value', And(r.N == s.z(c), r.D == 1))]


class Ctor_copy(RatC):
    q = LF + '::Long_fraction'
    def match(s, p, f): return len(f['params']) == 1 and p.types[f['params'][0]['t']].nonref().s.replace('const ', '') == LF and '&&' not in p.ptypes(f)[0]
    def ensures(s, c):
        r = s.this1(c)
        return s.kept(c) + [('result is well-formed', r.wf()), ('same value', r.same(s.arg0(c)))]


class Ctor_move(RatC):
    q = LF + '::Long_fraction'
    changed = ('arg0',)
    def match(s, p, f): return len(f['params']) == 1 and '&&' in p.ptypes(f)[0]
    def kept(s, c): return []
    def ensures(s, c):
        r = s.this1(c)
        return [('result is well-formed', r.wf()), ('same value', r.same(s.arg0(c)))]


class Assign(RatC):
    q = LF + '::operator='
    changed = ('this',)
    @property
    def name(s): return 'Assign' + ('_alias' if s.alias else '')
    def match(s, p, f): return '&&' not in p.ptypes(f)[0]
    def ensures(s, c):
        return s.kept(c) + [('same value', s.this1(c).same(s.arg0(c)))]


class Move_assign(RatC):
    q = LF + '::operator='
    changed = ('this', 'arg0')
    def match(s, p, f): return '&&' in p.ptypes(f)[0]
    def ensures(s, c):
        return s.kept(c) + [('takes the value', s.this1(c).same(s.arg0(c)))]


class Abs_val(Contract):
    q = 'yaga::absVal'
    def functional(s, c): return Val(c.ex.prog.types[c.fn['ret']], {(): Abs(c[0].z)})
    def ensures(s, c): return [('absolute value', c.ret.z == Abs(c[0].z))]


class Gcd(Contract):
    q = 'yaga::gcd'
    def match(s, p, f): return p.types[f['params'][0]['t']].k == 'int'
    def requires(s, c): return [('arguments', And(c[0].z >= 0, c[1].z >= 0))]
    def functional(s, c):
        t = gcdf(c[0].z, c[1].z); gcd_base(c.ex, t)
        return Val(c.ex.prog.types[c.fn['ret']], {(): t})
    def ensures(s, c): return [('greatest common divisor', c.ret.z == gcdf(c[0].z, c[1].z))]
    def setup(s, c): gcd_base(c.ex, gcdf(c[0].z, c[1].z))
    def templates(s, ex, lid, L):
        c = ex.topspec
        g = gcdf(c[0].z, c[1].z)
        out = []
        for (an, ra) in L.counters:
            for (bn, rb) in L.counters:
                if an < bn: out.append(('gcd(%s,%s)' % (an, bn), lambda e, ra=ra, rb=rb: gcdf(ra(e), rb(e)) == g))
        return out


def euclid(ex, a, b, q, r):
    """gcd(a, b) = gcd(b, a mod b)"""
    ex.fact(Implies(And(a >= 0, b > 0), And(gcdf(a, b) == gcdf(b, r), gcdf(b, a) == gcdf(b, r), gcdf(r, b) == gcdf(b, r), Implies(r == 0, gcdf(b, r) == b))))


class Repr(RatC):
    """representation changes: a state transition, no value changes"""
    changed = ('this',)
    def setup(s, c):
        RatC.setup(s, c)
        gmp.owned(c.ex).append((TRUE, z3.Int('cell of another number')))
    def step(s, c, n, p):
        """new state, num, den, mpq, n, d of the object n, given a free cell p"""
        raise NotImplementedError
    def transition(s, c):
        ex = c.ex; n = Num(c.at_lv(c.thislv)); p = None
        if s.allocates:
            p = ex.fresh(I, 'cell'); ex.fact(p > 0)
            for g, a in list(gmp.owned(ex)): ex.fact(Implies(g, p != a))
            gmp.owned(ex).append((TRUE, p))
        st, num, den, mpq, qn, qd = s.step(c, n, p)
        lv = c.thislv
        for f, x, old in (('state', st, n.state), ('num', num, n.num), ('den', den, n.den), ('mpq', mpq, n.mpq)):
            x = z3.simplify(x)
            if not x.eq(old): ex.wr_leaf(lv, lv.path + (f,), x) if False else ex.wr_leaf(lv, (f,), x)
        if qn is not None:
            h = ex.heap_lv(ex.prog.bystr[QS], mpq)
            ex.wr_leaf(h, ('_mp_num',), qn); ex.wr_leaf(h, ('_mp_den',), qd)
        return None
    allocates = True
    def ensures(s, c):
        ex = c.ex; a, b = s.this0(c), s.this1(c)
        p = b.mpq
        st, num, den, mpq, qn, qd = s.step(c, a, p)
        r = [('state', And(b.state == st, b.num == num, b.den == den, b.mpq == mpq))]
        if s.allocates:
            r.append(('a new cell is free', Implies(Not(a.A), And(b.mpq > 0, b.mpq != z3.Int('cell of another number')))))
        if qn is not None: r.append(('number', And(b.n == qn, b.d == qd)))
        qt = ex.prog.bystr[QS]
        for f in ('_mp_num', '_mp_den'):
            def arr(stt):
                sv = ex.st; ex.st = stt
                try: return ex.leaf_term(stt, HEAP, ('[]', f), z3.ArraySort(I, I))
                finally: ex.st = sv
            x, y = arr(c.prest), arr(c.postst)
            r.append(('other cells unchanged', FA(lambda j: Implies(j != b.mpq, z3.Select(y, j) == z3.Select(x, j)))))
        return r


class Ensure_valid(Repr):
    q = LF + '::ensure_mpq_valid'
    def requires(s, c):
        n = Num(c.at_lv(c.thislv)); return [('word or number valid', And(n.state >= 0, n.state <= 7, Or(n.W, n.M), Implies(n.M, n.A), Implies(n.A, n.mpq > 0)))]
    def step(s, c, n, p):
        return If(n.M, n.state, If(n.W, IntV(7), IntV(6))), n.num, n.den, If(n.A, n.mpq, p), If(n.M, n.n, n.num), If(n.M, n.d, n.den)


class Ensure_memory(Repr):
    q = LF + '::ensure_mpq_memory_allocated'
    def requires(s, c):
        n = Num(c.at_lv(c.thislv)); return [('state', And(n.state >= 0, n.state <= 7, Implies(n.A, n.mpq > 0)))]
    def step(s, c, n, p):
        return If(n.A, n.state, n.state + 2), n.num, n.den, If(n.A, n.mpq, p), None, None


class Try_fit(Repr):
    q = LF + '::try_fit_word'
    allocates = False
    def requires(s, c):
        n = Num(c.at_lv(c.thislv)); return [('only the number is valid', And(n.state >= 0, n.state <= 7, Not(n.W), n.M, n.A, n.mpq > 0)), ('denominator', n.d >= 1)]
    def step(s, c, n, p):
        fit = And(n.n >= WMIN, n.n <= WMAX, n.d >= 0, n.d <= UMAX)
        return If(fit, n.state + 1, n.state), If(fit, n.n, n.num), If(fit, n.d, n.den), n.mpq, None, None


class Well_formed(RatC):
    q = LF + '::isWellFormed'
    def requires(s, c):
        n = Num(c.at_lv(c.thislv))
        return [('state', And(n.state >= 0, n.state <= 7, Implies(n.M, n.A), Implies(n.A, n.mpq > 0))), ('a word is used whenever it fits', Or(n.W, And(n.M, Not(And(n.n >= WMIN, n.n <= WMAX, n.d >= 0, n.d <= UMAX))))), ('both parts are the same number', Implies(And(n.W, n.M), And(n.n == n.num, n.d == n.den))), ('parts', And(n.num >= WMIN, n.num <= WMAX, n.den >= 0, n.den <= UMAX))]
    def form(s, n):
        return And(Or(n.W, n.M), Implies(n.W, And(n.den != 0, gcdf(Abs(n.num), n.den) == 1)), Implies(n.M, n.d != 0))
    def functional(s, c):
        return Val(c.ex.prog.types[c.fn['ret']], {(): s.form(Num(c.at_lv(c.thislv)))})
    def lemmas(s, c):
        n = Num(c.at_lv(c.thislv))
        return []
    def ensures(s, c):
        n = s.this0(c)
        return [('well-formed', c.ret.z == s.form(n))]


class Cmp(RatC):
    q = LF + '::compare'
    def match(s, p, f): return len(f['params']) == 1
    @property
    def name(s): return s.__class__.__name__ + ('_alias' if s.alias else '')
    def ensures(s, c):
        a, b = s.this0(c), s.arg0(c); r = c.ret.z
        return s.kept(c) + [('order of the values', And((r < 0) == (a.N * b.D < b.N * a.D), (r > 0) == (a.N * b.D > b.N * a.D)))]


def rel(op, f):
    class Rel(Cmp):
        q = LF + '::operator' + op
        nm = op
        def lemmas(s, c): return [num_eq(c.ex, s.this0(c), s.arg0(c))]
        @property
        def name(s): return 'Rel' + op + ('_alias' if s.alias else '')
        def ensures(s, c):
            a, b = s.this0(c), s.arg0(c)
            return s.kept(c) + [('order of the values', c.ret.z == f(a.N * b.D, b.N * a.D))]
    return Rel


class Sign(RatC):
    q = LF + '::sign'
    def ensures(s, c):
        a = s.this0(c); r = c.ret.z
        return s.kept(c) + [('sign of the value', And((r < 0) == (a.N < 0), (r > 0) == (a.N > 0)))]


class Is_integer(RatC):
    q = LF + '::isInteger'
    def ensures(s, c): return s.kept(c) + [('integer', c.ret.z == (s.this0(c).D == 1))]


class Is_zero(RatC):
    q = LF + '::isZero'
    def ensures(s, c): return s.kept(c) + [('zero', c.ret.z == (s.this0(c).N == 0))]
class Is_one(RatC):
    q = LF + '::isOne'
    def ensures(s, c): return s.kept(c) + [('one', c.ret.z == And(s.this0(c).N == 1, s.this0(c).D == 1))]


class Ceil(RatC):
    q = LF + '::ceil'
    def ensures(s, c):
        a, r = s.this0(c), s.res(c)
        return s.kept(c) + [('result is well-formed', r.wf()), ('integer', r.D == 1), ('least integer above', And(r.N * a.D >= a.N, r.N * a.D < a.N + a.D))]
class Floor(RatC):
    q = LF + '::floor'
    def ensures(s, c):
        a, r = s.this0(c), s.res(c)
        return s.kept(c) + [('result is well-formed', r.wf()), ('integer', r.D == 1), ('greatest integer below', And(r.N * a.D <= a.N, r.N * a.D > a.N - a.D))]


class Get_num(RatC):
    q = LF + '::get_num'
    def ensures(s, c):
        a, r = s.this0(c), s.res(c)
        return s.kept(c) + [('result is well-formed', r.wf()), ('numerator', And(r.N == a.N, r.D == 1))]
class Get_den(RatC):
    q = LF + '::get_den'
    def ensures(s, c):
        a, r = s.this0(c), s.res(c)
        return s.kept(c) + [('result is well-formed', r.wf()), ('denominator', And(r.N == a.D, r.D == 1))]


class Hash(RatC):
    """equal values have equal hashes: the hash of a value stored in the word part is one fixed function of numerator and
    denominator (numbers not stored there do not fit and have a single representation: bounded stand-in)"""
    q = LF + '::getHashValue'
    def requires(s, c): return RatC.requires(s, c) + [('word part is valid', s.this0(c).W)]
    def ensures(s, c):
        a = s.this0(c)
        return [('hash is a function of the value', c.ret.z == z3.Function('hash!value', z3.IntSort(), z3.IntSort(), z3.IntSort())(a.N, a.D))]
    def setup(s, c):
        RatC.setup(s, c)
        n = Num(c.at_lv(c.thislv))
        c.ex.fact(z3.Function('hash!value', z3.IntSort(), z3.IntSort(), z3.IntSort())(n.N, n.D) == (37 * n.N + 13 * n.D) % 2**32)


def world(w):
    gmp.world(w)
    base = w.on_div
    def od(ex, a, b, q, r):
        base(ex, a, b, q, r)
        if ex.topspec is not None and ex.topspec.fn['qs'] == 'yaga::gcd': euclid(ex, a, b, q, r)
    w.on_div = od


ARITH = [k() for k in (Add, Sub, Mul, Div, AddA, SubA, MulA, DivA, Neg, Negate, Inverse, Inv, Ctor_nd, Ctor_int, Ctor_0, Ctor_mpz, Ctor_copy, Ctor_move, Assign, Move_assign, Abs_val, Gcd, Get_num, Get_den)]
ORDER = [k() for k in (Cmp, Sign, Is_integer, Is_zero, Is_one, Hash, Ceil, Floor) + tuple(rel(o, f) for o, f in (('==', lambda a, b: a == b), ('!=', lambda a, b: a != b), ('<', lambda a, b: a < b), ('<=', lambda a, b: a <= b), ('>', lambda a, b: a > b), ('>=', lambda a, b: a >= b)))]
REPR = [k() for k in (Ensure_valid, Ensure_memory, Try_fit, Well_formed)]
for con in ARITH + ORDER: con.inline_only = True
for con in ARITH:
    if isinstance(con, (Abs_val, Gcd)): con.inline_only = False
for k in (Add, Sub, Mul, Div, AddA, SubA, MulA, DivA, Assign):
    x = k(); x.alias = True; x.inline_only = True; ARITH.append(x)
for k in (Cmp,):
    x = k(); x.alias = True; x.inline_only = True; ORDER.append(x)
CONTRACTS = REPR + ARITH + ORDER
