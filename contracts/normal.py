"""Normalization, storage and identification of linear constraints."""
from spec import *
import linear
from linear import LCV, RS, EQ, LT, LEQ, in_repo, holds



def world(w):
    linear.world(w)
    w.natives[('std::unordered_set', 'insert')] = set_insert


def set_insert(ex, e, this, args):
    """insertion into the set of constraints (hash and equality: contracts of Cons_hash and Eq_call).
    Members of the set are stored constraints; the element returned is equal to the one inserted."""
    import stl
    if not this.ty.targs[0].is_q('yaga::Linear_constraint') if hasattr(this.ty.targs[0], 'is_q') else this.ty.targs[0].q.split('<')[0] != 'yaga::Linear_constraint': return stl.set_insert(ex, e, this, args)
    k = stl.keyarg(ex, this, args[0])
    kl = ex.fresh_root('inserted', k.ty); ex.wr(kl, k)
    el = ex.fresh_root('member', k.ty)
    a, b = LCV(O(ex, ex.st, kl)), LCV(O(ex, ex.st, el))
    dup = ex.fresh(B, 'known')
    c = ex.topspec; t = O(ex, ex.st, c.thislv); xs, cs = t.fld('variables'), t.fld('coefficients'); me = LCV(O(ex, ex.st, kl)).home
    E = z3.Function('same_term!%d' % ex.counter, I, I); G = z3.Function('same_term_back!%d' % ex.counter, I, I); ex.counter += 1
    n0 = c.this.fld('variables').len; nc = c.this.fld('constraints').len
    both = lambda p, q, m: FA(lambda j: Implies(And(j >= p.a, j < p.b), And(m(j) >= q.a, m(j) < q.b, xs[m(j)].z == xs[j].z, cs[m(j)].z == cs[j].z)))
    ex.fact(Implies(dup, And(b.a >= 0, b.b >= b.a, b.b <= n0, b.lit >= 1, b.lit <= nc, b.pred_ok(), b.home == a.home, b.b - b.a == a.b - a.a, b.pred == a.pred, b.rhs == a.rhs,
                             both(b, a, E), both(a, b, G), FA(lambda i, j: Implies(And(i >= b.a, i < j, j < b.b), xs[i].z != xs[j].z), 2))))
    ex.log.setdefault('insert', []).append((a, b, dup))
    # decided here so that both cases are separate paths
    if ex.decide(dup):
        v = ex.rd(el)
        return stl.ins_result(ex, e, this, v, TRUE)
    return stl.ins_result(ex, e, this, k, FALSE)


F = z3.Function('coefficient', I, RS)        # coefficient of a variable in the constraint asked for (ghost)
J = z3.Int('position of the smallest variable'); M = z3.Real('normalization factor')
SC = z3.Function('scaled coefficient', RS, I, RS)     # SC(m, y) = m * F(y)
W = z3.Function('position', I, I)            # its position in the input (ghost)
CNT = z3.Function('count_nonzero', I, I)     # number of non-zero coefficients before a position (ghost)


class In:
    """the input of make: variables and coefficients with their ghost coefficient function"""
    def __init__(s, c, i, j):
        s.ex = c.ex; s.x, s.n = s.seq(c, i); s.c, s.m = s.seq(c, j)
    def seq(s, c, i):
        a = c.args[i]
        if isinstance(a, LV) and s.ex.w.is_seq(a.ty):
            o = c[i]; return (lambda k: o[k].z), o.len
        r = a.lv[()] if not isinstance(a, LV) else s.ex.rd_raw(c.prest, a, ())
        it = r.b
        if it.get is not None: return (lambda k: s.deref(c, it, k)), r.e.idx
        return (lambda k: O(s.ex, c.prest, it.lv)[k].z), r.e.idx
    def empty(s): return FA(lambda i: Implies(And(i >= 0, i < s.n), s.c(i) == 0))
    def deref(s, c, it, k):
        f = it.get.__defaults__
        return O(s.ex, c.prest, it.lv.at(k, it.lv.ty.targs[0]).f(('first', 'second')[f[0]], it.lv.ty.targs[0].targs[f[0]])).z
    def wf(s):
        return [('as many coefficients as variables', And(s.n == s.m, s.n >= 0, s.n <= MAXVAR)),
                ('each variable once', FA(lambda j: Implies(And(j >= 0, j < s.n), And(s.x(j) >= 0, s.x(j) < INT_MAX, W(s.x(j)) == j, F(s.x(j)) == s.c(j))))),
                ('smallest variable (definition of its position and of the factor)', Or(s.empty(), And(J >= 0, J < s.n, s.c(J) != 0, M * s.c(J) == 1, FA(lambda k: Implies(And(k >= 0, k < s.n, s.c(k) != 0), s.x(J) <= s.x(k)))))),
                ('other variables have coefficient 0', FA(lambda y: Or(F(y) == 0, And(W(y) >= 0, W(y) < s.n, s.x(W(y)) == y))))]


class N(linear.LC):
    def setup(s, c):
        root = None
        for i, a in enumerate(c.args):
            if isinstance(a, LV) and a.ty.k == 'rec' and 'elements_view' in a.ty.nonref().s.split('<')[0]:
                ref = a.ty.nonref().targs[0]; vec = ref.targs[0]
                if root is None: root = c.ex.new_root('pairs', vec)
                k = int(a.ty.nonref().s.rsplit(',', 1)[1].strip(' >&'))
                def get(ex, it, k=k, root=root, vec=vec):
                    e = root.at(it.idx, vec.targs[0])
                    ex.oblige('iterator dereference in range', And(it.idx >= 0, it.idx < ex.rdl(root, 'len')), 'bounds')
                    return e.f(('first', 'second')[k], vec.targs[0].targs[k])
                n = O(c.ex, c.ex.st, root).len
                c.ex.fact(And(n >= 0, n <= MAXVAR))
                c.args[i] = Val(a.ty.nonref(), {(): Range(Iter(root, IntV(0), False, get), Iter(root, n, False, get))})


class Find_norm(N):
    q = 'yaga::Linear_constraints::find_norm_constant'
    inline_only = False
    def requires(s, c): return In(c, 0, 1).wf()
    def ensures(s, c):
        a = In(c, 0, 1); r = c.ret; n = a.n
        return [('none iff all coefficients are zero', r.leaf('has') == range_ex(0, n, lambda j: a.c(j) != 0)),
                ('inverse of the coefficient of the smallest variable', Implies(r.leaf('has'), r.leaf('val') == M))]
    def templates(s, ex, lid, L):
        c = ex.topspec; a = In(c, 0, 1); out = []
        ints = [(n, rd) for n, rd, k, e0 in L.unm if k == 'int'] + list(L.counters)
        for cn, cr in L.counters:
            for rn, lv in linear.reals(ex):
                out.append(('none yet %s %s' % (rn, cn), lambda e, lv=lv, cr=cr: Implies(O(e, e.st, lv).z == 0, range_all(0, cr(e), lambda j: a.c(j) == 0))))
                for mn, mr in locs(ex, L):
                    out.append(('smallest %s %s %s' % (mn, rn, cn), lambda e, lv=lv, cr=cr, mr=mr: Implies(O(e, e.st, lv).z != 0, And(F(mr(e)) == O(e, e.st, lv).z, W(mr(e)) >= 0, W(mr(e)) < cr(e), range_all(0, cr(e), lambda j: Implies(a.c(j) != 0, mr(e) <= a.x(j)))))))
                    out.append(('initial %s %s' % (mn, rn), lambda e, lv=lv, mr=mr: Implies(O(e, e.st, lv).z == 0, mr(e) == INT_MAX)))
        return out


def locs(ex, L):
    out = []
    for vid, lv in sorted(ex.frames[-1].vars.items()):
        if isinstance(lv, LV) and lv.ty is not None and lv.ty.k == 'int': out.append(('i%d' % vid, lambda e, lv=lv: O(e, e.st, lv).z))
    return out


class Norm_pred(N):
    q = 'yaga::Linear_constraints::norm_pred'
    inline_only = False
    def requires(s, c): t = c[1].fld('type').z; return [('relation', And(t >= 0, t <= 2)), ('factor', c[0].z != 0)]
    def ensures(s, c):
        m, t, r = c[0].z, c[1].fld('type').z, c.ret.fld('type').z
        a, b = z3.Reals('lhs!any rhs!any')
        flip = And(m < 0, t != EQ)
        return [('relation', r == If(And(m < 0, t != EQ), If(t == LT, IntV(LEQ), IntV(LT)), t)), ('scaled constraint, complemented when an inequality is multiplied by a negative number', z3.Xor(flip, holds(r, m * a, m * b)) == holds(t, a, b))]

class Repo_add(N):
    q = 'yaga::Linear_constraints::add'
    inline_only = False
    def requires(s, c):
        a = In(c, 1, 2); t = c.this
        return a.wf() + [('repository', And(t.fld('variables').len == t.fld('coefficients').len, t.fld('variables').len + a.n <= INT_MAX, t.fld('constraints').len < MAXVAR)), ('factor', c[0].z != 0)]
    def modifies(s, c): return [c.this.fld('variables').lv, c.this.fld('coefficients').lv]
    def ensures(s, c):
        a = In(c, 1, 2); t, u = c.this, c.this_; n0 = t.fld('variables').len
        xs, cs = u.fld('variables'), u.fld('coefficients'); mult = c[0].z
        first, second = c.ret.sub('second').sub('first').z, c.ret.sub('second').sub('second').z
        defs(c.ex, a)
        return [('range', And(first == n0, second == n0 + CNT(a.n), xs.len == second, cs.len == second)),
                ('next boolean variable', c.ret.sub('first').sub('value').z == t.fld('constraints').len + 1),
                ('earlier constraints unchanged', range_all(0, n0, lambda j: And(xs[j].z == t.fld('variables')[j].z, cs[j].z == t.fld('coefficients')[j].z))),
                ('stored coefficients are the scaled non-zero ones', FA(lambda j: Implies(And(j >= first, j < second), And(F(xs[j].z) != 0, cs[j].z == SC(mult, xs[j].z), n0 + CNT(W(xs[j].z)) == j)))),
                ('every variable with a non-zero coefficient is stored', range_all(0, a.n, lambda i: Implies(a.c(i) != 0, And(n0 + CNT(i) < second, xs[n0 + CNT(i)].z == a.x(i)))))]
    def templates(s, ex, lid, L):
        c = ex.topspec; a = In(c, 1, 2); t = c.this; n0 = t.fld('variables').len; mult = c[0].z
        xs = lambda e: O(e, e.st, c.thislv).fld('variables'); cs = lambda e: O(e, e.st, c.thislv).fld('coefficients')
        defs(ex, a); y = z3.Int('y!sc')
        ex.fact(z3.ForAll([y], SC(mult, y) == mult * F(y), patterns=[SC(mult, y)]))     # definition
        out = [('earlier', lambda e: range_all(0, n0, lambda j: And(xs(e)[j].z == t.fld('variables')[j].z, cs(e)[j].z == t.fld('coefficients')[j].z)))]
        for on, ro in L.counters:
            out.append(('scaled<%s' % on, lambda e, ro=ro: FA(lambda j: Implies(And(j >= n0, j < ro(e)), cs(e)[j].z == SC(mult, xs(e)[j].z)))))
            out.append(('unscaled>=%s' % on, lambda e, ro=ro: FA(lambda j: Implies(And(j >= ro(e), j < xs(e).len), cs(e)[j].z == F(xs(e)[j].z)))))
            out.append(('raw>=%s' % on, lambda e, ro=ro: FA(lambda j: Implies(And(j >= ro(e), j < n0 + a.n), And(xs(e)[j].z == a.x(j - n0), cs(e)[j].z == a.c(j - n0))))))
            out.append(('rawf>=%s' % on, lambda e, ro=ro: FA(lambda j: Implies(And(j >= ro(e), j < n0 + a.n), And(W(xs(e)[j].z) == j - n0, cs(e)[j].z == F(xs(e)[j].z))))))
            out.append(('kept<%s' % on, lambda e, ro=ro: FA(lambda j: Implies(And(j >= n0, j < ro(e)), And(F(xs(e)[j].z) != 0, cs(e)[j].z == F(xs(e)[j].z), n0 + CNT(W(xs(e)[j].z)) == j)))))
            for inn, ri in L.counters:
                if inn != on:
                    def cnt(e, ro=ro, ri=ri):
                        step(e, a, ri(e) - n0)
                        return ro(e) == n0 + CNT(ri(e) - n0)
                    out.append(('count %s %s' % (on, inn), cnt))
                    out.append(('all kept %s %s' % (on, inn), lambda e, ro=ro, ri=ri: range_all(0, ri(e) - n0, lambda i: Implies(a.c(i) != 0, And(n0 + CNT(i) < ro(e), xs(e)[n0 + CNT(i)].z == a.x(i))))))
        return out


def step(ex, a, i):
    """CNT(i) counts the non-zero coefficients before i"""
    ex.fact(Implies(And(i >= 0, i < a.n), CNT(i + 1) == CNT(i) + If(a.c(i) == 0, 0, 1)))
    ex.fact(Implies(And(i >= 1, i <= a.n), CNT(i) == CNT(i - 1) + If(a.c(i - 1) == 0, 0, 1)))


def defs(ex, a):
    ex.fact(CNT(IntV(0)) == 0)
    ex.fact(FA(lambda i: Implies(i >= 0, And(CNT(i) >= 0, CNT(i) <= i))))       # lemma 'count is between 0 and the position'


def lemma_cnt():
    i = z3.Int('i'); nz = z3.Function('nz', I, B); s = z3.Solver()
    s.add(i >= 0, CNT(i) >= 0, CNT(i) <= i, CNT(i + 1) == CNT(i) + If(nz(i), 1, 0), Not(And(CNT(i + 1) >= 0, CNT(i + 1) <= i + 1)))
    return s.check() == z3.unsat


W2 = z3.Function('position2', I, I)


class Eq(N):
    """constraints with distinct variables (W, W2: positions of a variable in the two constraints)"""
    inline_only = False
    def home(s, c, i): return c[i].fld('constraints').deref()
    def k(s, c, i): return LCV(c[i])
    def requires(s, c):
        k0, k1 = s.k(c, 0), s.k(c, 1); r0, r1 = s.home(c, 0), s.home(c, 1)
        d = lambda w, r, k: FA(lambda j: Implies(And(j >= k.a, j < k.b), w(r.fld('variables')[j].z) == j))
        return [('belong to a repository', And(Implies(Not(k0.empty()), k0.home > 0), Implies(Not(k1.empty()), k1.home > 0))), ('stored', And(in_repo(r0, k0), in_repo(r1, k1))), ('distinct variables', And(d(W, r0, k0), d(W2, r1, k1)))]
    def inc(s, c, j, flip=False):
        """element j of one constraint occurs in the other"""
        a, b = (1, 0) if flip else (0, 1)
        k = s.k(c, b); r, q = s.home(c, a), s.home(c, b); w = W if flip else W2
        x, y = r.fld('variables')[j].z, r.fld('coefficients')[j].z
        return And(w(x) >= k.a, w(x) < k.b, q.fld('variables')[w(x)].z == x, q.fld('coefficients')[w(x)].z == y)
    def sub(s, c, flip=False, hi=None, f=None):
        k = s.k(c, 1 if flip else 0); f = f or (lambda x: x)
        hi = k.b if hi is None else hi
        return FA(lambda j: Implies(And(j >= k.a, j < hi), s.inc(c, j, flip)))
    def templates(s, ex, lid, L):
        c = ex.topspec; out = []
        for cn, rd in L.counters:
            for fl in (False, True):
                out.append(('included%d<%s' % (fl, cn), lambda e, rd=rd, fl=fl: s.sub(c, fl, rd(e))))
        k = s.k(c, 0); r = s.home(c, 0)
        for vid, lv in sorted(ex.frames[-1].vars.items()):
            if isinstance(lv, LV) and lv.ty is not None and lv.ty.is_std('std::vector') and lv.ty.targs[0].is_std('std::pair'):
                for cn, rd in L.counters:
                    out.append(('copied%d<%s' % (vid, cn), lambda e, lv=lv, rd=rd: FA(lambda j: Implies(And(j >= k.a, j < rd(e)), And(O(e, e.st, lv)[j - k.a].fld('first').z == r.fld('variables')[j].z, O(e, e.st, lv)[j - k.a].fld('second').z == r.fld('coefficients')[j].z)))))
                    out.append(('copied2 %d<%s' % (vid, cn), lambda e, lv=lv, rd=rd: FA(lambda j: Implies(And(j >= 0, j < rd(e) - k.a), And(O(e, e.st, lv)[j].fld('first').z == r.fld('variables')[j + k.a].z, O(e, e.st, lv)[j].fld('second').z == r.fld('coefficients')[j + k.a].z)))))
                    out.append(('copied len%d<%s' % (vid, cn), lambda e, lv=lv, rd=rd: O(e, e.st, lv).len == rd(e) - k.a))
        return out


class Eq_brute(Eq):
    q = 'yaga::Linear_constraint_equal::brute_force_equal'
    def ensures(s, c): return [('every term of the first occurs in the second', c.ret.z == s.sub(c))]


class Eq_sort(Eq):
    q = 'yaga::Linear_constraint_equal::sort_equal'
    def ensures(s, c): return [('every term of the second occurs in the first', c.ret.z == s.sub(c, True))]


class Eq_call(Eq):
    q = 'yaga::Linear_constraint_equal::operator()'
    def ensures(s, c):
        a, b = s.k(c, 0), s.k(c, 1)
        same = And(a.b - a.a == b.b - b.a, a.pred == b.pred, a.rhs == b.rhs)
        return [('equal: same relation, right-hand side, number of terms, and the terms of one occur in the other', Implies(c.ret.z, And(same, Or(s.sub(c), s.sub(c, True))))),
                ('not equal: some of these differ', Implies(Not(c.ret.z), Not(And(same, s.sub(c), s.sub(c, True)))))]


class Cons_hash(N):
    """the hash is a function of the multiset of variables, the multiset of coefficients and the right-hand side"""
    q = 'yaga::Linear_constraint_hash::operator()'
    def home(s, c): return c[0].fld('constraints').deref()
    def requires(s, c):
        k = LCV(c[0])
        return [('belongs to a repository', Implies(Not(k.empty()), k.home > 0)), ('stored', in_repo(s.home(c), k))]
    def sums(s, c):
        r = s.home(c)
        x, y = r.fld('variables').leaf('[]'), r.fld('coefficients').leaf('[]')
        def sm(fn, arr, h):
            def f(a, b):
                c.ex.fact(Implies(a >= b, fn(arr, a, b) == 0))
                c.ex.fact(Implies(a < b, fn(arr, a, b) == (fn(arr, a, b - 1) + h(z3.Select(arr, b - 1))) % 2**64))
                return fn(arr, a, b)
            return f
        return sm(HSV, x, stl_hash_int), sm(HSC, y, rational_hash)
    def ensures(s, c):
        k = LCV(c[0]); sv, sc = s.sums(c)
        return [('order-independent sum of the hashes of variables and of coefficients', c.ret.z == (3 * sv(k.a, k.b) + sc(k.a, k.b) + rational_hash(k.rhs)) % 2**64)]
    def templates(s, ex, lid, L):
        c = ex.topspec; k = LCV(c[0]); sv, sc = s.sums(c); out = []
        for vid, lv in sorted(ex.frames[-1].vars.items()):
            if isinstance(lv, LV) and lv.ty is not None and lv.ty.k == 'int' and lv.ty.bits == 64:
                for cn, rd in L.counters:
                    for n, f, z in (('v', sv, 0), ('c', sc, 0), ('cr', sc, rational_hash(k.rhs))):
                        out.append(('hash %s%d<%s' % (n, vid, cn), lambda e, lv=lv, rd=rd, f=f, z=z: O(e, e.st, lv).z == (f(k.a, rd(e)) + z) % 2**64))
        return out


HSV = z3.Function('sum_hash_variables', z3.ArraySort(I, I), I, I, I); HSC = z3.Function('sum_hash_coefficients', z3.ArraySort(I, RS), I, I, I)
def stl_hash_int(x): return z3.Function('hash_int', I, I)(x)
def rational_hash(x): return z3.Function('hash_unsigned long', I, I)(linear.rational_abs.hash_f(x))



class Make(N):
    q = 'yaga::Linear_constraints::make'
    def requires(s, c):
        a = In(c, 0, 1); t = c.this; p = c[2].fld('type').z
        return a.wf() + [('repository', And(t.fld('variables').len == t.fld('coefficients').len, t.fld('variables').len + a.n <= INT_MAX, t.fld('constraints').len < MAXVAR)), ('relation', And(p >= 0, p <= 2))]
    def modifies(s, c): return [c.this.fld(n).lv for n in ('variables', 'coefficients', 'constraints', 'cons_set')]
    def ensures(s, c):
        a = In(c, 0, 1); p = c[2].fld('type').z; rhs = c[3].z
        t, u = c.this, c.this_; n0 = t.fld('variables').len; nc = t.fld('constraints').len
        xs, cs = u.fld('variables'), u.fld('coefficients'); r = LCV(c.ret); A = z3.Real('lhs!any')
        defs(c.ex, a)
        empty = a.empty()
        known = c.ex.log['insert'][-1][2]
        ks = u.fld('constraints')
        def terms(m): return FA(lambda j: Implies(And(j >= r.a, j < r.b), And(F(xs[j].z) != 0, cs[j].z == SC(m, xs[j].z))))
        scaling(c.ex, M, A, rhs); scaling(c.ex, M, rhs, A)
        return [('without variables: the relation between 0 and the right-hand side', Implies(empty, And(r.a >= r.b, z3.Xor(r.lit < 0, holds(r.pred, z3.RealVal(0), r.rhs)) == holds(p, z3.RealVal(0), rhs)))),
                ('stored terms are the non-zero terms asked for, divided by the coefficient of the smallest variable', Or(empty, terms(M))), ('the factor is not zero', Or(empty, M != 0)),
                ('right-hand side divided by that coefficient', Or(empty, r.rhs == M * rhs)),
                ('the relation is the one asked for, or its complement with a negated literal', Or(empty, z3.Xor(r.lit < 0, holds(r.pred, M * A, M * rhs)) == holds(p, A, rhs))),
                ('as many terms as non-zero coefficients', Implies(Not(empty), r.b - r.a == CNT(a.n))),
                ('stored', And(r.a >= 0, r.b >= r.a, r.b <= xs.len, xs.len == cs.len, r.pred_ok(), lit_ok(r.lit))),
                ('each variable once', FA(lambda i, j: Implies(And(i >= r.a, i < j, j < r.b), xs[i].z != xs[j].z), 2)),
                ('earlier constraints unchanged', And(xs.len >= n0, range_all(0, n0, lambda j: And(xs[j].z == t.fld('variables')[j].z, cs[j].z == t.fld('coefficients')[j].z)), FA(lambda j: Implies(And(j >= 0, j < nc), same_cons(ks[j], t.fld('constraints')[j]))))),
                ('a known constraint keeps its boolean variable, a new one gets the next', And(Implies(known, And(ks.len == nc, xs.len == n0, lit_ord(r.lit) < nc)), Implies(Not(known), And(ks.len == nc + 1, lit_ord(r.lit) == nc, rec_ok(ks[nc], r)))))]


def scaling_facts(m, x, y): return And(Implies(m > 0, And((m * x < m * y) == (x < y), (m * x == m * y) == (x == y))), Implies(m < 0, And((m * x < m * y) == (y < x), (m * x == m * y) == (x == y))))
def scaling(ex, m, x, y): ex.fact(scaling_facts(m, x, y))


def lemma_scaling():
    m, x, y = z3.Reals('m x y'); s = z3.SolverFor('QF_NRA'); s.add(Not(scaling_facts(m, x, y)))
    return s.check() == z3.unsat


def same_cons(x, y):
    p, q = LCV(x), LCV(y)
    return And(p.a == q.a, p.b == q.b, p.pred == q.pred, p.lit == q.lit, p.rhs == q.rhs, p.home == q.home)


def rec_ok(x, r):
    p = LCV(x)
    return And(p.a == r.a, p.b == r.b, p.pred == r.pred, lit_ord(p.lit) == lit_ord(r.lit), p.lit > 0, p.rhs == r.rhs)


LEMMAS = [('scaling an inequality', lemma_scaling), ('count is between 0 and the position', lemma_cnt)]
CONTRACTS = [k() for k in (Find_norm, Norm_pred, Repo_add, Eq_brute, Eq_sort, Eq_call, Cons_hash, Make)]
