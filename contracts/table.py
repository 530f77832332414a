"""Term table (src/terms/Terms.cpp, Term_hash_table.cpp): a request is answered by an existing term exactly when kind, type and contents agree;
otherwise a new term with exactly these contents is added; terms in the table never change."""
from spec import *
import terms, rational_abs
from terms import tok, x_of, ARGS, Span, K

RS = z3.RealSort()
DLEN = z3.Function('number of arguments at', I, I)           # contents of an (immutable) descriptor by its address
DARG = z3.Function('arguments at', I, z3.ArraySort(I, I))
DVAL = z3.Function('number at', I, RS)
DIDX = z3.Function('constant at', I, I)


def elems(ex, v):
    v = ex.rd(v) if isinstance(v, LV) else v
    r = v.lv[()]; c = O(ex, ex.st, r.b.lv).leaf('[]', 'x')
    return (lambda i: z3.Select(c, r.b.idx + i)), r.e.idx - r.b.idx


def world(w):
    rational_abs.world(w)
    from stl import mk, fresh_addr
    def argvals(ex, e, args): return ex.bind_args(e, e['fn']['pt'], args)
    def made(ex, e, fact):
        a = fresh_addr(ex, ex.ety(e).nonref().targs[0]); fact(a); return Val(ex.ety(e).nonref(), {(): a})
    def composite(ex, e, this, args):
        a, n = elems(ex, argvals(ex, e, args)[0])
        def fact(d):
            ex.fact(DLEN(d) == n); ex.fact(FA(lambda j: (Implies(And(j >= 0, j < n), DARG(d)[j] == a(j)), [DARG(d)[j]])))
        return made(ex, e, fact)
    def rational(ex, e, this, args):
        v = argvals(ex, e, args)[0]; v = ex.rd(v) if isinstance(v, LV) else v
        return made(ex, e, lambda d: ex.fact(DVAL(d) == v.z))
    def constant(ex, e, this, args):
        v = argvals(ex, e, args)[0]
        return made(ex, e, lambda d: ex.fact(DIDX(d) == v.z))
    T = 'yaga::terms::'
    for n, h in (('composite', composite), ('rational', rational), ('constant', constant)): w.natives[('q', T + n + '_term_descriptor_t::make')] = h
    def addr(this): return this.idx[0]
    def args_of(ex, e, this, args):
        d = addr(this); root = ex.fresh_root('%s:args%s' % (ex.ctxname(), e['_i']), terms.term_vector(ex)); o = O(ex, ex.st, root); a = o.leaf('[]', 'x'); n = o.len
        ex.fact(And(n == DLEN(d), n >= 0, FA(lambda j: (Implies(And(j >= 0, j < n), a[j] == DARG(d)[j]), [a[j]])), FA(lambda j: (Implies(And(j >= 0, j < n), a[j] == DARG(d)[j]), [DARG(d)[j]]))))
        return Val(ex.ety(e).nonref(), {(): Range(Iter(root, IntV(0), False, None), Iter(root, n, False, None))})
    w.natives[('q', T + 'composite_term_descriptor_t::args')] = args_of
    def size_of(ex, e, this, args):
        ex.fact(DLEN(addr(this)) >= 0); return mk(ex, e, DLEN(addr(this)))
    w.natives[('q', T + 'composite_term_descriptor_t::size')] = size_of
    w.natives[('q', T + 'constant_term_descriptor_t::index')] = lambda ex, e, this, args: mk(ex, e, DIDX(addr(this)))
    def value(ex, e, this, args):
        lv = ex.new_root('%s:value%s' % (ex.ctxname(), e['_i']), ex.ety(e).nonref()); ex.wr(lv, Val(lv.ty, {(): DVAL(addr(this))})); return lv
    w.natives[('q', T + 'rational_term_descriptor_t::value')] = value
    def equal(ex, e, this, args):
        vs = [ex.rd(ex.lv(a)) if a.get('lv') else ex.ev(a) for a in args[:2]]
        (a, n), (b, m) = elems(ex, vs[0]), elems(ex, vs[1])
        W = ex.fresh(I, 'difference'); r = ex.fresh(z3.BoolSort(), 'equal')
        ex.fact(Implies(r, And(n == m, FA(lambda j: (Implies(And(j >= 0, j < n), a(j) == b(j)), [a(j)])))))
        ex.fact(Implies(Not(r), Or(n != m, And(W >= 0, W < n, a(W) != b(W)))))
        return mk(ex, e, r)
    w.natives[('std::ranges::__equal_fn', 'operator()')] = equal
    install_set(w, w.natives[('std::unordered_set', 'find')])


class Tab:
    def __init__(s, o):
        v = o.fld('inner_table'); s.n = v.len; s.kind = v.leaf('[]', 'kind'); s.type = v.leaf('[]', 'type'); s.desc = v.leaf('[]', 'descriptor')


class Construct(Contract):
    def requires(s, c):
        t = Tab(c.this)
        return [('room for one more term', And(t.n >= 1, t.n < 2**30 - 1))] + s.pre(c)
    def modifies(s, c): return [c.this.fld('inner_table').lv]
    def ensures(s, c):
        t, u = Tab(c.this), Tab(c.this_); r = x_of(c.ret)
        return [('a new handle', And(r == 2 * t.n, u.n == t.n + 1)),
                ('kind and type', And(u.kind[t.n] == s.kind(c), u.type[t.n] == s.type(c))),
                ('contents', s.contents(c, u.desc[t.n])),
                ('the other terms stay', FA(lambda j: (Implies(And(j >= 0, j < t.n), And(u.kind[j] == t.kind[j], u.type[j] == t.type[j], u.desc[j] == t.desc[j])), [u.kind[j]])))]
    def pre(s, c): return []
    def kind(s, c): return c[0].z
    def type(s, c): return c[1].z


class Span2(Span):
    """a span parameter in position 2"""
    def setup(s, c):
        first = c.args[0]; c.args[0] = c.args[2]; Span.setup(s, c); c.args[2] = c.args[0]; c.args[0] = first


class Construct_composite(Construct):
    q = 'yaga::terms::Term_table::construct_composite'
    setup = Span2.setup
    def pre(s, c): return [('arguments', ARGS(c, i=2).n >= 0)]
    def contents(s, c, d):
        a = ARGS(c, i=2)
        return And(d > 0, DLEN(d) == a.n, FA(lambda j: (Implies(And(j >= 0, j < a.n), DARG(d)[j] == a[j]), [DARG(d)[j]])))
class Construct_rational(Construct):
    q = 'yaga::terms::Term_table::construct_rational'
    def contents(s, c, d): return And(d > 0, DVAL(d) == c[2].z)
class Construct_constant(Construct):
    q = 'yaga::terms::Term_table::construct_constant'
    def contents(s, c, d): return And(d > 0, DIDX(d) == c[2].z)
class Construct_uninterpreted(Construct):
    q = 'yaga::terms::Term_table::construct_uninterpreted_constant'
    def kind(s, c): return IntV(K['UNINTERPRETED_TERM'])
    def type(s, c): return c[0].z
    def contents(s, c, d): return d == 0


class Get_kind(Contract):
    q = 'yaga::terms::Term_table::get_kind'; f = 'kind'
    def requires(s, c): x = x_of(c[0]); return [('a term', And(x >= 0, x / 2 < Tab(c.this).n))]
    def ensures(s, c): return [('stored', c.ret.z == getattr(Tab(c.this), s.f)[x_of(c[0]) / 2])]
class Get_type(Get_kind):
    q = 'yaga::terms::Term_table::get_type'; f = 'type'


class Key_equal(Contract):
    """an entry answers a request exactly when kind, type and contents agree"""
    q = 'yaga::terms::Term_hash_table::KeyEqual::operator()'
    arg = None
    def match(s, p, f): return len(f['params']) == 2 and s.arg in p.types[f['params'][0]['t']].s
    def tab(s, c):
        ty = [t for t in c.ex.prog.types if t.k == 'rec' and t.s == 'yaga::terms::Term_table'][0]
        return Tab(O(c.ex, c.prest, c.ex.deref_ptr(c[0].fld('term_table').z, ty)))
    def requires(s, c):
        t = s.tab(c); x = x_of(c[1].fld('term'))
        return [('same bucket', c[0].fld('hash').z == c[1].fld('hash').z), ('the table', c[0].fld('term_table').z > 0),
                ('a term of the table', And(x >= 0, x / 2 < t.n)), ('contents', t.desc[x / 2] > 0)] + s.pre(c)
    def pre(s, c): return []
    def ensures(s, c):
        t = s.tab(c); i = x_of(c[1].fld('term')) / 2; d = t.desc[i]
        same = And(t.kind[i] == c[0].fld('kind').z, t.type[i] == c[0].fld('type').z)
        return [('agree', Implies(c.ret.z, And(same, s.contents(c, d)))), ('otherwise they differ', Implies(Not(c.ret.z), Not(And(same, s.contents(c, d)))))]
class Equal_composite(Key_equal):
    arg = 'Composite_term_proxy'
    def setup(s, c):
        root = c.ex.new_root('arguments', terms.term_vector(c.ex)); n = O(c.ex, c.ex.st, root).len
        c.ex.fact(And(n >= 0, n <= MAXVAR))
        c.ex.wr_leaf(c.args[0], ('args',), Range(Iter(root, IntV(0), False, None), Iter(root, n, False, None)))
        c.prest = c.ex.st
    def contents(s, c, d):
        r = s.rng(c)
        return And(DLEN(d) == r[1], FA(lambda j: (Implies(And(j >= 0, j < r[1]), DARG(d)[j] == r[0](j)), [DARG(d)[j]])))
    def rng(s, c):
        r = c.ex.rd_raw(c.prest, c.args[0], ('args',)); a = O(c.ex, c.prest, r.b.lv).leaf('[]', 'x')
        return (lambda j: z3.Select(a, r.b.idx + j)), r.e.idx - r.b.idx
class Equal_constant(Key_equal):
    arg = 'Constant_term_proxy'
    def contents(s, c, d): return DIDX(d) == c[0].fld('index').z
class Equal_rational(Key_equal):
    arg = 'Rational_proxy'
    def contents(s, c, d):
        f = c[0].fld('value'); v = f.z
        if v.sort() == I: v = O(c.ex, c.prest, c.ex.deref_ptr(v, [t for t in c.ex.prog.types if t.k == 'rec' and t.s == 'yaga::Long_fraction'][0])).z
        return DVAL(d) == v


def is_entry(ty): return ty.s.endswith('Term_hash_table::Entry')
def has(c, o): return o.leaf('has')
def install_set(w, std):
    """find with a request: an entry filed under the hash of the request whose comparison with it succeeds (contracts of KeyEqual), or none"""
    def find(ex, e, this, args):
        import stl
        if not is_entry(this.ty.targs[0]): return std(ex, e, this, args)
        lv = ex.lv(args[0]); q = [s for s in (Equal_composite, Equal_constant, Equal_rational) if s.arg in lv.ty.s][0]()
        c = ex.topspec
        p = O(ex, ex.st, lv); h = p.fld('hash').z
        t = Get.table(c, ex.st, p)
        m = ex.rd_raw(ex.st, this, ('has',)); X = ex.fresh(I, 'member'); found = ex.fresh(B, 'found')
        agrees = lambda x: And(t.kind[x / 2] == p.fld('kind').z, t.type[x / 2] == p.fld('type').z, q.contents(c, t.desc[x / 2]))
        ex.fact(Implies(found, And(m[h][X], agrees(X))))
        ex.fact(Implies(Not(found), FA(lambda x: (Implies(m[h][x], Not(agrees(x))), [m[h][x]]))))
        k = Val(this.ty.targs[0], {p_: (X if p_[-1] == 'x' else h) for p_ in ex.w.shape(this.ty.targs[0])})
        # decided here so that both cases are separate paths
        f = TRUE if ex.decide(found) else FALSE
        return stl.mk(ex, e, stl.kt_iter(this, k, f))
    w.natives[('std::unordered_set', 'find')] = find


class Get(Contract):
    """the entry answering a request; a new term is added exactly when there is none"""
    inline_only = True
    @staticmethod
    def table(c, st, p):
        ty = [t for t in c.ex.prog.types if t.k == 'rec' and t.s == 'yaga::terms::Term_table'][0]
        return Tab(O(c.ex, st, c.ex.deref_ptr(p.fld('term_table').z, ty)))
    def ty(s, c): return [t for t in c.ex.prog.types if t.k == 'rec' and t.s == 'yaga::terms::Term_table'][0]
    def tabo(s, c, st): return O(c.ex, st, c.ex.deref_ptr(c[0].fld('term_table').z, s.ty(c)))
    def setup(s, c):
        if s.eq is Equal_composite: s.eq().setup(c)
    def requires(s, c):
        t = Tab(s.tabo(c, c.prest)); m = c.this.fld('terms').leaf('has')
        return [('the table', And(c[0].fld('term_table').z > 0, t.n >= 1, t.n < 2**30 - 1)),
                ('entries are terms of the table', FA(lambda h, x: (Implies(m[h][x], And(x >= 2, x % 2 == 0, x / 2 < t.n, t.desc[x / 2] > 0)), [m[h][x]]), 2))]
    def modifies(s, c): return [c.this.fld('terms').lv, s.tabo(c, c.prest).fld('inner_table').lv]
    def ensures(s, c):
        t, u = Tab(s.tabo(c, c.prest)), Tab(s.tabo(c, c.postst)); r = x_of(c.ret); q = s.eq(); h = c[0].fld('hash').z
        m, m2 = c.this.fld('terms').leaf('has'), c.this_.fld('terms').leaf('has')
        agrees = lambda t, x: And(t.kind[x / 2] == c[0].fld('kind').z, t.type[x / 2] == c[0].fld('type').z, q.contents(c, t.desc[x / 2]))
        return [('the term is what was requested', And(r >= 2, r % 2 == 0, r / 2 < u.n, agrees(u, r))),
                ('it is filed under the hash of the request', m2[h][r]),
                ('nothing is added when there is an entry', FA(lambda x: (Implies(And(m[h][x], agrees(t, x)), And(u.n == t.n, m[h][r])), [m[h][x]]))),
                ('otherwise the new term is the only addition', Or(And(u.n == t.n, m[h][r]), And(u.n == t.n + 1, r == 2 * t.n))),
                ('other entries stay', FA(lambda g, x: (Implies(Not(And(g == h, x == r)), m2[g][x] == m[g][x]), [m2[g][x]]), 2)),
                ('entries are terms of the table', FA(lambda g, x: (Implies(m2[g][x], And(x >= 2, x % 2 == 0, x / 2 < u.n, u.desc[x / 2] > 0)), [m2[g][x]]), 2)),
                ('terms stay', FA(lambda j: (Implies(And(j >= 0, j < t.n), And(u.kind[j] == t.kind[j], u.type[j] == t.type[j], u.desc[j] == t.desc[j])), [u.kind[j]])))]
class Get_composite(Get):
    q = 'yaga::terms::Term_hash_table::get_composite_term'; eq = Equal_composite
class Get_rational(Get):
    q = 'yaga::terms::Term_hash_table::get_rational_term'; eq = Equal_rational
class Get_constant(Get):
    q = 'yaga::terms::Term_hash_table::get_constant_term'; eq = Equal_constant


CONTRACTS = [Construct_composite(), Construct_rational(), Construct_constant(), Construct_uninterpreted(), Get_kind(), Get_type(), Equal_composite(), Equal_constant(), Equal_rational(), Get_composite(), Get_rational(), Get_constant()]
