"""Names with definitions: substitution (src/terms/Term_rewriter.h) and let scopes (src/parser/Parser_context.h).

M(x): meaning of a handle under an assignment; N(x): its meaning when every mapped variable means what it is mapped to. Both are functions of the
meanings of the parts (assumption on mk_term, C18: a term of kind k with arguments of given meanings has the meaning of every such term).
Meanings carry their types. Let bindings: per name a stack of values, innermost last."""
from spec import *
import terms
from terms import tok, opp, x_of, TYPE, KIND, K

MI = z3.Function('meaning of term', I, I)
NI = z3.Function('substituted meaning of term', I, I)
NEG = z3.Function('negated meaning', I, I)
TM = z3.Function('type of meaning', I, I)
CNT = z3.Function('number of arguments of', I, I)
ARG = z3.Function('arguments of', I, z3.ArraySort(I, I))
FUN = z3.Function('function symbol of', I, I)
MAPPED = z3.Function('handle is substituted', I, B)
APP, VAR = IntV(K['APP_TERM']), IntV(K['UNINTERPRETED_TERM'])


def M(x): return If(x % 2 == 0, MI(x / 2), NEG(MI(x / 2)))
def N(x): return If(x % 2 == 0, NI(x / 2), NEG(NI(x / 2)))
def off(t): return If(KIND(t) == APP, IntV(1), IntV(0))
def pos(x): return x - x % 2
def arg(t, j): return z3.Select(ARG(t), j)


def world(w):
    from stl import mk
    def argvals(ex, e, args): return ex.bind_args(e, e['fn']['pt'], args)
    def xv(ex, e, args, i=0):
        v = argvals(ex, e, args)[i]; v = ex.rd(v) if isinstance(v, LV) else v
        return v.lv[('x',)]
    w.natives[('q', 'yaga::terms::Term_manager::get_type')] = lambda ex, e, this, args: mk(ex, e, TYPE(xv(ex, e, args) / 2))
    w.natives[('q', 'yaga::terms::Term_manager::get_kind')] = lambda ex, e, this, args: mk(ex, e, KIND(xv(ex, e, args) / 2))
    def term(ex, e, r0):
        v = ex.undef_val(ex.ety(e)); r = v.lv[('x',)]; ex.fact(r == r0); return v
    w.natives[('q', 'yaga::terms::Term_manager::get_fnc_symbol')] = lambda ex, e, this, args: term(ex, e, FUN(xv(ex, e, args) / 2))
    def get_args(ex, e, this, args):
        t = xv(ex, e, args) / 2
        root = ex.fresh_root('%s:args%s' % (ex.ctxname(), e['_i']), terms.term_vector(ex)); o = O(ex, ex.st, root); a = o.leaf('[]', 'x'); n = o.len
        ex.fact(And(n == CNT(t), n >= 0, a == ARG(t)))
        return Val(ex.ety(e).nonref(), {(): Range(Iter(root, IntV(0), False, None), Iter(root, n, False, None))})
    w.natives[('q', 'yaga::terms::Term_manager::get_args')] = get_args
    def mk_term(ex, e, this, args):
        vs = argvals(ex, e, args); kind = vs[0]; kind = (ex.rd(kind) if isinstance(kind, LV) else kind).z
        v = ex.rd(vs[1]) if isinstance(vs[1], LV) else vs[1]; rg = v.lv[()]; c = O(ex, ex.st, rg.b.lv).leaf('[]', 'x'); n = rg.e.idx - rg.b.idx
        a = lambda i: z3.Select(c, rg.b.idx + i)
        ex.oblige('a term with arguments is requested', And(n >= 1, kind != VAR), 'pre')
        r = ex.undef_val(ex.ety(e)); x = r.lv[('x',)]; W = z3.Function('difference %s' % ex.fresh(I, 'd'), I, I)
        ex.fact(And(tok(x), Not(MAPPED(x))))
        t = z3.Int('t!mk')
        ex.fact(z3.ForAll([t], Or(KIND(t) != kind, n != CNT(t) + off(t), And(kind == APP, a(0) != FUN(t)), And(W(t) >= 0, W(t) < CNT(t), M(a(W(t) + off(t))) != N(arg(t, W(t)))), M(x) == N(2 * t)), patterns=[KIND(t)]))
        return r
    w.natives[('q', 'yaga::terms::Term_manager::mk_term')] = mk_term


def axioms(ex):
    x, t = z3.Ints('x!ax t!ax'); W = z3.Function('changed argument', I, I)
    for F in (MI, NI): ex.fact(z3.ForAll([t], TM(F(t)) == TYPE(t), patterns=[F(t)]))
    ex.fact(z3.ForAll([x], TM(NEG(x)) == TM(x), patterns=[NEG(x)]))
    ex.fact(z3.ForAll([x], NEG(NEG(x)) == x, patterns=[NEG(x)]))
    ex.fact(z3.ForAll([x, t], Implies(And(x >= 0, x < CNT(t)), And(tok(arg(t, x)), arg(t, x) / 2 < t)), patterns=[arg(t, x)]))
    ex.fact(z3.ForAll([t], And(CNT(t) >= 0, CNT(t) < 2**30, (KIND(t) == VAR) == And(CNT(t) == 0, MAYMAP(t)), Implies(KIND(t) == APP, And(CNT(t) >= 1, tok(FUN(t))))), patterns=[KIND(t), CNT(t)]))
    # a term none of whose arguments changes its meaning keeps its own, unless it is a mapped variable
    ex.fact(z3.ForAll([t], Or(MAPPED(2 * t), And(W(t) >= 0, W(t) < CNT(t), M(arg(t, W(t))) != N(arg(t, W(t)))), M(2 * t) == N(2 * t)), patterns=[KIND(t)]))


MAYMAP = z3.Function('term is a variable', I, B)


class Map:
    """the substitution"""
    def __init__(s, o): s.has, s.to = o.leaf('has'), o.leaf('{}', 'x')
    def wf(s):
        return FA(lambda x: (And(z3.Select(s.has, x) == MAPPED(x), Implies(MAPPED(x), And(x % 2 == 0, tok(x), KIND(x / 2) == VAR, tok(z3.Select(s.to, x)), N(x) == M(z3.Select(s.to, x))))), [z3.Select(s.has, x)]))
    def wf2(s): return FA(lambda x: (Implies(MAPPED(x), z3.Select(s.has, x)), [MAPPED(x)]))


class Sub(Contract):
    def map(s, c): return Map(c.this.fld('subst_map').deref())
    def setup(s, c): axioms(c.ex)


class Rewrite_variable(Sub):
    q = 'yaga::terms::VarSubstituteConfig::rewrite'
    def setup(s, c): pass
    def requires(s, c): return [('a term', tok(x_of(c[0]))), ('substitution', s.map(c).wf()), ('all of it', s.map(c).wf2())]
    def ensures(s, c):
        x, r = x_of(c[0]), x_of(c.ret)
        return [('a mapped variable is replaced', Implies(MAPPED(x), r == z3.Select(s.map(c).to, x))), ('others stay', Implies(Not(MAPPED(x)), r == x))]


class Opposite(Contract):
    q = 'yaga::terms::opposite_term'
    def requires(s, c): return [('a term', tok(x_of(c[0])))]
    def ensures(s, c): return [('the negation', x_of(c.ret) == opp(x_of(c[0])))]


class Polarity(Contract):
    q = 'yaga::terms::Rewriter<yaga::terms::VarSubstituteConfig>::with_polarity_of'
    inline_only = True
    def requires(s, c): return [('terms', And(tok(x_of(c[0])), tok(x_of(c[1]))))]
    def ensures(s, c): return [('polarity applied', x_of(c.ret) == If(x_of(c[1]) % 2 == 0, x_of(c[0]), opp(x_of(c[0]))))]


class Rewrite(Sub):
    q = 'yaga::terms::Rewriter<yaga::terms::VarSubstituteConfig>::rewrite'
    weight = 5; unroll = 0
    def map(s, c): return Map(c.this.fld('cfg').deref().fld('subst_map').deref())
    def requires(s, c): return [('a term', tok(x_of(c[0]))), ('substitution', s.map(c).wf()), ('all of it', s.map(c).wf2())]
    def ensures(s, c): r = x_of(c.ret); return [('a term', tok(r)), ('the substituted meaning', M(r) == N(x_of(c[0])))]
    def templates(s, ex, lid, L):
        c = ex.topspec; out = []; F = [(vid, lv) for vid, lv in sorted(ex.frames[-1].vars.items()) if isinstance(lv, LV) and lv.ty is not None]
        o = lambda e, lv: O(e, e.st, lv)
        sub = [lv for v, lv in F if lv.ty.is_std('std::unordered_map')]; done = [lv for v, lv in F if lv.ty.is_std('std::unordered_set')]
        vecs = [lv for v, lv in F if lv.ty.is_std('std::vector')]; stacks = [lv for lv in vecs if lv.ty.targs[0].q != 'yaga::terms::term_t']; args = [lv for lv in vecs if lv.ty.targs[0].q == 'yaga::terms::term_t']
        bools = [(v, lv) for v, lv in F if lv.ty.s == 'bool']; handles = [(v, lv) for v, lv in F if lv.ty.q == 'yaga::terms::term_t']
        if not (sub and done and stacks): return []
        sub, done, st = sub[0], done[0], stacks[0]
        P = lambda e, x: z3.Select(o(e, done).leaf('has'), x)
        H = lambda e, x: z3.Select(o(e, sub).leaf('has'), x)
        T = lambda e, x: z3.Select(o(e, sub).leaf('{}', 'x'), x)
        tx = lambda e, k: z3.Select(o(e, st).leaf('[]', 'term', 'x'), k)
        nx = lambda e, k: z3.Select(o(e, st).leaf('[]', 'next_child'), k)
        n = lambda e: o(e, st).len
        root = pos(x_of(c[0]))
        out += [('stack', lambda e: n(e) >= 0), ('small', lambda e: n(e) <= root),
                ('root', lambda e: If(n(e) == 0, P(e, root), tx(e, IntV(0)) == root)),
                ('tokens', lambda e: FA(lambda k: (Implies(And(k >= 0, k < n(e)), And(tok(tx(e, k)), tx(e, k) % 2 == 0)), [tx(e, k)]))),
                ('ranked', lambda e: FA(lambda k: (Implies(And(k >= 0, k < n(e)), tx(e, k) <= root - k), [tx(e, k)]))),
                ('pending', lambda e: FA(lambda k: (Implies(And(k >= 0, k < n(e)), Not(P(e, tx(e, k)))), [tx(e, k)]))),
                ('next', lambda e: FA(lambda k: (Implies(And(k >= 0, k < n(e)), And(nx(e, k) >= 0, nx(e, k) <= CNT(tx(e, k) / 2))), [tx(e, k)]))),
                ('decreasing', lambda e: FA(lambda k, l: (Implies(And(k >= 0, k < l, l < n(e)), tx(e, k) > tx(e, l)), [(tx(e, k), tx(e, l))]), 2)),
                ('children', lambda e: FA(lambda k, j: (Implies(And(k >= 0, k < n(e), j >= 0, j < nx(e, k)), Or(P(e, pos(arg(tx(e, k) / 2, j))), And(k + 1 < n(e), j == nx(e, k) - 1, tx(e, k + 1) == pos(arg(tx(e, k) / 2, j))))), [arg(tx(e, k) / 2, j)]), 2)),
                ('substituted are processed', lambda e: FA(lambda x: (Implies(H(e, x), And(P(e, x), tok(T(e, x)), M(T(e, x)) == N(x))), [H(e, x)]))),
                ('others keep their meaning', lambda e: FA(lambda x: (Implies(And(P(e, x), Not(H(e, x))), M(x) == N(x)), [P(e, x)])))]
        for a in args:
            out.append(('no arguments', lambda e, a=a: o(e, a).len == 0))
            el = lambda e, j, a=a: z3.Select(o(e, a).leaf('[]', 'x'), j)
            cur = lambda e: tx(e, n(e) - 1) / 2
            out.append(('symbol', lambda e, el=el: Implies(KIND(cur(e)) == APP, el(e, IntV(0)) == FUN(cur(e)))))
            out.append(('all children', lambda e: And(n(e) >= 1, nx(e, n(e) - 1) >= CNT(cur(e)))))
            for cn, rd in L.counters:
                out.append(('arguments %s' % cn, lambda e, a=a, rd=rd: And(rd(e) >= 0, rd(e) <= CNT(cur(e)), o(e, a).len == off(cur(e)) + rd(e))))
                out.append(('meanings %s' % cn, lambda e, el=el, rd=rd: FA(lambda j: (Implies(And(j >= 0, j < rd(e)), And(tok(el(e, j + off(cur(e)))), M(el(e, j + off(cur(e)))) == N(arg(cur(e), j)))), [arg(cur(e), j)]))))
                for v, b in bools:
                    out.append(('unchanged %s %s' % (cn, v), lambda e, rd=rd, b=b: Implies(Not(o(e, b).z), FA(lambda j: (Implies(And(j >= 0, j < rd(e)), M(arg(cur(e), j)) == N(arg(cur(e), j))), [arg(cur(e), j)])))))
                    out.append(('changed %s %s' % (cn, v), lambda e, rd=rd, b=b: Implies(o(e, b).z, rd(e) >= 1)))
            for v, h in handles:
                out.append(('current %s' % v, lambda e, h=h: And(n(e) >= 1, o(e, h).fld('x').z == tx(e, n(e) - 1))))
        return out


# ---- let scopes ---------------------------------------------------------------------------------------------
BOUND = z3.Function('bindings of a name among the first', z3.ArraySort(I, I), I, I, I)
PR = 'yaga::parser::'


class Binder:
    def __init__(s, o): s.cur = o.fld('current_value').fld('x').z; v = o.fld('shadowed_values'); s.n = v.len; s.sh = v.leaf('[]', 'x')
    def at(s, j): return If(j == s.n, s.cur, z3.Select(s.sh, j))


class Add_value(Contract):
    q = PR + 'Let_binder::add_value'
    def requires(s, c): return [('small', And(Binder(c.this).n >= 0, Binder(c.this).n < 2**40))]
    def modifies(s, c): return [c.thislv]
    def ensures(s, c):
        a, b = Binder(c.this), Binder(c.this_)
        return [('innermost', And(b.n == a.n + 1, b.cur == x_of(c[0]))), ('outer values', FA(lambda j: (Implies(And(j >= 0, j <= a.n), z3.Select(b.sh, j) == a.at(j)), [z3.Select(b.sh, j)])))]


class Restore(Contract):
    q = PR + 'Let_binder::restore_shadowed_value'
    def requires(s, c): return [('shadowed', And(Binder(c.this).n >= 1, Binder(c.this).n < 2**40))]
    def modifies(s, c): return [c.thislv]
    def ensures(s, c):
        a, b = Binder(c.this), Binder(c.this_)
        return [('one less', b.n == a.n - 1), ('the outer value returns', b.cur == z3.Select(a.sh, a.n - 1)), ('outer values', FA(lambda j: (Implies(And(j >= 0, j < b.n), z3.Select(b.sh, j) == z3.Select(a.sh, j)), [z3.Select(b.sh, j)])))]


class Rec:
    """let bindings in some state: depth(name) values per name, val(name, j) the j-th from outside"""
    def __init__(s, o):
        m = o.fld('let_binders'); s.hs = m.leaf('has'); s.cv = m.leaf('{}', 'current_value', 'x'); s.sn = m.leaf('{}', 'shadowed_values', 'len'); s.sv = m.leaf('{}', 'shadowed_values', '[]', 'x')
        k = o.fld('known_binders'); s.n = k.len; s.kn = k.leaf('[]'); f = o.fld('frame_limits'); s.fn = f.len; s.fl = f.leaf('[]')
    def has(s, x): return z3.Select(s.hs, x)
    def depth(s, x): return If(s.has(x), z3.Select(s.sn, x) + 1, IntV(0))
    def val(s, x, j): return If(j == z3.Select(s.sn, x), z3.Select(s.cv, x), z3.Select(z3.Select(s.sv, x), j))
    def top(s, x): return z3.Select(s.cv, x)
    def wf(s): return [('sizes', And(s.n >= 0, s.n < 2**40, s.fn >= 0, s.fn < 2**40)), ('values', FA(lambda x: (And(z3.Select(s.sn, x) >= 0, z3.Select(s.sn, x) < 2**40), [z3.Select(s.sn, x)])))]
    def inv(s, kn): return FA(lambda x: (s.depth(x) == BOUND(kn, s.n, x), [BOUND(kn, s.n, x)], ))
    def inv2(s, kn): return FA(lambda x: (s.depth(x) == BOUND(kn, s.n, x), [s.has(x)]))
    def frames(s): return And(FA(lambda k: (Implies(And(k >= 0, k < s.fn), And(s.fl[k] >= 0, s.fl[k] <= s.n)), [s.fl[k]])))
    def outer(s, b, x, upto): return FA(lambda j: Implies(And(j >= 0, j < upto), b.val(x, j) == s.val(x, j)))


def count(ex, a):
    i, j, x = z3.Ints('i!c j!c x!c')
    ex.fact(z3.ForAll([i, j, x], Implies(And(i >= 0, j == i + 1), BOUND(a, j, x) == BOUND(a, i, x) + If(a[i] == x, IntV(1), IntV(0))), patterns=[z3.MultiPattern(a[i], BOUND(a, j, x))]))
    ex.fact(z3.ForAll([i, x], And(BOUND(a, i, x) >= 0, BOUND(a, i, x) <= If(i > 0, i, IntV(0))), patterns=[BOUND(a, i, x)]))


class Push_frame(Contract):
    q = PR + 'Let_records::push_frame'
    def requires(s, c): return Rec(c.this).wf()[:1]
    def modifies(s, c): return [c.this.fld('frame_limits').lv]
    def ensures(s, c):
        a, b = Rec(c.this), Rec(c.this_)
        return [('a frame starts here', And(b.fn == a.fn + 1, b.fl[a.fn] == a.n)), ('other frames', FA(lambda k: (Implies(And(k >= 0, k < a.fn), b.fl[k] == a.fl[k]), [b.fl[k]])))]


class Add_binding(Contract):
    q = PR + 'Let_records::add_binding'
    def requires(s, c): return Rec(c.this).wf()
    def modifies(s, c): return [c.this.fld('let_binders').lv, c.this.fld('known_binders').lv]
    def ensures(s, c):
        a, b = Rec(c.this), Rec(c.this_); x = c[0].z; d = a.depth(x)
        return [('the new value is innermost', And(b.has(x), b.depth(x) == d + 1, b.top(x) == x_of(c[1]))), ('outer values stay', a.outer(b, x, d)),
                ('other names', FA(lambda y: Implies(y != x, And(b.depth(y) == a.depth(y), b.has(y) == a.has(y), b.top(y) == a.top(y), z3.Select(b.sv, y) == z3.Select(a.sv, y))))),
                ('recorded', And(b.n == a.n + 1, b.kn[a.n] == x)), ('records stay', FA(lambda k: (Implies(And(k >= 0, k < a.n), b.kn[k] == a.kn[k]), [b.kn[k]])))]


class Get(Contract):
    q = PR + 'Let_records::get'
    def requires(s, c): return Rec(c.this).wf()
    def ensures(s, c):
        a = Rec(c.this); x = c[0].z; r = c.ret
        return [('bound names only', r.leaf('has') == a.has(x)), ('the innermost value', Implies(a.has(x), r.leaf('val', 'x') == a.top(x)))]


class Pop_frame(Contract):
    """the bindings of the innermost frame end: per name as many values remain as were bound before the frame, and these are the old ones"""
    q = PR + 'Let_records::pop_frame'
    def setup(s, c): count(c.ex, Rec(O(c.ex, c.ex.st, c.thislv)).kn)
    def requires(s, c):
        a = Rec(c.this)
        return a.wf() + [('one value per binding', a.inv(a.kn)), ('of every name', a.inv2(a.kn)), ('a frame', And(a.fn >= 1, a.fl[a.fn - 1] >= 0, a.fl[a.fn - 1] <= a.n))]
    def modifies(s, c): return [c.thislv]
    def ensures(s, c):
        a, b = Rec(c.this), Rec(c.this_); lim = a.fl[a.fn - 1]
        return [('frame removed', And(b.fn == a.fn - 1, b.n == lim)), ('bindings of the frame end', FA(lambda x: (b.depth(x) == BOUND(a.kn, lim, x), [BOUND(a.kn, lim, x)]))), ('outer meanings', FA(lambda x: Implies(b.has(x), a.outer(b, x, b.depth(x))))),
                ('records stay', FA(lambda k: (Implies(And(k >= 0, k < lim), b.kn[k] == a.kn[k]), [b.kn[k]]))), ('frames stay', FA(lambda k: (Implies(And(k >= 0, k < b.fn), b.fl[k] == a.fl[k]), [b.fl[k]])))]
    def templates(s, ex, lid, L):
        c = ex.topspec; a = Rec(c.this); R = lambda e: Rec(O(e, e.st, c.thislv)); lim = a.fl[a.fn - 1]
        return [('records', lambda e: And(R(e).n >= lim, R(e).n <= a.n)), ('frames', lambda e: R(e).fn == a.fn - 1), ('sizes', lambda e: R(e).wf()[1][1]),
                ('records stay', lambda e: FA(lambda k: (Implies(And(k >= 0, k < R(e).n), R(e).kn[k] == a.kn[k]), [R(e).kn[k]]))),
                ('frames stay', lambda e: FA(lambda k: (Implies(And(k >= 0, k < R(e).fn), R(e).fl[k] == a.fl[k]), [R(e).fl[k]]))),
                ('inv', lambda e: R(e).inv(a.kn)), ('inv2', lambda e: R(e).inv2(a.kn)), ('depth', lambda e: FA(lambda x: (R(e).depth(x) <= a.depth(x), [R(e).has(x)]))),
                ('outer', lambda e: FA(lambda x: Implies(R(e).has(x), a.outer(R(e), x, R(e).depth(x))))),
                ('value', lambda e: FA(lambda x, j: (Implies(And(j >= 0, j < R(e).depth(x)), R(e).val(x, j) == a.val(x, j)), [z3.Select(z3.Select(R(e).sv, x), j)]), 2)),
                ('top', lambda e: FA(lambda x: (Implies(R(e).has(x), R(e).top(x) == a.val(x, z3.Select(R(e).sn, x))), [R(e).has(x)])))]


CONTRACTS = [Rewrite_variable(), Polarity(), Rewrite(), Opposite(), Add_value(), Restore(), Push_frame(), Add_binding(), Get(), Pop_frame()]
