"""Clause simplification (src/Subsumption.cpp): only subsumed clauses are removed, only redundant literals are dropped."""
from spec import *
import trail
from trail import T, MB

A1 = z3.ArraySort(I, I); A2 = z3.ArraySort(I, A1)


def clause_ty(ex):
    for t in ex.prog.types:
        if t.k == 'rec' and t.is_std('std::vector') and t.targs and t.targs[0].s == 'yaga::Literal' and t.s != 'bool': return t
    raise Unsupported('clause type')


class CL:
    """a clause in some state"""
    def __init__(s, o):
        s.o = o; s.n = o.len; s.d = o.leaf('[]', 'value')
    def __getitem__(s, i): return z3.Select(s.d, i)


class HEAP:
    """all clauses on the heap, by address"""
    def __init__(s, ex, st):
        ty = clause_ty(ex); s.root = 'heap:' + ex.w.topbase(ty).s
        lv = ex.heap_lv(ty, z3.Int('adr'))
        m = st.mem.get(s.root, {})
        s.lens = m.get(('[]', 'len'), z3.Const(s.root + '.[].len', A1)); s.data = m.get(('[]', '[]', 'value'), z3.Const(s.root + '.[].[].value', A2))
    def n(s, a): return z3.Select(s.lens, a)
    def at(s, a, i): return z3.Select(z3.Select(s.data, a), i)


class S(Contract):
    inline_only = False
    def nv(s, o): return o.fld('lit_bitset').fld('values').len
    def bit(s, o, i): return z3.Select(o.fld('lit_bitset').fld('values').leaf('[]'), i)
    def valid(s, v, n): return And(lit_ok(v), lit_idx(v) < n)
    def heap(s, c, post=False): return HEAP(c.ex, c.this_.st if post else c.this.st)
    def lits_ok(s, h, n):
        return FA(lambda a, j: Implies(And(LIVE(a), j >= 0, j < h.n(a)), s.valid(h.at(a, j), n)), 2)
    def sizes_ok(s, h): return FA(lambda a: And(h.n(a) >= 0, h.n(a) < MAXLEN))
    def counters(s, ex, L, pat=None): return L.counters


LIVE = z3.Function('clause_in_use', I, B)          # addresses of clauses that may be pointed to
POSN = z3.Function('position_of_clause', I, I)
SUB = z3.Function('clause_subset', I, I, B)
MAXLEN = 2**58


def in_clause(v, cl, n=None): return EX(lambda k: And(k >= 0, k < (cl.n if n is None else n), cl[k] == v))


class Selfsubsumes(S):
    q = 'yaga::Subsumption::selfsubsumes'
    def requires(s, c):
        a, b, l = CL(c[0]), CL(c[1]), c[2].value.z; n = s.nv(c.this)
        return [('literals', And(n >= 0, n <= 2 * MAXVAR, a.n >= 0, b.n >= 0, s.valid(l, n), s.valid(-l, n), range_all(0, a.n, lambda j: s.valid(a[j], n)), range_all(0, b.n, lambda j: s.valid(b[j], n)))),
                ('resolvable', And(in_clause(l, a), in_clause(-l, b)))]
    def modifies(s, c): return [c.this.fld('lit_bitset').lv]
    def ensures(s, c):
        a, b, l = CL(c[0]), CL(c[1]), c[2].value.z
        return [('bitset keeps its size', s.nv(c.this_) == s.nv(c.this)), ('every literal of the first is the pivot or occurs in the second', Implies(c.ret.z, range_all(0, a.n, lambda j: Or(a[j] == l, in_clause(a[j], b)))))]
    def parts(s, ex, c): return CL(c[0]), CL(c[1]), c[2].value.z
    def templates(s, ex, lid, L):
        c = ex.topspec; a, b, l = s.parts(ex, c); out = [('size', lambda e: s.nv(O0(e, c)) == s.nv(c.this))]
        for cn, rd in L.counters:
            out.append(('bits of second < ' + cn, lambda e, rd=rd: FA(lambda i: Implies(And(i >= 0, i < s.nv(c.this), s.bit(O0(e, c), i)), Or(FALSE if l is None else i == lit_idx(l), EX(lambda k: And(k >= 0, k < rd(e), lit_idx(b[k]) == i)))))))
            out.append(('checked < ' + cn, lambda e, rd=rd: range_all(0, rd(e), lambda j: s.bit(O0(e, c), lit_idx(a[j])))))
        return out


def O0(e, c): return O(e, e.st, c.thislv)


class HC(CL):
    def __init__(s, h, a): s.n = h.n(a); s.d = z3.Select(h.data, a)


class Subsumes(Selfsubsumes):
    q = 'yaga::Subsumption::subsumes'
    def parts(s, ex, c):
        h = s.heap(c); return HC(h, c[0].fld('clause_ptr').z), HC(h, c[1].fld('clause_ptr').z), None
    def requires(s, c):
        a, b, _ = s.parts(c.ex, c); n = s.nv(c.this)
        return [('literals', And(n >= 0, n <= 2 * MAXVAR, a.n >= 0, b.n >= 0, range_all(0, a.n, lambda j: s.valid(a[j], n)), range_all(0, b.n, lambda j: s.valid(b[j], n)))), ('clauses', And(c[0].fld('clause_ptr').z > 0, c[1].fld('clause_ptr').z > 0))]
    def ensures(s, c):
        a, b, _ = s.parts(c.ex, c)
        return [('bitset keeps its size', s.nv(c.this_) == s.nv(c.this)), ('smaller', Implies(c.ret.z, a.n < b.n)), ('every literal of the first occurs in the second', Implies(c.ret.z, range_all(0, a.n, lambda j: in_clause(a[j], b))))]


INOLD = z3.Function('in_clause_before', I, B)
RED = z3.Function('redundant', I, B)


class Minimize(S):
    q = 'yaga::Subsumption::minimize'
    weight = 8
    def model(s, c):
        t = T(c[0]); st = c[0].st
        m = st.mem.get(MB, {}); md = z3.Select(t.mod, 0)
        vals = m.get(('[]', 'yaga::Model<bool>::values', '[]'), z3.Const(MB + '.[].yaga::Model<bool>::values.[]', z3.ArraySort(I, z3.ArraySort(I, B))))
        vn = m.get(('[]', 'yaga::Model<bool>::values', 'len'), z3.Const(MB + '.[].yaga::Model<bool>::values.len', A1))
        return t, (lambda o: z3.Select(z3.Select(t.df, md), o)), (lambda o: z3.Select(z3.Select(vals, md), o)), z3.Select(vn, md)
    def true(s, c, v):
        t, df, val, _ = s.model(c); o = lit_ord(v)
        return And(df(o), val(o) == (v > 0))
    def requires(s, c):
        t, df, val, vn = s.model(c); h = s.heap(c); n = s.nv(c.this); cl = CL(c[1])
        return t.shape() + [('literals', And(n >= 0, n <= 2 * MAXVAR, n == 2 * t.num(IntV(0)), t.nt >= 1, vn == t.num(IntV(0)), t.num(IntV(0)) > 0)),
            ('clause', And(cl.n >= 0, cl.n < MAXLEN, range_all(0, cl.n, lambda j: s.valid(cl[j], n)))),
            ('reasons are clauses with the literal they imply', FA(lambda v: Implies(And(s.valid(v, n), s.true(c, v), t.reason(IntV(0), lit_ord(v)) != 0), And(LIVE(t.reason(IntV(0), lit_ord(v))), t.reason(IntV(0), lit_ord(v)) > 0, in_clause(v, HC(h, t.reason(IntV(0), lit_ord(v)))))))),
            ('clauses', And(s.lits_ok(h, n), s.sizes_ok(h)))]
    def lemmas(s, c):
        t, df, val, vn = s.model(c); h = s.heap(c); n = s.nv(c.this); cl = CL(c[1])
        WI = z3.Function('where_before', I, I)
        c.ex.fact(range_all(0, cl.n, lambda j: INOLD(cl[j])))
        c.ex.fact(FA(lambda v: Implies(INOLD(v), And(WI(v) >= 0, WI(v) < cl.n, cl[WI(v)] == v))))
        def red(v):
            r = t.reason(IntV(0), lit_ord(v))
            return And(s.true(c, -v), r != 0, FA(lambda j: Implies(And(j >= 0, j < h.n(r)), Or(h.at(r, j) == -v, INOLD(h.at(r, j))))))
        c.ex.fact(FA(lambda v: Implies(s.valid(v, n), RED(v) == red(v))))
        return []
    def modifies(s, c): return [c[1].lv, c.this.fld('lit_bitset').lv]
    def gh(s, e):
        vs, b, en = e.log['filter'][-1]
        return [e.st.mem[vs[n].root][('[]',)] for n in ('map', 'inv')] + [e.st.mem[vs[n].root][()].idx for n in ('it', 'out')]
    def kept(s, c, m, inv, it, out, old, new):
        return [('each literal is kept or redundant', range_all(0, it, lambda j: Or(And(m[j] == -1, RED(old[j])), And(m[j] >= 0, m[j] < out, new[m[j]] == old[j])))),
                ('kept literals come from the clause, in order', And(range_all(0, out, lambda k: And(inv[k] >= 0, inv[k] < it, new[k] == old[inv[k]], m[inv[k]] == k)), FA(lambda k, l: Implies(And(k >= 0, k < l, l < out), inv[k] < inv[l]), 2)))]
    def ensures(s, c):
        old, new = CL(c[1]), CL(c.post(1))
        if not c.ex.log.get('filter'): return [('the clause is filtered', FALSE)]
        m, inv, it, out = s.gh(c.ex)
        return [('bitset keeps its size', s.nv(c.this_) == s.nv(c.this)), ('as many literals as were kept', new.n == out), ('the whole clause is examined', it == old.n)] + s.kept(c, m, inv, it, out, old, new)
    def templates(s, ex, lid, L):
        c = ex.topspec; old = CL(c[1]); out = []
        n = s.nv(c.this)
        cur = lambda e: CL(c.at_lv(c[1].lv, e.st))
        out.append(('size', lambda e: And(s.nv(O0(e, c)) == s.nv(c.this), cur(e).n == old.n)))
        out.append(('rest', lambda e: FA(lambda j: Implies(And(j >= s.gh(e)[2], j < old.n), cur(e)[j] == old[j]))))
        out.append(('from clause', lambda e: range_all(0, old.n, lambda j: INOLD(cur(e)[j]))))
        out.append(('bounds', lambda e: And(s.gh(e)[3] >= 0, s.gh(e)[3] <= s.gh(e)[2], s.gh(e)[2] <= old.n)))
        for k in (0, 1): out.append(('kept%d' % k, lambda e, k=k: s.kept(c, *s.gh(e), old, cur(e))[k][1]))
        return out


def lemma_minimize():
    """an assignment that satisfies the clause and every reason satisfies the minimized clause:
    take the true removed literal whose complement is earliest on the trail; its reason has another true literal, earlier still, which is in the clause"""
    Lit = z3.DeclareSort('Lit'); neg = z3.Function('neg', Lit, Lit); tr = z3.Function('tr', Lit, B); old = z3.Function('old', Lit, B); kept = z3.Function('kept', Lit, B)
    rank = z3.Function('rank', Lit, I); inr = z3.Function('inr', Lit, Lit, B)      # inr(q, v): q in the reason of the complement of v
    v, q = z3.Consts('v q', Lit); w = z3.Const('w', Lit); g = z3.Function('g', Lit, Lit)
    s = z3.Solver()
    s.add(z3.ForAll([v], tr(neg(v)) != tr(v)))
    red = lambda v: z3.ForAll([q], z3.Implies(inr(q, v), Or(q == neg(v), old(q))))
    s.add(z3.ForAll([v], z3.Implies(And(old(v), Not(kept(v))), And(red(v), inr(g(v), v), tr(g(v)), z3.ForAll([q], z3.Implies(And(inr(q, v), q != neg(v)), rank(q) < rank(v)))))))
    s.add(z3.ForAll([v], Not(And(kept(v), tr(v)))))
    s.add(old(w), tr(w), z3.ForAll([v], z3.Implies(And(old(v), tr(v)), rank(v) >= rank(w))))   # earliest true literal of the clause
    return s.check() == z3.unsat


class Index(S):
    q = 'yaga::Subsumption::index'
    weight = 4
    def occ(s, o):
        m = o.fld('occur').fld('values')
        return m.len, m.leaf('[]', 'len'), m.leaf('[]', '[]', 'clause_ptr')
    def entries(s, o):
        n, ls, ps = s.occ(o)
        return And(FA(lambda l: Implies(And(l >= 0, l < n), And(z3.Select(ls, l) >= 0, z3.Select(ls, l) < MAXLEN))), FA(lambda l, k: Implies(And(l >= 0, l < n, k >= 0, k < z3.Select(ls, l)), And(LIVE(z3.Select(z3.Select(ps, l), k)), z3.Select(z3.Select(ps, l), k) > 0)), 2))
    def setup(s, c):
        ty = deque_ty(c.ex); root = c.ex.new_root('clauses', ty)
        for i, nm in ((0, 'first'), (1, 'last')):
            c.args[i] = Val(c.ex.prog.types[c.fn['params'][i]['t']].nonref(), {(): Iter(root, z3.Int('index_' + nm))})
    def requires(s, c):
        o, b, e = s.range(c)
        n = s.occ(c.this)[0]; h = s.heap(c)
        return [('range', And(b >= 0, b <= e, e <= o.len, o.len < MAXLEN)), ('literals', And(n >= 0, s.nv(c.this) == n, n <= 2 * MAXVAR, s.lits_ok(h, n), s.sizes_ok(h))), ('capacity', e < 2**40), ('clauses in use', range_all(b, e, lambda d: And(LIVE(o.leaf('[]')[d]), o.leaf('[]')[d] > 0)))]
    def range(s, c):
        b, e = [a.lv[()] if isinstance(a, Val) else c.prest.mem[a.root][a.path] for a in c.args[:2]]
        return O(c.ex, c.this.st, b.lv), b.idx, e.idx
    def modifies(s, c): return [c.this.fld('occur').lv]
    def ensures(s, c): return [('number of lists', s.occ(c.this_)[0] == s.occ(c.this)[0]), ('lists hold clauses in use', s.entries(c.this_))]
    def templates(s, ex, lid, L):
        c = ex.topspec; out = []
        out.append(('n', lambda e: s.occ(O0(e, c))[0] == s.occ(c.this)[0]))
        out.append(('entries', lambda e: s.entries(O0(e, c))))
        o, b, en = s.range(c)
        for cn, rd in L.counters:
            out.append(('in range ' + cn, lambda e, rd=rd: And(rd(e) >= b, rd(e) <= en)))
            def f(e, rd=rd):
                n, ls, ps = s.occ(O0(e, c)); return range_all(0, rd(e), lambda l: z3.Select(ls, l) == 0)
            out.append(('cleared < ' + cn, f))
        return out


def deque_ty(ex):
    for t in ex.prog.types:
        if t.k == 'rec' and t.is_std('std::deque') and t.targs and t.targs[0].is_std('std::vector') and t.targs[0].targs[0].s == 'yaga::Literal': return t
    raise Unsupported('deque type')


class Proxy(S):
    q = 'yaga::Subsumption::make_proxy'
    def requires(s, c):
        h = s.heap(c); n = s.nv(c.this)
        return [('clause', And(c[0].z > 0, LIVE(c[0].z), n >= 0, n <= 2 * MAXVAR, s.lits_ok(h, n), s.sizes_ok(h)))]
    def ensures(s, c): return [('refers to the clause', c.ret.fld('clause_ptr').z == c[0].z)]


class Remove_one(Index):
    q = 'yaga::Subsumption::remove_subsumed'
    weight = 6
    def match(s, p, f): return 'Clause_ptr' in p.types[f['params'][0]['t']].s
    def setup(s, c): pass
    def ptr(s, c): return c[0].fld('clause_ptr').z
    def requires(s, c):
        n = s.nv(c.this); h = s.heap(c); p = s.ptr(c)
        return [('literals', And(n >= 0, n <= 2 * MAXVAR, s.occ(c.this)[0] == n, s.lits_ok(h, n), s.sizes_ok(h))), ('lists', s.entries(c.this)), ('clause', And(p > 0, LIVE(p)))]
    def modifies(s, c): return [c.this.fld('lit_bitset').lv, (s.heap(c).root, ('[]', 'len'), A1), (s.heap(c).root, ('[]', '[]', 'value'), A2)]
    def change(s, a, b, p):
        """clause x of heap a in heap b"""
        def f(x):
            X, P = HC(a, x), HC(a, p)
            return And(z3.Select(b.data, x) == z3.Select(a.data, x),
                       Or(b.n(x) == a.n(x), And(b.n(x) == 0, LIVE(x), x != p, P.n > 0, P.n < X.n, range_all(0, P.n, lambda j: in_clause(P[j], X)))))
        return FA(f)
    def ensures(s, c):
        a, b, p = s.heap(c), s.heap(c, True), s.ptr(c)
        return [('bitset keeps its size', s.nv(c.this_) == s.nv(c.this)), ('the clause itself stays', b.n(p) == a.n(p)), ('a clause is kept, or is emptied and has every literal of the smaller clause given', s.change(a, b, p))]
    def templates(s, ex, lid, L):
        c = ex.topspec; a, p = s.heap(c), s.ptr(c); n = s.nv(c.this); out = []
        out.append(('size', lambda e: s.nv(O0(e, c)) == n))
        out.append(('own', lambda e: HEAP(e, e.st).n(p) == a.n(p)))
        for cn, rd in L.counters: out.append(('position ' + cn, lambda e, rd=rd: rd(e) <= a.n(p)))
        out.append(('change', lambda e: s.change(a, HEAP(e, e.st), p)))
        fr = ex.frames[-1]
        for vid, lv in sorted(fr.vars.items()):
            if isinstance(lv, LV) and lv.ty is not None and lv.ty.nonref().s == 'yaga::Literal':
                out.append(('literal %d' % vid, lambda e, lv=lv: s.valid(O(e, e.st, lv).value.z, n)))
        return out


X0 = z3.Int('kept_clause'); INC = z3.Function('in_set', I, B); BADP = z3.Function('outside', I, I)


class Remove_all(Index):
    q = 'yaga::Subsumption::remove_subsumed'
    weight = 8
    def match(s, p, f): return 'Database' in p.types[f['params'][0]['t']].s
    def setup(s, c): pass
    def learned(s, o): return o.fld('learned_clauses')
    def requires(s, c):
        n = s.nv(c.this); h = s.heap(c); l = s.learned(c[0]); ad = l.leaf('[]')
        return [('literals', And(n >= 0, n <= 2 * MAXVAR, s.occ(c.this)[0] == n, s.lits_ok(h, n), s.sizes_ok(h))), ('clauses', And(l.len >= 0, l.len < 2**40, range_all(0, l.len, lambda d: And(LIVE(ad[d]), ad[d] > 0, POSN(ad[d]) == d)))),
                ('marker', And(c.this.fld('old_size').z >= 0, c.this.fld('old_size').z <= l.len))]
    def lemmas(s, c):
        """X0: a smallest clause among the learned clauses contained in an arbitrary set of literals"""
        h = s.heap(c); l = s.learned(c[0]); ad = l.leaf('[]')
        c.ex.fact(And(POSN(X0) >= 0, POSN(X0) < l.len, ad[POSN(X0)] == X0, h.n(X0) > 0, range_all(0, h.n(X0), lambda j: INC(h.at(X0, j)))))
        c.ex.fact(FA(lambda y: Implies(And(LIVE(y), h.n(y) > 0, h.n(y) < h.n(X0)), And(BADP(y) >= 0, BADP(y) < h.n(y), Not(INC(h.at(y, BADP(y))))))))
        return []
    def modifies(s, c): return [c.this.fld('occur').lv, c.this.fld('lit_bitset').lv, c.this.fld('old_size').lv, s.learned(c[0]).lv, (s.heap(c).root, ('[]', 'len'), A1), (s.heap(c).root, ('[]', '[]', 'value'), A2)]
    def state(s, c, a, b):
        return And(b.n(X0) == a.n(X0), b.data == a.data, FA(lambda x: Or(b.n(x) == a.n(x), b.n(x) == 0)))
    def ensures(s, c):
        a, b = s.heap(c), s.heap(c, True); l, m = s.learned(c[0]), s.learned(c.post(0)); ad, bd = l.leaf('[]'), m.leaf('[]')
        P, Q = c.ex.log['perm'][-1][1:] if c.ex.log.get('perm') else (z3.Function('none', I, I),) * 2
        return [('a smallest clause within any set of literals is kept', And(Q(POSN(X0)) >= 0, Q(POSN(X0)) < m.len, bd[Q(POSN(X0))] == X0, b.n(X0) == a.n(X0))),
                ('the clauses left are unchanged clauses, in order', And(b.data == a.data, range_all(0, m.len, lambda d: And(P(d) >= 0, P(d) < l.len, bd[d] == ad[P(d)], b.n(bd[d]) == a.n(bd[d]))), FA(lambda d, k: Implies(And(d >= 0, d < k, k < m.len), P(d) < P(k)), 2))),
                ('all that are left count as old', c.this_.fld('old_size').z == m.len)]
    def templates(s, ex, lid, L):
        c = ex.topspec; a = s.heap(c); l = s.learned(c[0]); n = s.nv(c.this); out = []
        out.append(('state', lambda e: s.state(c, a, HEAP(e, e.st))))
        out.append(('bits', lambda e: And(s.nv(O0(e, c)) == n, s.occ(O0(e, c))[0] == n)))
        out.append(('entries', lambda e: s.entries(O0(e, c))))
        return out


class On_restart(Remove_all):
    q = 'yaga::Subsumption::on_restart'
    def match(s, p, f): return True


class On_resize(S):
    q = 'yaga::Subsumption::on_variable_resize'
    def requires(s, c): return [('variables', And(c[1].z >= 0, c[1].z <= MAXVAR))]
    def modifies(s, c): return [c.this.fld(n).lv for n in ('occur', 'lit_bitset')]
    def ensures(s, c):
        boolean = c[0].z == 0; a, b = c.this, c.this_
        return [('tables have room for both literals of each variable', Implies(boolean, And(s.nv(b) == 2 * c[1].z, b.fld('occur').fld('values').len == 2 * c[1].z))), ('other types change nothing', Implies(Not(boolean), And(s.nv(b) == s.nv(a), b.fld('occur').fld('values').len == a.fld('occur').fld('values').len)))]


def world(w):
    for t in w.prog.types:
        if t.k == 'rec' and t.is_std('std::deque') and t.targs and t.targs[0].is_std('std::vector') and t.targs[0].targs[0].s == 'yaga::Literal': w.boxed.add(t.s)


LEMMAS = [('minimized clause follows by resolution', lemma_minimize)]
CONTRACTS = [k() for k in (Selfsubsumes, Subsumes, Minimize, Index, Proxy, Remove_one, Remove_all, On_restart, On_resize)]
