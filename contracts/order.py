"""Variable ordering strategies: an unassigned variable is picked whenever there is one."""
from spec import *
from trail import T, MB, POS
import pqueue
from pqueue import Q

Z = IntV(0)
RANK = z3.Function('models below', I, I)     # how many types below have a model

pqueue.PATTERNS = True
pqueue.CAPACITY = False      # assumed here: the queue holds fewer than 2^31 variables
for _k in pqueue.CONTRACTS:
    if _k.name in ('Push', 'Pop', 'Top', 'Empty', 'Contains'): _k.inline_only = False     # callers see the contract proved as C14


def locs(ex, pred):
    return [('v%d' % vid, lv) for vid, lv in sorted(ex.frames[-1].vars.items()) if isinstance(lv, LV) and lv.ty is not None and pred(lv.ty)]


class OC(Contract):
    inline_only = True
    def picked(s, c): r = c.ret; return r.leaf('has'), r.leaf('val', 'var_type'), r.leaf('val', 'number')


class Evsids_pick(OC):
    """the boolean variable with the greatest score among the undefined ones"""
    q = 'yaga::Evsids::pick'
    def requires(s, c):
        t = T(c[1]); v = c.this.fld('vsids')
        return t.shape() + [('boolean variables are scored', And(t.nt > 0, z3.Select(t.mod, Z) > 0, v.len == t.num(Z))),
                            ('scores are not negative', FA(lambda i: Implies(And(i >= 0, i < v.len), v[i].z >= 0)))]
    def ensures(s, c):
        t = T(c[1]); v = c.this.fld('vsids')
        has, ty, o = s.picked(c)
        return [('a picked variable is boolean, exists and is undefined', Implies(has, And(ty == 0, o >= 0, o < v.len, Not(t.defined(Z, o))))),
                ('it has the greatest score', Implies(has, FA(lambda i: Implies(And(i >= 0, i < v.len, Not(t.defined(Z, i))), v[i].z <= v[o].z)))),
                ('none only if all boolean variables are defined', Implies(Not(has), FA(lambda i: Implies(And(i >= 0, i < v.len), t.defined(Z, i)))))]
    def templates(s, ex, lid, L):
        c = ex.topspec; t = T(c[1]); v = c.this.fld('vsids')
        out = []
        for bn, bv in locs(ex, lambda t: t.k == 'int'):
            out.append(('range ' + bn, lambda e, bv=bv: And(e.rd_raw(e.st, bv, ()) >= -1, e.rd_raw(e.st, bv, ()) < v.len)))
            out.append(('und ' + bn, lambda e, bv=bv: Or(e.rd_raw(e.st, bv, ()) < 0, Not(t.defined(Z, e.rd_raw(e.st, bv, ()))))))
            for sn, sv in locs(ex, lambda t: t.k == 'float'):
                out.append(('score %s %s' % (bn, sn), lambda e, bv=bv, sv=sv: e.rd_raw(e.st, sv, ()) == If(e.rd_raw(e.st, bv, ()) < 0, z3.RealVal(-1), v[e.rd_raw(e.st, bv, ())].z)))
        for cn, rd in L.counters:
            for sn, sv in locs(ex, lambda t: t.k == 'float'):
                out.append(('best %s<%s' % (sn, cn), lambda e, rd=rd, sv=sv: FA(lambda i: Implies(And(i >= 0, i < rd(e), Not(t.defined(Z, i))), v[i].z <= e.rd_raw(e.st, sv, ())))))
        return out


class Evsids_resize(OC):
    q = 'yaga::Evsids::on_variable_resize'
    def requires(s, c): return [('arguments', And(c[1].z >= 0, c[1].z <= MAXVAR, c[0].z >= 0, c[0].z < 255))]
    def modifies(s, c): return [c.this.fld('vsids').lv]
    def ensures(s, c):
        a, b = c.this.fld('vsids'), c.this_.fld('vsids'); t, n = c[0].z, c[1].z
        return [('every boolean variable is scored', b.len == If(t == 0, n, a.len)), ('known scores are kept', FA(lambda i: Implies(And(i >= 0, i < a.len, i < b.len), b[i].z == a[i].z))),
                ('new scores are zero', FA(lambda i: Implies(And(i >= a.len, i < b.len), b[i].z == 0)))]


class Evsids_before(OC):
    q = 'yaga::Evsids::is_before'
    def requires(s, c):
        v = c.this.fld('vsids')
        return [('boolean variables', And(*[And(c[i].var_type.z == 0, c[i].number.z >= 0, c[i].number.z < v.len) for i in (0, 1)]))]
    def ensures(s, c):
        v = c.this.fld('vsids')
        return [('ordered by score', c.ret.z == (v[c[0].number.z].z > v[c[1].number.z].z))]


class First_before(OC):
    q = 'yaga::First_unassigned::is_before'
    def requires(s, c): return [('variables', And(*[And(c[i].var_type.z >= 0, c[i].var_type.z < 255, c[i].number.z >= 0, c[i].number.z < MAXVAR) for i in (0, 1)]))]
    def ensures(s, c):
        k = lambda i: (c[i].var_type.z, c[i].number.z)
        return [('ordered by type, then ordinal', c.ret.z == Or(k(0)[0] < k(1)[0], And(k(0)[0] == k(1)[0], k(0)[1] < k(1)[1])))]


class First_pick(OC):
    """the first undefined variable of a type it is responsible for"""
    q = 'yaga::First_unassigned::pick'
    def requires(s, c): return T(c[1]).shape()
    def mine(s, c, t): return Or(Not(c.this.fld('var_type').leaf('has')), c.this.fld('var_type').leaf('val') == t)
    def ensures(s, c):
        t = T(c[1]); has, ty, o = s.picked(c)
        und = lambda a, b: And(t.vrange(a, b), s.mine(c, a), z3.Select(t.mod, a) > 0, Not(t.defined(a, b)))
        return [('a picked variable exists, is undefined and of its type', Implies(has, und(ty, o))),
                ('none only if all its variables are defined', Implies(Not(has), FA(lambda a, b: Not(und(a, b)), 2)))]
    def templates(s, ex, lid, L):
        c = ex.topspec; t = T(c[1])
        out = []
        for vn, lv in locs(ex, lambda t: t.is_std('std::vector') and t.targs[0].is_std('std::pair')):
            m = lambda e, lv=lv: O(e, e.st, lv)
            ty = lambda e, i, lv=lv: z3.Select(m(e, lv).leaf('[]', 'first'), i)
            mo = lambda e, i, lv=lv: z3.Select(m(e, lv).leaf('[]', 'second'), i)
            out.append(('entries ' + vn, lambda e, m=m, ty=ty, mo=mo: FA(lambda i: Implies(And(i >= 0, i < m(e).len), And(ty(e, i) >= 0, ty(e, i) < t.nt, mo(e, i) == z3.Select(t.mod, ty(e, i)), mo(e, i) > 0)))))
            for cn, rd in L.counters:
                out.append(('rank %s<%s' % (vn, cn), lambda e, rd=rd, m=m: m(e).len == RANK(rd(e))))
                out.append(('all %s<%s' % (vn, cn), lambda e, rd=rd, m=m, ty=ty: FA(lambda x: Implies(And(x >= 0, x < rd(e), z3.Select(t.mod, x) > 0), And(RANK(x) >= 0, RANK(x) < m(e).len, ty(e, RANK(x)) == x)))))
                out.append(('done %s<%s' % (vn, cn), lambda e, rd=rd, m=m, ty=ty: FA(lambda i, o: Implies(And(i >= 0, i < rd(e), s.mine(c, ty(e, i)), o >= 0, o < t.num(ty(e, i))), t.defined(ty(e, i), o)), 2)))
            terms = [(n, rd) for n, rd, k, loc in ex.vf.scope_terms(ex) if k in ('iter', 'int')]
            for cn, rd in L.counters:
                for dn, rd2 in terms:
                    if cn != dn: out.append(('row %s %s<%s' % (vn, dn, cn), lambda e, rd=rd, rd2=rd2, ty=ty: FA(lambda o: Implies(And(o >= 0, o < rd(e)), t.defined(ty(e, rd2(e)), o)))))
        return out
    def lemmas(s, c):
        t = T(c[1])
        return [RANK(Z) == 0, FA(lambda x: (Implies(x >= 0, RANK(x + 1) == RANK(x) + If(z3.Select(t.mod, x) > 0, IntV(1), Z)), [z3.Select(t.mod, x)]))]


# ---- Generalized_vsids ------------------------------------------------------
class GC(OC):
    def q_(s, c): return Q(c.this.fld('variables'))
    def wf(s, c, trail=1):
        a = s.q_(c); t = T(c[trail])
        return t.shape() + [t.entries(), t.listed(lambda x, y: POS(x, y))] + a.table() + [('heap', a.heap())]
    def after(s, c):
        b = Q(c.this_.fld('variables')); return b.table() + [('heap', b.heap())]
    def known(s, t, q):
        """every unassigned variable waits in the queue"""
        return FA(lambda a, b: Implies(And(t.vrange(a, b), t.level(a, b) < 0), q.has(a, b)), 2)
    def modifies(s, c): return [c.this.fld('variables').fld('pq').lv, c.this.fld('variables').fld('position').lv]
    def cur(s, e): return Q(O(e, e.st, e.topspec.thislv).fld('variables'))
    def held_exist(s, t, q):
        return ('queued variables exist', FA(lambda a, b: Implies(q.has(a, b), t.vrange(a, b)), 2))


class Pick_top(GC):
    q = 'yaga::Generalized_vsids::pick_top'
    def match(s, p, f): return True
    def requires(s, c):
        t = T(c[0]); a = s.q_(c)
        return s.wf(c, 0) + [('unassigned variables are queued', s.known(t, a)), s.held_exist(t, a)]
    def ensures(s, c):
        t = T(c[0]); b = Q(c.this_.fld('variables')); has, ty, o = s.picked(c)
        return s.after(c) + [('a picked variable exists and is unassigned', Implies(has, And(t.vrange(ty, o), t.level(ty, o) < 0))),
                             ('none only if all variables are assigned', Implies(Not(has), FA(lambda x, y: Implies(t.vrange(x, y), t.level(x, y) >= 0), 2))),
                             ('unassigned variables stay queued', s.known(t, b)), s.held_exist(t, b),
                             ('it goes before every other queued variable', Implies(has, And(b.n > 0, b.typ(Z) == ty, b.ord(Z) == o)))]
    def templates(s, ex, lid, L):
        c = ex.topspec; t = T(c[0])
        a = s.q_(c)
        return [('known', lambda e: s.known(t, s.cur(e))), ('heap', lambda e: s.cur(e).heap()), ('exist', lambda e: s.held_exist(t, s.cur(e))[1])] + [(n, lambda e, i=i: s.cur(e).table()[i][1]) for i, (n, _) in enumerate(a.table())]


class Requeue(GC):
    q = 'yaga::Generalized_vsids::on_before_backtrack'
    weight = 5
    def requires(s, c):
        t = T(c[1]); a = s.q_(c); v = c.this.fld('vsids')
        return s.wf(c) + [('unassigned variables are queued', s.known(t, a)), s.held_exist(t, a), ('level', And(c[2].z >= 0, c[2].z < t.n)),
                          ('capacity', a.n < MAXVAR), ('every variable is scored', And(v.len == t.nt, FA(lambda x: Implies(And(x >= 0, x < t.nt), z3.Select(v.leaf('[]', 'len'), x) == t.num(x))))),
                          ('variable types', t.nt < 255)]
    def grows(s, t, a, b): return FA(lambda x, y: And(Implies(a.has(x, y), b.has(x, y))), 2)
    def above(s, t, q, lev): return FA(lambda x, y: Implies(And(t.vrange(x, y), Or(t.level(x, y) < 0, t.level(x, y) > lev)), q.has(x, y)), 2)
    def ensures(s, c):
        t = T(c[1]); a, b = s.q_(c), Q(c.this_.fld('variables'))
        return s.after(c) + [('every variable unassigned after the backtrack is queued', s.above(t, b, c[2].z)), s.held_exist(t, b)]
    def templates(s, ex, lid, L):
        c = ex.topspec; t = T(c[1]); a = s.q_(c)
        out = [('known', lambda e: s.known(t, s.cur(e))), ('heap', lambda e: s.cur(e).heap()), ('exist', lambda e: s.held_exist(t, s.cur(e))[1])] + [(n, lambda e, i=i: s.cur(e).table()[i][1]) for i, (n, _) in enumerate(a.table())]
        terms = [(n, rd) for n, rd, k, loc in ex.vf.scope_terms(ex) if k in ('iter', 'int')]
        for cn, rd in terms:
            out.append(('above ' + cn, lambda e, rd=rd: s.above(t, s.cur(e), rd(e))))
            out.append(('lev ' + cn, lambda e, rd=rd: And(rd(e) >= c[2].z, rd(e) < t.n)))
        for cn, rd in L.counters:
            for dn, rd2 in terms:
                if cn == dn: continue
                def f(e, rd=rd, rd2=rd2):
                    q = s.cur(e); k = rd2(e)
                    return FA(lambda x, y: Implies(And(t.vrange(x, y), t.level(x, y) == k, k > c[2].z, POS(x, y) < rd(e)), q.has(x, y)), 2)
                out.append(('visited %s of %s' % (cn, dn), f))
        return out


class Gen_resize(GC):
    """new variables are queued"""
    q = 'yaga::Generalized_vsids::on_variable_resize'
    def requires(s, c):
        a = s.q_(c); v = c.this.fld('vsids'); t, n = c[0].z, c[1].z; vl = v.leaf('[]', 'len')
        return a.table() + [('heap', a.heap()), ('arguments', And(t >= 0, t < 200, n >= 0, n < MAXVAR, v.len >= 0, v.len < 200)),
                            ('rows', FA(lambda x: Implies(And(x >= 0, x < v.len), And(z3.Select(vl, x) >= 0, z3.Select(vl, x) < MAXVAR)))),
                            ('only more variables', Implies(t < v.len, z3.Select(vl, t) <= n)),
                            ('only scored variables are queued', FA(lambda x, y: Implies(a.has(x, y), And(x < v.len, y < z3.Select(vl, x))), 2)), ('capacity', a.n < MAXVAR)]
    def modifies(s, c): return GC.modifies(s, c) + [c.this.fld('vsids').lv]
    def old(s, c): v = c.this.fld('vsids'); t = c[0].z; return If(t < v.len, z3.Select(v.leaf('[]', 'len'), t), Z)
    def queued(s, c, a, b, hi):
        t, old = c[0].z, s.old(c)
        return [('new variables are queued', FA(lambda y: Implies(And(y >= old, y < hi), b.has(t, y)))), ('only existing variables are queued', FA(lambda y: Implies(y >= hi, Not(b.has(t, y))))),
                ('known variables as before', FA(lambda y: Implies(y < old, b.has(t, y) == a.has(t, y)))), ('other types as before', FA(lambda x, y: Implies(x != t, b.has(x, y) == a.has(x, y)), 2))]
    def ensures(s, c):
        a, b = s.q_(c), Q(c.this_.fld('variables')); w = c.this_.fld('vsids'); t, n = c[0].z, c[1].z
        return s.after(c) + [('all variables are scored', And(w.len > t, z3.Select(w.leaf('[]', 'len'), t) == n)), ] + s.queued(c, a, b, n)
    def templates(s, ex, lid, L):
        c = ex.topspec; a = s.q_(c); w = lambda e: O(e, e.st, c.thislv).fld('vsids')
        out = [('heap', lambda e: s.cur(e).heap()), ('scored', lambda e: And(w(e).len > c[0].z, z3.Select(w(e).leaf('[]', 'len'), c[0].z) == c[1].z))] + [(n, lambda e, i=i: s.cur(e).table()[i][1]) for i, (n, _) in enumerate(a.table())]
        for cn, rd in L.counters:
            for i in range(4): out.append(('queued%d<%s' % (i, cn), lambda e, rd=rd, i=i: s.queued(c, a, s.cur(e), rd(e))[i][1]))
            out.append(('n+' + cn, lambda e, rd=rd: s.cur(e).n - a.n == rd(e) - s.old(c)))
        return out


CONTRACTS = [k() for k in (Evsids_pick, Evsids_resize, Evsids_before, First_before, First_pick, Pick_top, Requeue, Gen_resize)]
