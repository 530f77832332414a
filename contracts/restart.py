"""Restart policies."""
from spec import *
import trail

LUBY = z3.Function('luby!spec', I, I)
RMAX = 2**22 - 1      # restarts in one run (capacity assumption): the countdown fits an int


def pow2(x): return Or(*[x == 2**k for k in range(0, 33)])


def luby_def(i):
    """the Luby sequence: 1 1 2 1 1 2 4 ..."""
    return Implies(i >= 1, And(*[And(Implies(i == 2**k - 1, LUBY(i) == 2**(k - 1)), Implies(And(i >= 2**(k - 1), i < 2**k - 1), LUBY(i) == LUBY(i - 2**(k - 1) + 1))) for k in range(1, 33)]))


def check_bit_lemma():
    a = z3.BitVec('a', 32)
    s = z3.Solver()
    s.add((a & (a + 1) == 0) != z3.Or(a == 0xffffffff, *[a + 1 == 2**k for k in range(32)]))
    return s.check() == z3.unsat


_bit = []
def on_bitop(ex, op, a, b, r, ty):
    if op == '&' and ty.bits == 32 and not ty.signed and not ex.quant:
        if not _bit: _bit.append(check_bit_lemma())
        if _bit[0]:
            for x, y in ((a, b), (b, a)):
                ex.fact(Implies(y == (x + 1) % 2**32, (r == 0) == pow2(x + 1)))


def on_shift(ex, op, a, b, r, ty):
    if op == '<<' and z3.is_int_value(a) and a.as_long() == 1 and not ex.quant:
        t = IntV(2**30)
        for k in range(29, -1, -1): t = If(b == k, IntV(2**k), t)
        ex.fact(Implies(And(b >= 0, b <= 30), r == t))
    on_bitop(ex, op, a, b, r, ty)


def world(w):
    trail_world = getattr(trail, 'world', None)
    if trail_world: trail_world(w)
    w.on_bitop = on_shift


class Luby(Contract):
    q = 'yaga::Luby_restart::luby'
    def requires(s, c): return [('index', And(c[0].z >= 1, c[0].z <= RMAX))]
    def ensures(s, c):
        i, r = c[0].z, c.ret.z
        c.ex.fact(luby_def(i))
        for k in range(1, 23): c.ex.fact(Implies(i == 2**k - 1, True))
        return [('element of the Luby sequence', r == LUBY(i)), ('range', And(r >= 1, r <= 2**21))]
    def templates(s, ex, lid, L):
        c = ex.topspec; i0 = c[0].z
        out = []
        def masks(m, hi): return Or(*[m == 2**k - 1 for k in range(0, hi + 1)])
        for cn, rd in L.counters:
            def same(e, rd=rd):
                e.fact(luby_def(rd(e)))
                return LUBY(rd(e)) == LUBY(i0)
            out += [('luby ' + cn, same), ('mask ' + cn, lambda e, rd=rd: masks(rd(e), 32)), ('range ' + cn, lambda e, rd=rd: And(rd(e) >= 1, rd(e) <= i0))]
        for cn, rd in L.counters + [(n, rd) for n, rd, k, e0 in L.unm if k == 'int']:
            for dn, rd2 in L.counters:
                if cn != dn: out += [('near %s %s' % (cn, dn), lambda e, rd=rd, rd2=rd2: 2 * rd2(e) + 1 >= rd(e))]
        return out


class RC(Contract):
    inline_only = True


class Luby_ctor(RC):
    q = 'yaga::Luby_restart::Luby_restart'
    def match(s, p, f): return f['kind'] == 'ctor' and len(f['params']) == 0
    def ensures(s, c):
        b = c.this_
        c.ex.fact(luby_def(IntV(1)))
        return [('first element', And(b.fld('index').z == 1, b.fld('countdown').z == LUBY(IntV(1)) * b.fld('mult').z, b.fld('mult').z >= 1))]


def luby_wf(o): return And(o.fld('index').z >= 1, o.fld('index').z < RMAX, o.fld('mult').z == 550, o.fld('countdown').z > INT_MIN, o.fld('countdown').z <= 550 * 2**21)


class Luby_learned(RC):
    q = 'yaga::Luby_restart::on_learned_clause'
    def requires(s, c): return [('state', luby_wf(c.this))]
    def modifies(s, c): return [c.this.fld('countdown').lv]
    def ensures(s, c): return [('one conflict less until the restart', c.this_.fld('countdown').z == c.this.fld('countdown').z - 1)]


class Luby_on_restart(RC):
    q = 'yaga::Luby_restart::on_restart'
    def requires(s, c): return [('state', luby_wf(c.this))]
    def modifies(s, c): return [c.this.fld('countdown').lv, c.this.fld('index').lv]
    def ensures(s, c):
        a, b = c.this, c.this_
        return [('next element of the sequence', And(b.fld('index').z == a.fld('index').z + 1, b.fld('countdown').z == LUBY(b.fld('index').z) * a.fld('mult').z))]


class Luby_should(RC):
    q = 'yaga::Luby_restart::should_restart'
    def ensures(s, c): return [('restart iff the conflicts are used up', c.ret.z == (c.this.fld('countdown').z <= 0))]


class No_should(RC):
    q = 'yaga::No_restart::should_restart'
    def ensures(s, c): return [('never', Not(c.ret.z))]


class G(RC):
    def fs(s, o): return {n: o.fld(n).z for n in ('countdown', 'slow_ema', 'fast_ema', 'slow_exp', 'fast_exp', 'min_num_conflicts', 'threshold')}
    def set(s, c, **kw):
        a, b = s.fs(c.this), s.fs(c.this_)
        return [(n, b[n] == kw.get(n, a[n])) for n in a]
    def modifies(s, c): return [c.this.fld(n).lv for n in ('countdown', 'slow_ema', 'fast_ema', 'slow_exp', 'fast_exp', 'min_num_conflicts', 'threshold')]


class G_ctor(G):
    q = 'yaga::Glucose_restart::Glucose_restart'
    def match(s, p, f): return f['kind'] == 'ctor' and len(f['params']) == 0
    def ensures(s, c):
        b = s.fs(c.this_)
        return [('starts with the minimal number of conflicts', b['countdown'] == b['min_num_conflicts']), ('averages are zero', And(b['slow_ema'] == 0, b['fast_ema'] == 0))]


class G_should(G):
    q = 'yaga::Glucose_restart::should_restart'
    def modifies(s, c): return []
    def ensures(s, c):
        a = s.fs(c.this)
        return [('fast average exceeds the slow one by the margin after enough conflicts', c.ret.z == And(a['countdown'] <= 0, a['fast_ema'] >= a['threshold'] * a['slow_ema']))]


class G_on_restart(G):
    q = 'yaga::Glucose_restart::on_restart'
    def ensures(s, c): return s.set(c, countdown=s.fs(c.this)['min_num_conflicts'])


class G_min(G):
    q = 'yaga::Glucose_restart::set_min_conflicts'
    def ensures(s, c): return s.set(c, countdown=c[0].z, min_num_conflicts=c[0].z)
class G_slow(G):
    q = 'yaga::Glucose_restart::set_slow_exp'
    def ensures(s, c): return s.set(c, slow_exp=c[0].z)
class G_fast(G):
    q = 'yaga::Glucose_restart::set_fast_exp'
    def ensures(s, c): return s.set(c, fast_exp=c[0].z)
class G_thr(G):
    q = 'yaga::Glucose_restart::set_threshold'
    def ensures(s, c): return s.set(c, threshold=c[0].z)
class G_get_slow(G):
    q = 'yaga::Glucose_restart::slow'
    def modifies(s, c): return []
    def ensures(s, c): return [('value', c.ret.z == s.fs(c.this)['slow_ema'])]
class G_get_fast(G):
    q = 'yaga::Glucose_restart::fast'
    def modifies(s, c): return []
    def ensures(s, c): return [('value', c.ret.z == s.fs(c.this)['fast_ema'])]


def p2(e):
    r = IntV(2**30)
    for k in range(29, -1, -1): r = If(e == k, IntV(2**k), r)
    return z3.ToReal(r)


class G_learned(G):
    """both averages move towards the number of distinct decision levels of the clause"""
    q = 'yaga::Glucose_restart::on_learned_clause'
    weight = 5
    def requires(s, c):
        t = trail.T(c[1]); cl = c[2]; a = s.fs(c.this)
        return t.shape() + [t.entries(), t.listed(lambda x, y: trail.POS(x, y))] + [
            ('literals are assigned', range_all(0, cl.len, lambda j: And(lit_ok(cl[j].value.z), t.vrange(IntV(0), lit_ord(cl[j].value.z)), t.level(IntV(0), lit_ord(cl[j].value.z)) >= 0))),
            ('size', cl.len <= INT_MAX), ('settings', And(a['slow_exp'] >= 0, a['slow_exp'] <= 30, a['fast_exp'] >= 0, a['fast_exp'] <= 30, a['countdown'] > INT_MIN))]
    def ensures(s, c):
        t = trail.T(c[1]); cl = c[2]; a, b = s.fs(c.this), s.fs(c.this_)
        u = c.ex.log.get('unique', [])
        lev = lambda j: t.level(IntV(0), lit_ord(cl[j].value.z))
        if not u: return [('number of distinct levels', FALSE)]
        lv, arrs, lo, hi = u[-1]
        arr = arrs[('[]',)]; k = hi - lo; x = z3.ToReal(k)
        at = lambda i: z3.Select(arr, i)
        ps = c.ex.log.get('perm', [])
        def origin(i):
            for h, P, Q in reversed(ps): i = P(i)
            return i
        def counted(j):
            for h, P, Q in ps:
                j = Q(j) if h != 'un' else c.ex.log['uniqueV'][-1](j)
            return j
        return s.set(c, countdown=a['countdown'] - 1, slow_ema=a['slow_ema'] + (x - a['slow_ema']) / p2(a['slow_exp']), fast_ema=a['fast_ema'] + (x - a['fast_ema']) / p2(a['fast_exp'])) + [
            ('counted levels are distinct', FA(lambda i, j: Implies(And(lo <= i, i < j, j < hi), at(i) < at(j)), 2)),
            ('counted levels are levels of the clause', range_all(lo, hi, lambda i: And(origin(i) >= 0, origin(i) < cl.len, at(i) == lev(origin(i))))),
            ('every level of the clause is counted', range_all(0, cl.len, lambda j: And(counted(j) >= lo, counted(j) < hi, at(counted(j)) == lev(j))))]
    def templates(s, ex, lid, L):
        c = ex.topspec; t = trail.T(c[1]); cl = c[2]
        lev = lambda j: t.level(IntV(0), lit_ord(cl[j].value.z))
        out = []
        # the vector under construction: any local vector of int
        for vid, lv in sorted(ex.frames[-1].vars.items()):
            if isinstance(lv, LV) and lv.ty is not None and lv.ty.is_std('std::vector') and lv.ty.targs[0].k == 'int':
                for cn, rd in L.counters:
                    out.append(('levels%d<%s' % (vid, cn), lambda e, lv=lv, rd=rd: FA(lambda j: Implies(And(j >= 0, j < rd(e)), O(e, e.st, lv)[j].z == lev(j)))))
        return out


CONTRACTS = [k() for k in (Luby, Luby_ctor, Luby_learned, Luby_on_restart, Luby_should, No_should, G_ctor, G_should, G_on_restart, G_min, G_slow, G_fast, G_thr, G_get_slow, G_get_fast, G_learned)]
