"""Numerals and decimals (src/terms/Term_manager.cpp). A text is an integer naming its characters:
NUM(s) is the number its digits denote, LEN(s) its length, DOT(s) the position of its decimal point (or -1)."""
from spec import *
import rational_abs, terms
from terms import x_of, K

RS = z3.RealSort()
NUM = z3.Function('number written as', I, RS)
LEN = z3.Function('length', I, I)
DOT = z3.Function('position of the point', I, I)
POWI = z3.Function('power of ten', I, I)
def POW(n): return z3.ToReal(POWI(n))
RVAL = terms.RV
NPOS = 2**64 - 1


def world(w):
    rational_abs.world(w)
    from stl import mk
    S = 'std::basic_string'
    def argvals(ex, e, args): return ex.bind_args(e, e['fn']['pt'], args)
    def text(ex, this): return ex.rdl(this)
    def part(ex, e, this, args):
        s = text(ex, this); v = argvals(ex, e, args); at = v[0].z; n = v[1].z if len(v) > 1 else IntV(NPOS)
        r = ex.fresh(I, 'part')
        ex.oblige('substr in range', And(at >= 0, at <= LEN(s)), 'bounds')
        ex.fact(And(LEN(r) == If(n < LEN(s) - at, n, LEN(s) - at), LEN(r) >= 0, DOT(r) == -1))
        for p, q in ((BEFORE, And(at == 0, n == DOT(s))), (AFTER, And(at == DOT(s) + 1, LEN(r) == LEN(s) - at))): ex.fact(Implies(And(DOT(s) >= 0, q), NUM(r) == p(s)))
        ex.fact(And(NUM(r) >= 0, z3.IsInt(NUM(r))))
        return Val(ex.ety(e).nonref(), {(): r})
    w.natives[(S, 'substr')] = part
    def find(ex, e, this, args):
        s = text(ex, this); v = argvals(ex, e, args)
        ex.oblige('the decimal point is sought', v[0].z == ord('.'), 'pre')
        return mk(ex, e, If(DOT(s) >= 0, DOT(s), IntV(NPOS)))
    w.natives[(S, 'find')] = find
    w.natives[(S, 'size')] = w.natives[(S, 'length')] = lambda ex, e, this, args: mk(ex, e, LEN(text(ex, this)))
    w.natives[(S, 'c_str')] = lambda ex, e, this, args: Val(ex.ety(e), {(): text(ex, this)})
    std = w.natives[('ctor', 'yaga::Long_fraction')]
    def ctor(ex, e, lv, args):
        if args and ex.ety(args[0]).k == 'ptr':
            s = ex.ev(args[0]).z
            if len(args) > 1 and args[1]['e'] != 'default': ex.oblige('decimal', ex.ev(args[1]).z == 10, 'pre')
            ex.oblige('digits only', And(DOT(s) == -1, LEN(s) >= 1), 'pre')
            ex.wr_leaf(lv, (), NUM(s)); return
        return std(ex, e, lv, args)
    w.natives[('ctor', 'yaga::Long_fraction')] = ctor
    def gcd(ex, e, this, args):
        v = [ex.rd(a) if isinstance(a, LV) else a for a in argvals(ex, e, args)]; r = ex.fresh(RS, 'gcd')
        ex.oblige('integers, not both zero', And(z3.IsInt(v[0].z), z3.IsInt(v[1].z), Or(v[0].z != 0, v[1].z != 0)), 'pre')
        ex.fact(r >= 1); return Val(ex.ety(e).nonref(), {(): r})
    w.natives[('q', 'yaga::gcd')] = gcd
    w.natives[('q', 'yaga::Long_fraction::isInteger')] = lambda ex, e, this, args: mk(ex, e, z3.IsInt(ex.rdl(this)))
    def constant(ex, e, this, args):
        v = argvals(ex, e, args)[0]; v = ex.rd(v) if isinstance(v, LV) else v
        t = ex.undef_val(ex.ety(e)); r = t.lv[('x',)]
        ex.fact(And(terms.tok(r), terms.KIND(r / 2) == K['ARITH_CONSTANT'], RVAL(r) == v.z)); return t
    w.natives[('q', 'yaga::terms::Term_table::arithmetic_constant')] = constant


BEFORE = z3.Function('number before the point', I, RS)
AFTER = z3.Function('number after the point', I, RS)


class Numeral(Contract):
    def text(s, c): return c[0].z
    def requires(s, c):
        t = s.text(c)
        return [('digits, with a point in between at most', And(LEN(t) >= 1, LEN(t) < 2**31, Or(DOT(t) == -1, And(s.decimal, DOT(t) >= 1, DOT(t) < LEN(t) - 1)))), ('a number', And(NUM(t) >= 0, Implies(DOT(t) == -1, z3.IsInt(NUM(t))))),
                ('value of the places', Implies(DOT(t) >= 0, NUM(t) == BEFORE(t) + AFTER(t) / POW(LEN(t) - DOT(t) - 1))), ('powers of ten', POWI(IntV(0)) == 1), ('table', c.this.fld('term_table').z > 0)]
    def ensures(s, c):
        r = x_of(c.ret)
        return [('a constant', And(terms.tok(r), terms.KIND(r / 2) == K['ARITH_CONSTANT'])), ('the number written', RVAL(r) == NUM(s.text(c)))]
class Integer(Numeral):
    q = 'yaga::terms::Term_manager::mk_integer_constant'; decimal = FALSE
class Decimal(Numeral):
    q = 'yaga::terms::Term_manager::mk_rational_constant'; decimal = TRUE
    def templates(s, ex, lid, L):
        out = []
        import linear
        for vid, lv in sorted(ex.frames[-1].vars.items()):
            if isinstance(lv, LV) and lv.ty is not None and lv.ty.is_std('std::basic_string'):
                for n, rd in L.counters: out.append(('not beyond %s %s' % (vid, n), lambda e, lv=lv, rd=rd: rd(e) <= LEN(e.rdl(lv))))
        for vn, lv in linear.reals(ex):
            for n, rd in L.counters:
                def f(e, lv=lv, rd=rd):
                    i = rd(e); e.fact(And(POWI(i + 1) == 10 * POWI(i), POWI(0) == 1))
                    return And(O(e, e.st, lv).z == POW(i), POWI(i) >= 1)
                out.append(('power %s %s' % (vn, n), f))
        return out


CONTRACTS = [Integer(), Decimal()]
