"""Rational numbers as seen by every component except the number class itself: mathematical rationals (z3 Real).

The operations below are the contracts that properties C01 and C02 establish for Long_fraction.
"""
import z3
from vcg import *
from stl import lvof, mk

Q = 'yaga::Long_fraction'
R = z3.RealSort()
num_f = z3.Function('rat_num', R, I)
den_f = z3.Function('rat_den', R, I)
hash_f = z3.Function('rat_hash', R, I)
def rounded(ex, x, up):
    """nearest integer below or above, named"""
    Z = getattr(ex.w, 'integral', None)
    if Z is not None: r = ex.fresh(R, 'rounded'); ex.fact(Z(r))
    else: r = z3.ToReal(ex.fresh(I, 'rounded'))
    ex.fact(z3.And(x <= r, r < x + 1) if up else z3.And(r <= x, x < r + 1))
    return r




def val(ex, a): return ex.rd(lvof(ex, a)).z
def cur(ex, this): return ex.rd(this).z


def ctor(ex, e, lv, args):
    if not args: x = z3.RealVal(0)
    else:
        ts = [ex.ety(a) for a in args]
        if ts[0].nonref().k == 'rec': x = val(ex, args[0])
        elif ts[0].k in ('int', 'bool', 'enum') and len(args) == 1:
            x = z3.simplify(z3.ToReal(ex.ev(args[0]).z))
        elif ts[0].k == 'int' and len(args) == 2:
            n = ex.ev(args[0]).z; d = ex.ev(args[1]).z
            ex.oblige('denominator is positive', d > 0, 'pre')
            x = z3.ToReal(n) / z3.ToReal(d)
        elif ts[0].k == 'ptr':
            for a in args: ex.ev(a)
            x = ex.fresh(R, 'ratstr')
        else: raise Unsupported('constructor of ' + Q)
    ex.wr(lv, Val(lv.ty, {(): x}))


def emplace(ex, ty, args, argtys):
    v = [ex.rd(a).z if isinstance(a, LV) else a.z for a in args]
    if len(v) == 1: return Val(ty, {(): z3.simplify(z3.ToReal(v[0])) if v[0].sort() == I else v[0]})
    raise Unsupported('emplace of ' + Q)


def binop(f, div=False):
    def h(ex, e, this, args):
        a = cur(ex, this); b = val(ex, args[0])
        if div: ex.oblige('division by zero', b != 0, 'pre')
        return mk(ex, e, f(ex, a, b))
    return h


def asgop(f, div=False):
    def h(ex, e, this, args):
        b = val(ex, args[0]); a = cur(ex, this)
        if div: ex.oblige('division by zero', b != 0, 'pre')
        ex.wr(this, Val(this.ty, {(): f(ex, a, b)}))
        return this
    return h


def mul(ex, a, b):
    f = getattr(ex.w, 'rmul', None)
    return f(ex, a, b) if f else a * b


def rdiv(ex, a, b):
    f = getattr(ex.w, 'rdiv', None)
    return f(ex, a, b) if f else a / b


def minus(ex, e, this, args):
    if args: return mk(ex, e, cur(ex, this) - val(ex, args[0]))
    return mk(ex, e, -cur(ex, this))


def sgn(ex, x):
    r = ex.fresh(I, 'sgn')
    ex.fact(z3.And((r < 0) == (x < 0), (r > 0) == (x > 0), r >= -1, r <= 1))
    return r


def compare(ex, e, this, args):
    if len(args) != 1: raise Unsupported('compare')
    return mk(ex, e, sgn(ex, cur(ex, this) - val(ex, args[0])))


def part(f):
    def h(ex, e, this, args):
        x = cur(ex, this)
        n, d = num_f(x), den_f(x)
        ex.fact(z3.And(d >= 1, z3.ToReal(n) == x * z3.ToReal(d), (d == 1) == z3.IsInt(x)))
        return mk(ex, e, z3.ToReal(f(x)))
    return h


def assign(ex, e, this, args):
    v = val(ex, args[0]); ex.wr(this, Val(this.ty, {(): v})); return this


def negate(ex, e, this, args):
    ex.wr(this, Val(this.ty, {(): -cur(ex, this)})); return None


def inverse(ex, e, this, args):
    x = cur(ex, this); ex.oblige('inverse of zero', x != 0, 'pre')
    return mk(ex, e, rdiv(ex, z3.RealVal(1), x))


def world(w):
    w.abstract[Q] = {(): R}
    N = w.natives
    N[('ctor', Q)] = ctor
    N[('emplace first', Q)] = emplace
    N[('emplace', Q)] = emplace
    q = lambda n: ('q', Q + '::' + n)
    N[q('operator+')] = binop(lambda ex, a, b: a + b)
    N[q('operator-')] = minus
    N[q('operator*')] = binop(mul)
    N[q('operator/')] = binop(rdiv, True)
    N[q('operator+=')] = asgop(lambda ex, a, b: a + b)
    N[q('operator-=')] = asgop(lambda ex, a, b: a - b)
    N[q('operator*=')] = asgop(mul)
    N[q('operator/=')] = asgop(rdiv, True)
    N[q('operator=')] = assign
    for o, f in (('==', lambda a, b: a == b), ('!=', lambda a, b: a != b), ('<', lambda a, b: a < b), ('<=', lambda a, b: a <= b), ('>', lambda a, b: a > b), ('>=', lambda a, b: a >= b)):
        N[q('operator' + o)] = binop(lambda ex, a, b, f=f: f(a, b))
    N[q('compare')] = compare
    N[q('sign')] = lambda ex, e, this, args: mk(ex, e, sgn(ex, cur(ex, this)))
    N[q('isInteger')] = lambda ex, e, this, args: mk(ex, e, z3.IsInt(cur(ex, this)))
    N[q('isZero')] = lambda ex, e, this, args: mk(ex, e, cur(ex, this) == 0)
    N[q('isOne')] = lambda ex, e, this, args: mk(ex, e, cur(ex, this) == 1)
    N[q('isWellFormed')] = lambda ex, e, this, args: mk(ex, e, z3.BoolVal(True))
    N[q('floor')] = lambda ex, e, this, args: mk(ex, e, rounded(ex, cur(ex, this), False))
    N[q('ceil')] = lambda ex, e, this, args: mk(ex, e, rounded(ex, cur(ex, this), True))
    for n in ('get_num', 'numerator'): N[q(n)] = part(num_f)
    for n in ('get_den', 'denominator'): N[q(n)] = part(den_f)
    N[q('negate')] = negate
    for n in ('inverse', 'inv'): N[q(n)] = inverse
    N[q('getHashValue')] = lambda ex, e, this, args: mk(ex, e, hash_f(cur(ex, this)))
    N[('q', 'yaga::Long_fraction_inverse')] = lambda ex, e, this, args: inverse(ex, e, lvof(ex, args[0]), [])
    N[('q', 'yaga::isNegative')] = lambda ex, e, this, args: mk(ex, e, val(ex, args[0]) < 0)
    N[('q', 'yaga::isPositive')] = lambda ex, e, this, args: mk(ex, e, val(ex, args[0]) > 0)
    N[('q', 'std::hash::operator()')] = None
    del N[('q', 'std::hash::operator()')]


CONTRACTS = []
