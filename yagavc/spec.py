"""Helpers for writing contracts."""
import z3, itertools
from vcg import *

_n = itertools.count()
INT_MAX = 2**31 - 1
INT_MIN = -2**31
MAXVAR = 2**30 - 1     # variable ordinals stay below this (capacity assumption)


def Implies(a, b): return z3.Implies(a, b)
def Or(*a): return z3.Or(*a) if a else z3.BoolVal(False)
def Not(a): return z3.Not(a)
def If(c, a, b): return z3.If(c, a, b)
def IntV(x): return z3.IntVal(x)
TRUE = z3.BoolVal(True)
FALSE = z3.BoolVal(False)


def FA(f, n=1, pat=None):
    """forall i.. . f(i..)   (bound names depend on nothing but the nesting, so equal formulas are shared)"""
    vs = [z3.Int('b!%d!%d' % (FA.depth, k)) for k in range(n)]
    FA.depth += 1
    try: b = f(*vs)
    finally: FA.depth -= 1
    if isinstance(b, tuple): b, pats = b
    else: pats = None
    if z3.is_true(z3.simplify(b)): return TRUE
    if pats:
        try: return z3.ForAll(vs, b, patterns=[p if not isinstance(p, tuple) else z3.MultiPattern(*p) for p in pats])
        except z3.Z3Exception: pass         # not a possible pattern (it contains if-then-else, say)
    return z3.ForAll(vs, b)


FA.depth = 0


def EX(f, n=1):
    vs = [z3.Int('b!%d!%d' % (FA.depth, k)) for k in range(n)]
    FA.depth += 1
    try: b = f(*vs)
    finally: FA.depth -= 1
    if isinstance(b, tuple): return z3.Exists(vs, b[0], patterns=b[1])
    assert z3.is_bool(b)
    return z3.Exists(vs, b)


def range_all(lo, hi, f):
    return FA(lambda j: z3.Implies(z3.And(j >= lo, j < hi), f(j)))


def range_ex(lo, hi, f):
    return EX(lambda j: z3.And(j >= lo, j < hi, f(j)))


# ---- literals ---------------------------------------------------------------
def lit_ok(v):
    return z3.And(v != 0, v <= MAXVAR, v >= -MAXVAR)


def lit_ord(v):
    return z3.If(v > 0, v - 1, -v - 1)


def lit_idx(v):
    return z3.If(v > 0, 2 * (v - 1), 2 * (-v - 1) + 1)


class Tmpl:
    """invariant templates: quantified predicates over every loop counter"""
    @staticmethod
    def foralls(L, preds, lo=0, down=False, extra=()):
        out = []
        for (cn, rd) in list(L.counters) + list(extra):
            for pn, P in preds:
                out.append(('A[%s<%s]' % (pn, cn), lambda e, rd=rd, P=P: range_all(lo, rd(e), lambda j: P(e, j))))
                if down:
                    out.append(('A[%s>=%s]' % (pn, cn), lambda e, rd=rd, P=P: FA(lambda j: z3.Implies(j >= rd(e), P(e, j)))))
                    out.append(('A[%s>%s]' % (pn, cn), lambda e, rd=rd, P=P: FA(lambda j: z3.Implies(j > rd(e), P(e, j)))))
        return out

    @staticmethod
    def counts(L, preds):
        """a == b  <=>  P holds for all positions below b, for two counters a <= b"""
        out = []
        for (an, ra) in L.counters:
            for (bn, rb) in L.counters:
                if an == bn: continue
                for pn, P in preds:
                    out.append(('N[%s %s=%s]' % (pn, an, bn), lambda e, ra=ra, rb=rb, P=P: (ra(e) == rb(e)) == range_all(0, rb(e), lambda j: P(e, j))))
                    out.append(('N0[%s %s=%s]' % (pn, an, bn), lambda e, ra=ra, rb=rb, P=P: (ra(e) == 0) == range_all(0, rb(e), lambda j: z3.Not(P(e, j)))))
        return out
