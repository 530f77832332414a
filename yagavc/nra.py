"""Nonlinear integer goals, proved over the reals (a sound relaxation) by z3's nlsat after solving equations."""
import z3, time


class Relax:
    def __init__(self):
        self.m = {}; self.side = []; self.keep = []

    def t(self, e):
        k = e.get_id()
        r = self.m.get(k)
        if r is None:
            r = self.go(e); self.m[k] = r; self.keep.append(e)
        return r

    def fresh(self, e, sort=z3.RealSort()):
        return z3.Const('r!%d' % len(self.m) + '!' + str(e.get_id()), sort)

    def go(self, e):
        d = e.decl().kind() if z3.is_app(e) else None
        s = e.sort()
        if z3.is_int_value(e): return z3.RealVal(e.as_long())
        if z3.is_rational_value(e): return e
        c = e.children()
        if d in (z3.Z3_OP_ADD, z3.Z3_OP_SUB, z3.Z3_OP_MUL, z3.Z3_OP_UMINUS):
            a = [self.t(x) for x in c]
            if d == z3.Z3_OP_UMINUS: return -a[0]
            r = a[0]
            for x in a[1:]: r = r + x if d == z3.Z3_OP_ADD else r - x if d == z3.Z3_OP_SUB else r * x
            return r
        if d == z3.Z3_OP_TO_REAL: return self.t(c[0])
        if d == z3.Z3_OP_DIV: return self.t(c[0]) / self.t(c[1])
        if d == z3.Z3_OP_ITE:
            return z3.If(self.t(c[0]), self.t(c[1]), self.t(c[2]))
        if d in (z3.Z3_OP_LE, z3.Z3_OP_GE, z3.Z3_OP_LT, z3.Z3_OP_GT):
            a, b = self.t(c[0]), self.t(c[1])
            i = c[0].sort() == z3.IntSort()
            if d == z3.Z3_OP_LE: return a <= b
            if d == z3.Z3_OP_GE: return a >= b
            if d == z3.Z3_OP_LT: return a + 1 <= b if i else a < b
            return a >= b + 1 if i else a > b
        if d in (z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_NOT, z3.Z3_OP_IMPLIES, z3.Z3_OP_EQ, z3.Z3_OP_DISTINCT, z3.Z3_OP_XOR):
            a = [self.t(x) for x in c]
            if d == z3.Z3_OP_AND: return z3.And(*a)
            if d == z3.Z3_OP_OR: return z3.Or(*a)
            if d == z3.Z3_OP_NOT: return z3.Not(a[0])
            if d == z3.Z3_OP_IMPLIES: return z3.Implies(a[0], a[1])
            if d == z3.Z3_OP_DISTINCT: return z3.Distinct(*a)
            if d == z3.Z3_OP_XOR: return z3.Xor(a[0], a[1])
            return a[0] == a[1]
        if z3.is_true(e) or z3.is_false(e): return e
        if d == z3.Z3_OP_IDIV and z3.is_int_value(c[1]) and c[1].as_long() > 0:
            q = self.fresh(e); n = c[1].as_long(); x = self.t(c[0])
            self.side.append(z3.And(x - n * q >= 0, x - n * q <= n - 1)); return q
        if d == z3.Z3_OP_MOD and z3.is_int_value(c[1]) and c[1].as_long() > 0:
            q = self.fresh(e); n = c[1].as_long()
            self.side.append(z3.And(q >= 0, q <= n - 1)); return q
        if s == z3.BoolSort(): return z3.Const('rb!%d' % e.get_id(), s)
        if s in (z3.IntSort(), z3.RealSort()): return self.fresh(e)
        raise ValueError('sort')


def syms(e, cache={}):
    k = e.get_id()
    if k in cache: return cache[k][1]
    out = set(); st = [e]; seen = set()
    while st:
        x = st.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            out.add(x.get_id())
        if z3.is_app(x): st.extend(x.children())
    cache[k] = (e, out)
    return out


def prove(fs, goal, seconds):
    """facts imply goal, over the reals"""
    try:
        R = Relax()
        neg = z3.Not(R.t(goal))
        vs = set(syms(goal)); sel = []; rest = list(fs)
        for _ in range(6):
            new = []; add = set()
            for f in rest:
                v = syms(f)
                if v & vs or not v: sel.append(f); add |= v
                else: new.append(f)
            rest = new
            if add <= vs: break
            vs |= add
        g = z3.Goal()
        for f in sel:
            try: g.add(R.t(f))
            except ValueError: pass
        g.add(neg)
        for x in R.side: g.add(x)
        t = z3.TryFor(z3.Then('simplify', 'propagate-values', 'elim-term-ite', 'solve-eqs', 'simplify', 'propagate-values', 'solve-eqs', 'smt'), int(seconds * 500))
        t2 = z3.TryFor(z3.Then('simplify', 'propagate-values', 'elim-term-ite', 'solve-eqs', 'simplify', 'purify-arith', 'propagate-values', 'solve-eqs', 'tseitin-cnf', 'qfnra-nlsat'), int(seconds * 500))
        for tt in (t, t2):
            try:
                r = tt(g)
                if len(r) == 1 and len(r[0]) == 1 and z3.is_false(r[0][0]): return True
                if any(len(x) == 0 for x in r): return False
            except z3.Z3Exception: pass
    except (ValueError, z3.Z3Exception):
        pass
    return False
