"""Integer identities by algebra: decide the conditions of a goal with a linear solver (products opaque), collect the
equations that hold on the path, and show that the goal is in the ideal they generate."""
import z3, time
from sympy.polys.rings import ring
from sympy import QQ


import os
DBG = os.environ.get('ALGDBG')


class Lin:
    """replace products of two non-constants, and divisions by them, by opaque terms"""
    def __init__(s):
        s.m = {}; s.keep = []; s.mul = z3.Function('mul!', z3.IntSort(), z3.IntSort(), z3.IntSort())

    def t(s, e):
        k = e.get_id()
        if k in s.m: return s.m[k]
        c = e.children()
        if not c: r = e
        else:
            a = [s.t(x) for x in c]
            d = e.decl().kind()
            if d == z3.Z3_OP_MUL:
                con = [x for x in a if z3.is_int_value(x) or z3.is_rational_value(x)]; non = [x for x in a if not (z3.is_int_value(x) or z3.is_rational_value(x))]
                if len(non) >= 2 and e.sort() == z3.IntSort():
                    non.sort(key=lambda x: x.get_id())
                    r = non[0]
                    for x in non[1:]: r = s.mul(r, x)
                    for x in con: r = x * r
                else: r = e.decl()(*a) if len(a) == 2 else z3.Product(*a)
            else:
                try: r = e.decl()(*a) if d not in (z3.Z3_OP_ADD, z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_DISTINCT) else {z3.Z3_OP_ADD: lambda *y: z3.Sum(*y), z3.Z3_OP_AND: z3.And, z3.Z3_OP_OR: z3.Or, z3.Z3_OP_DISTINCT: z3.Distinct}[d](*a)
                except z3.Z3Exception: r = e
        s.m[k] = r; s.keep += [e, r]
        return r


class Alg:
    def __init__(self, facts):
        self.lin = Lin(); self.S = z3.Solver(); self.S.set('rlimit', 3000000)
        self.facts = [f for f in facts if not quant(f)]
        for f in self.facts: self.S.add(self.lin.t(f))
        self.ch = {}

    def known(self, c):
        """True / False / None"""
        k = c.get_id()
        if k in self.ch: return self.ch[k][1]
        lc = self.lin.t(c); r = None
        if self.S.check(z3.Not(lc)) == z3.unsat: r = True
        elif self.S.check(lc) == z3.unsat: r = False
        self.ch[k] = (c, r)
        return r

    def simp(self, e, memo=None):
        memo = {} if memo is None else memo
        k = e.get_id()
        if k in memo: return memo[k][1]
        if z3.is_app(e) and e.decl().kind() == z3.Z3_OP_ITE:
            b = self.known(e.arg(0))
            if b is None:
                c_, a_, b_ = e.children()
                if e.sort() == z3.IntSort() and self.known(z3.Implies(c_, a_ == b_)): r = self.simp(b_, memo)
                elif e.sort() == z3.IntSort() and self.known(z3.Implies(z3.Not(c_), a_ == b_)): r = self.simp(a_, memo)
                else: self.open.append(e.arg(0)); r = e
            else: r = self.simp(e.arg(1) if b else e.arg(2), memo)
        else:
            c = e.children()
            if not c: r = e
            else:
                a = [self.simp(x, memo) for x in c]
                if all(x.eq(y) for x, y in zip(a, c)): r = e
                else: r = z3.substitute(e, *[(y, x) for x, y in zip(a, c) if not x.eq(y)])
        while z3.is_select(r):
            a, j = r.arg(0), r.arg(1)
            if z3.is_app(a) and a.decl().kind() == z3.Z3_OP_ITE:
                b = self.known(a.arg(0))
                if b is None: self.open.append(a.arg(0)); break
                r = z3.Select(a.arg(1 if b else 2), j)
            elif z3.is_store(a):
                b = True if a.arg(1).eq(j) else self.known(a.arg(1) == j)
                if b is None: self.open.append(a.arg(1) == j); break
                r = self.simp(a.arg(2), memo) if b else z3.Select(a.arg(0), j)
            else: break
        memo[k] = (e, r)
        return r


def quant(f):
    st = [f]; seen = set()
    while st:
        x = st.pop()
        if z3.is_quantifier(x): return True
        if x.get_id() in seen: continue
        seen.add(x.get_id()); st.extend(x.children())
    return False


def eqs_of(f, out, seen, depth=0):
    st = [f]
    while st:
        x = st.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if z3.is_eq(x) and x.arg(0).sort() == z3.IntSort(): out.append(x)
        elif x.sort() == z3.BoolSort(): st.extend(x.children())


def poly(R, gens, e, atoms):
    if z3.is_int_value(e): return R(e.as_long())
    d = e.decl().kind(); c = e.children()
    if d == z3.Z3_OP_ADD:
        r = R(0)
        for x in c: r += poly(R, gens, x, atoms)
        return r
    if d == z3.Z3_OP_SUB: return poly(R, gens, c[0], atoms) - sum((poly(R, gens, x, atoms) for x in c[1:]), R(0))
    if d == z3.Z3_OP_UMINUS: return -poly(R, gens, c[0], atoms)
    if d == z3.Z3_OP_MUL:
        r = R(1)
        for x in c: r *= poly(R, gens, x, atoms)
        return r
    return gens[atoms[e.get_id()]]


def atoms_of(e, at, keep):
    if z3.is_int_value(e): return
    d = e.decl().kind()
    if d in (z3.Z3_OP_ADD, z3.Z3_OP_SUB, z3.Z3_OP_UMINUS, z3.Z3_OP_MUL):
        for c in e.children(): atoms_of(c, at, keep)
    elif e.get_id() not in at: at[e.get_id()] = len(at); keep.append(e)


def prove(facts, goal, seconds=20):
    t0 = time.time()
    g = goal; extra = []
    while z3.is_implies(g): extra.append(g.arg(0)); g = g.arg(1)
    if not (z3.is_eq(g) and g.arg(0).sort() == z3.IntSort()):
        if quant(g): return False
        A = Alg(facts)
        return A.S.check(z3.Not(A.lin.t(goal))) == z3.unsat
    return go(facts + extra, g, t0 + seconds, 3)


def go(facts, g, end, depth):
    A = Alg(facts); A.open = []
    if A.S.check() == z3.unsat: return True
    g2 = A.simp(g)
    if A.open:
        if DBG: print('ALG open cond', str(A.open[0])[:200], depth)
        if depth == 0 or time.time() > end: return False
        c = A.open[0]
        return go(facts + [c], g, end, depth - 1) and go(facts + [z3.Not(c)], g, end, depth - 1)
    if A.known(g2): return True
    A.open = []
    cand = []; seen = set()
    for f in A.facts: eqs_of(f, cand, seen)
    # relevance: equations sharing symbols with the goal, transitively
    E = []
    for q in cand:
        if time.time() > end: return False
        if A.known(q):
            q2 = z3.simplify(A.simp(q), som=False) if False else A.simp(q)
            E.append((q2.arg(0), q2.arg(1)) if z3.is_eq(q2) else (q.arg(0), q.arg(1)))
    at = {}; keep = []
    for a, b in E + [(g2.arg(0), g2.arg(1))]: atoms_of(a, at, keep); atoms_of(b, at, keep)
    if not at: return False
    # atoms with a known absolute value / sign folding: |x| = x or -x
    R, *gens = ring(['x%d' % i for i in range(len(at))], QQ)
    P = [poly(R, gens, a, at) - poly(R, gens, b, at) for a, b in E]
    G = poly(R, gens, g2.arg(0), at) - poly(R, gens, g2.arg(1), at)
    P = [p for p in P if p != 0]
    # eliminate variables that occur linearly with a constant coefficient
    nzc = {}
    def nz(j):
        if j not in nzc: nzc[j] = A.known(keep[j] != 0) is True
        return nzc[j]

    def cancel(p):
        """divide by atoms known not to be zero"""
        for j in range(len(gens)):
            while p != 0 and all(m[j] for m in p.monoms()) and nz(j):
                r = R(0)
                for m, c in p.terms():
                    mm = list(m); mm[j] -= 1; r += R({tuple(mm): c})
                p = r
        return p
    P = [cancel(p) for p in P]; G = cancel(G)
    if G == 0: return True
    changed = True
    while changed and time.time() < end:
        changed = False
        P.sort(key=len)
        for i, p in enumerate(P):
            v = None
            for j in range(len(gens)):
                ms = [(m, c) for m, c in p.terms() if m[j]]
                if len(ms) == 1 and sum(ms[0][0]) == 1: v = j; co = ms[0][1]; break
            if v is None: continue
            val = gens[v] - p * (QQ(1) / co)
            P = [x for k, x in enumerate(P) if k != i]
            P = [sub(x, R, v, val) for x in P]; P = [cancel(x) for x in P if x != 0]
            G = cancel(sub(G, R, v, val))
            if G == 0: return True
            changed = True
            break
    if G == 0: return True
    if DBG:
        print('ALG open', len(E), 'atoms', len(at), 'left', [str(p) for p in P][:20], 'G', G, time.time()-end)
        print({('x%d'%at[k.get_id()]):str(k).replace('\n','')[:100] for k in keep if ('x%d'%at[k.get_id()]) in str(P)})
    # keep equations connected with the goal
    vs = set(j for m in G.monoms() for j in range(len(gens)) if m[j])
    sel = []; rest = P
    for _ in range(3):
        n = [p for p in rest if any(m[j] for m in p.monoms() for j in vs)]
        rest = [p for p in rest if p not in n]; sel += n
        vs |= set(j for p in n for m in p.monoms() for j in range(len(gens)) if m[j])
    r = False
    if sel:
        try:
            from sympy.polys.groebnertools import groebner as gb
            mult = [gens[j] for j in range(len(gens)) if j in vs and nz(j)][:6]

            def member():
                B = gb(sel, R)
                if G.rem(B) == 0: return True
                return any((G * m).rem(B) == 0 for m in mult) or any((G * m * k).rem(B) == 0 for m in mult for k in mult)
            r = run_limited(member, max(1, min(8, end - time.time())))
        except Exception: r = False
    if r: return True
    # split on a condition that decides an equation of the path
    if depth == 0 or time.time() > end or not A.open: return False
    gv = [keep[j] for j in range(len(gens)) if any(m[j] for m in G.monoms())]
    gs = set(x for k in gv for x in consts(k))
    op = sorted(A.open, key=lambda c: (-len(gs & consts(c)), size(c)))
    c = op[0]
    if DBG: print('ALG split', str(c)[:100])
    return go(facts + [c], g, end, depth - 1) and go(facts + [z3.Not(c)], g, end, depth - 1)


def size(e):
    st = [e]; n = 0
    while st and n < 200:
        x = st.pop(); n += 1; st.extend(x.children())
    return n


def consts(e):
    out = set(); st = [e]; seen = set()
    while st:
        x = st.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if z3.is_const(x) and not z3.is_int_value(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED: out.add(str(x))
        st.extend(x.children())
    return out


def sub(x, R, v, val):
    if not any(m[v] for m in x.monoms()): return x
    r = R(0); pw = {0: R(1)}
    for m, c in x.terms():
        k = m[v]
        if k not in pw: pw[k] = val ** k
        mm = list(m); mm[v] = 0
        r += pw[k].mul_term((tuple(mm), c))
    return r


def run_limited(f, secs):
    import os, select
    rd, wr = os.pipe()
    pid = os.fork()
    if pid == 0:
        try: os.write(wr, b'1' if f() else b'0')
        except BaseException: pass
        os._exit(0)
    os.close(wr)
    r, _, _ = select.select([rd], [], [], secs)
    out = os.read(rd, 1) if r else b''
    os.close(rd)
    if not r: os.kill(pid, 9)
    os.waitpid(pid, 0)
    return out == b'1'
