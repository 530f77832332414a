from spec import *


def defd(o): return o.fld('defined')


def mwf(m):
    """representation invariant of a partial model: one value, one flag and one timestamp per variable"""
    n = m.fld('defined').len
    return And(n >= 0, n <= MAXVAR, m.fld('values').len == n, m.fld('ts').len == n, m.fld('global_ts').z >= 0, m.fld('global_ts').z < INT_MAX)


class ModelC(Contract):
    inline_only = True
    def in_range(s, c, i): return And(i >= 0, i < c.this.fld('defined').len)


class Model_is_defined(ModelC):
    q = 'yaga::Model_base::is_defined'
    def requires(s, c): return [('variable', s.in_range(c, c[0].z))]
    def ensures(s, c): return [('defined', c.ret.z == c.this.fld('defined')[c[0].z].z)]


class Model_num_vars(ModelC):
    q = 'yaga::Model_base::num_vars'
    def ensures(s, c): return [('n', c.ret.z == c.this.fld('defined').len)]


class Model_timestamp(ModelC):
    q = 'yaga::Model_base::timestamp'
    def requires(s, c): return [('variable', And(s.in_range(c, c[0].z), c.this.fld('ts').len == c.this.fld('defined').len))]
    def ensures(s, c): return [('ts', c.ret.z == c.this.fld('ts')[c[0].z].z)]


class Model_clear1(ModelC):
    q = 'yaga::Model_base::clear'
    def match(s, p, f): return len(f['params']) == 1
    def requires(s, c): return [('variable', s.in_range(c, c[0].z))]
    def modifies(s, c): return [c.this.fld('defined').lv]
    def ensures(s, c):
        a, b = c.this.fld('defined'), c.this_.fld('defined')
        return [('size', a.len == b.len), ('undefined', Not(b[c[0].z].z)), ('others unchanged', FA(lambda j: Implies(j != c[0].z, b[j].z == a[j].z)))]


class Model_clear_all(ModelC):
    q = 'yaga::Model_base::clear'
    def match(s, p, f): return len(f['params']) == 0
    def modifies(s, c): return [c.this.fld('defined').lv]
    def ensures(s, c):
        a, b = c.this.fld('defined'), c.this_.fld('defined')
        return [('size', a.len == b.len), ('all undefined', range_all(0, a.len, lambda j: Not(b[j].z)))]


class Model_value(ModelC):
    q = 'yaga::Model::value'
    def requires(s, c): return [('variable', And(s.in_range(c, c[0].z), mwf(c.this)))]
    def ensures(s, c):
        if isinstance(c.res, LV): return [('value slot', And(TRUE if c.res.root == c.thislv.root else FALSE, c.res.idx[-1] == c[0].z))]
        return [('value', c.ret.z == c.this.fld('values')[c[0].z].z)]


class Model_set_value(ModelC):
    q = 'yaga::Model::set_value'
    def requires(s, c): return [('variable', And(s.in_range(c, c[0].z), mwf(c.this), c.this.fld('global_ts').z < INT_MAX - 1))]
    def modifies(s, c): return [c.this.fld(n).lv for n in ('defined', 'values', 'ts', 'global_ts')]
    def ensures(s, c):
        a, b = c.this, c.this_; i = c[0].z
        r = [('representation', mwf(b)), ('size', a.fld('defined').len == b.fld('defined').len), ('defined', b.fld('defined')[i].z),
             ('others keep their state', FA(lambda j: Implies(j != i, And(b.fld('defined')[j].z == a.fld('defined')[j].z, b.fld('ts')[j].z == a.fld('ts')[j].z)))),
             ('newest timestamp', And(b.fld('ts')[i].z == a.fld('global_ts').z, b.fld('global_ts').z == a.fld('global_ts').z + 1))]
        vt = a.fld('values').lv.ty.targs[0]
        for p in c.ex.w.shape(vt):
            av, bv = a.fld('values').leaf('[]', *p), b.fld('values').leaf('[]', *p)
            r.append(('value set', z3.Select(bv, i) == c[1].leaf(*p)))
            r.append(('other values unchanged', FA(lambda j: Implies(j != i, z3.Select(bv, j) == z3.Select(av, j)))))
        return r


class Model_resize(ModelC):
    q = 'yaga::Model::resize'
    def requires(s, c): return [('size', And(c[0].z >= 0, c[0].z <= MAXVAR)), ('representation', mwf(c.this))]
    def modifies(s, c): return [c.this.fld(n).lv for n in ('defined', 'values', 'ts')]
    def ensures(s, c):
        a, b = c.this, c.this_; n = c[0].z; old = a.fld('defined').len
        r = [('representation', mwf(b)), ('size', b.fld('defined').len == n), ('new variables undefined', FA(lambda j: Implies(And(j >= old, j < n), Not(b.fld('defined')[j].z)))),
             ('old variables keep their state', FA(lambda j: Implies(And(j >= 0, j < old, j < n), b.fld('defined')[j].z == a.fld('defined')[j].z)))]
        vt = a.fld('values').lv.ty.targs[0]
        for p in c.ex.w.shape(vt):
            av, bv = a.fld('values').leaf('[]', *p), b.fld('values').leaf('[]', *p)
            r.append(('old values unchanged', FA(lambda j: Implies(And(j >= 0, j < old, j < n), z3.Select(bv, j) == z3.Select(av, j)))))
        return r


def lit_state(m, v):
    """(defined, true) of literal value v in model m"""
    o = lit_ord(v)
    d = m.fld('defined')[o].z
    return d, And(d, m.fld('values')[o].z == (v > 0))


def lit_in(m, v): return And(lit_ok(v), lit_ord(v) < m.fld('defined').len)
def lit_true(m, v): return And(m.fld('defined')[lit_ord(v)].z, m.fld('values')[lit_ord(v)].z == (v > 0))
def lit_false(m, v): return And(m.fld('defined')[lit_ord(v)].z, m.fld('values')[lit_ord(v)].z == (v < 0))


class Eval_literal(Contract):
    q = 'yaga::eval'
    inline_only = True
    def match(s, p, f): return p.ptypes(f) == ['yaga::Model<bool>', 'yaga::Literal'] or [p.types[x['t']].nonref().s for x in f['params']] == ['yaga::Model<bool>', 'yaga::Literal']
    def requires(s, c): return [('literal', lit_in(c[0], c[1].value.z)), ('model', mwf(c[0]))]
    def ensures(s, c):
        m, v = c[0], c[1].value.z
        h, x = c.ret.leaf('has'), c.ret.leaf('val')
        return [('undefined iff the variable is', h == m.fld('defined')[lit_ord(v)].z), ('true', Implies(h, x == lit_true(m, v)))]


class Eval_clause(Contract):
    q = 'yaga::eval'
    def match(s, p, f): return [p.types[x['t']].nonref().s for x in f['params']][:1] == ['yaga::Model<bool>'] and p.types[f['params'][1]['t']].nonref().is_std('std::vector')
    def requires(s, c):
        m, cl = c[0], c[1]
        return [('model', mwf(m)), ('literals', range_all(0, cl.len, lambda j: lit_in(m, cl[j].value.z))), ('size', cl.len <= INT_MAX)]
    def ensures(s, c):
        m, cl = c[0], c[1]
        h, x = c.ret.leaf('has'), c.ret.leaf('val')
        return [('true iff some literal is true', And(h, x) == range_ex(0, cl.len, lambda j: lit_true(m, cl[j].value.z))),
                ('false iff all literals are false', And(h, Not(x)) == range_all(0, cl.len, lambda j: lit_false(m, cl[j].value.z)))]
    def templates(s, ex, lid, L):
        c = ex.frames[0].spec
        m, cl = c[0], c[1]
        ps = [('not true', lambda e, j: Not(lit_true(m, cl[j].value.z))), ('false', lambda e, j: lit_false(m, cl[j].value.z)), ('defined', lambda e, j: m.fld('defined')[lit_ord(cl[j].value.z)].z)]
        return Tmpl.foralls(L, ps) + Tmpl.counts(L, ps)


import rational_abs
world = rational_abs.world

CONTRACTS = [k() for k in (Model_is_defined, Model_num_vars, Model_timestamp, Model_clear1, Model_clear_all, Model_value, Model_set_value, Model_resize, Eval_literal, Eval_clause)]
