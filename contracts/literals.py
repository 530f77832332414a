from spec import *


class Variable_ctor(Contract):
    q = 'yaga::Variable::Variable'
    inline_only = True
    def match(s, p, f): return len(f['params']) == 2
    def ensures(s, c):
        return [('ordinal', c.this_.number.z == c[0].z), ('type', c.this_.var_type.z == c[1].z)]


class Variable_eq(Contract):
    q = 'yaga::Variable::operator=='
    inline_only = True
    def ensures(s, c):
        return [('eq', c.ret.z == And(c.this.number.z == c[0].number.z, c.this.var_type.z == c[0].var_type.z))]


class Variable_ne(Variable_eq):
    q = 'yaga::Variable::operator!='
    def ensures(s, c):
        return [('ne', c.ret.z == Not(And(c.this.number.z == c[0].number.z, c.this.var_type.z == c[0].var_type.z)))]


class Literal_ctor(Contract):
    q = 'yaga::Literal::Literal'
    inline_only = True
    def match(s, p, f): return len(f['params']) == 1 and p.types[f['params'][0]['t']].k == 'int'
    def requires(s, c): return [('ordinal', And(c[0].z >= 0, c[0].z < MAXVAR))]
    def ensures(s, c):
        v = c.this_.value.z
        return [('valid', lit_ok(v)), ('ordinal', lit_ord(v) == c[0].z), ('positive', v > 0)]


class LitC(Contract):
    inline_only = True
    def requires(s, c): return [('literal', lit_ok(c.this.value.z))]


class Literal_var(LitC):
    q = 'yaga::Literal::var'
    def ensures(s, c):
        return [('ordinal', c.ret.number.z == lit_ord(c.this.value.z)), ('boolean', c.ret.var_type.z == 0), ('range', And(c.ret.number.z >= 0, c.ret.number.z < MAXVAR))]


class Literal_isneg(LitC):
    q = 'yaga::Literal::is_negation'
    def ensures(s, c): return [('sign', c.ret.z == (c.this.value.z < 0))]


class Literal_not(LitC):
    q = 'yaga::Literal::operator~'
    def ensures(s, c):
        v = c.this.value.z; r = c.ret.value.z
        return [('same variable', lit_ord(r) == lit_ord(v)), ('opposite sign', (r < 0) != (v < 0)), ('valid', lit_ok(r))]


class Literal_negate(LitC):
    q = 'yaga::Literal::negate'
    def modifies(s, c): return [c.this.value.lv]
    def ensures(s, c):
        v = c.this.value.z; r = c.this_.value.z
        return [('same variable', lit_ord(r) == lit_ord(v)), ('opposite sign', (r < 0) != (v < 0)), ('valid', lit_ok(r))]


class Literal_eq(LitC):
    q = 'yaga::Literal::operator=='
    def requires(s, c): return [('literals', And(lit_ok(c.this.value.z), lit_ok(c[0].value.z)))]
    def ensures(s, c):
        a, b = c.this.value.z, c[0].value.z
        return [('same variable and sign', c.ret.z == And(lit_ord(a) == lit_ord(b), (a < 0) == (b < 0)))]


class Literal_ne(Literal_eq):
    q = 'yaga::Literal::operator!='
    def ensures(s, c):
        a, b = c.this.value.z, c[0].value.z
        return [('different variable or sign', c.ret.z == Not(And(lit_ord(a) == lit_ord(b), (a < 0) == (b < 0))))]


class Literal_cmp(Literal_eq):
    q = 'yaga::Literal::operator<=>'
    def ensures(s, c):
        a, b = c.this.value.z, c[0].value.z
        r = c.ret.z
        return [('zero iff equal', (r == 0) == (a == b)), ('strict total order', And((r < 0) == (lit_idx(a) < lit_idx(b)), (r > 0) == (lit_idx(a) > lit_idx(b))))]


class Literal_comparer(Contract):
    q = 'yaga::Literal_comparer::operator()'
    inline_only = True
    def requires(s, c): return [('literals', And(lit_ok(c[0].value.z), lit_ok(c[1].value.z)))]
    def ensures(s, c): return [('order', c.ret.z == (lit_idx(c[0].value.z) < lit_idx(c[1].value.z)))]


class Literal_hash(Contract):
    """equal literals have equal hashes: the result is a function of the encoded value"""
    q = 'yaga::Literal_hash::operator()'
    inline_only = True
    def requires(s, c): return [('literal', lit_ok(c[0].value.z))]
    def ensures(s, c):
        f = z3.Function('hash_int', I, I)
        return [('function of the literal', c.ret.z == f(c[0].value.z))]


class Map_index(Contract):
    q = 'yaga::Literal_map::index'
    inline_only = True
    def requires(s, c): return [('literal', lit_ok(c[0].value.z))]
    def ensures(s, c):
        v = c[0].value.z; r = c.ret.z
        return [('slot', r == lit_idx(v)), ('slot identifies the variable', And(r / 2 == lit_ord(v), r >= 0)), ('slot identifies the sign', (r % 2 == 1) == (v < 0))]


class Map_at(Contract):
    q = 'yaga::Literal_map::operator[]'
    inline_only = True
    def requires(s, c):
        return [('literal', lit_ok(c[0].value.z)), ('variable in the map', 2 * lit_ord(c[0].value.z) + 1 < c.this.values.len)]
    def ensures(s, c):
        if isinstance(c.res, LV):
            r = c.res
            return [('slot of the literal', And(TRUE if r.root == c.thislv.root else FALSE, r.idx[-1] == lit_idx(c[0].value.z)))]
        if c.res.ty.k == 'bool':
            return [('slot of the literal', c.ret.z == z3.Select(c.this.values.leaf('[]'), lit_idx(c[0].value.z)))]
        p = c.res.z.lv
        return [('slot of the literal', And(TRUE if p.root == c.thislv.root else FALSE, p.idx[-1] == lit_idx(c[0].value.z)))]


class Map_resize(Contract):
    q = 'yaga::Literal_map::resize'
    inline_only = True
    def requires(s, c): return [('size', And(c[0].z >= 0, c[0].z <= MAXVAR))]
    def modifies(s, c): return [c.this.values.lv]
    def ensures(s, c): return [('two slots per variable', c.this_.values.len == 2 * c[0].z)]


class Map_num_vars(Contract):
    q = 'yaga::Literal_map::num_vars'
    inline_only = True
    def requires(s, c): return [('size', c.this.values.len <= 2 * MAXVAR)]
    def ensures(s, c): return [('num', c.ret.z == c.this.values.len / 2)]


class Map_ctor(Contract):
    q = 'yaga::Literal_map::Literal_map'
    inline_only = True
    def match(s, p, f): return len(f['params']) >= 1 and p.types[f['params'][0]['t']].k == 'int'
    def requires(s, c): return [('size', And(c[0].z >= 0, c[0].z <= MAXVAR))]
    def ensures(s, c): return [('two slots per variable', c.this_.values.len == 2 * c[0].z)]


class Map_assign(Contract):
    q = 'yaga::Literal_map::assign'
    inline_only = True
    def modifies(s, c): return [c.this.values.lv]
    def ensures(s, c):
        n = c.this.values.len
        return [('same size', c.this_.values.len == n), ('all slots', range_all(0, n, lambda j: c.this_.values[j].z == c[0].z))] if c.this.values.lv.ty.targs[0].k in ('bool', 'int') else [('same size', c.this_.values.len == n)]


class Variable_hash(Contract):
    q = 'yaga::Variable_hash::operator()'
    inline_only = True
    def ensures(s, c): return []


CONTRACTS = [k() for k in (Variable_ctor, Variable_eq, Variable_ne, Literal_ctor, Literal_var, Literal_isneg, Literal_not, Literal_negate, Literal_eq, Literal_ne,
                           Literal_cmp, Literal_comparer, Literal_hash, Map_index, Map_at, Map_resize, Map_num_vars, Map_ctor, Map_assign)]
