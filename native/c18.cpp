// C18: a term built by the term manager has the value of the operation on the values of its arguments
#include "term.h"
using tv::V;
int main(int argc, char** argv)
{
    hs::init(argc, argv);
    int const K = 4;
    while (hs::more()) {
        Term_manager tm; tv::Assign as[K]; std::string d;
        struct T { term_t t; V v[K]; };
        std::vector<T> bs, rs;
        auto num = [&](bool nz) -> mpq_class { static char const* const cs[] = {"0", "1", "-1", "2", "1/2", "-1/2", "3", "-3", "2/3", "-3/2", "7", "4294967296", "-1/4294967297"}; mpq_class q(cs[hs::ri(nz ? 1 : 0, std::size(cs) - 1)]); return q; };
        auto konst = [&](mpq_class const& q) {
            term_t n = tm.mk_integer_constant(mpz_class(abs(q.get_num())).get_str());
            if (q < 0) n = tm.mk_unary_minus(n);
            if (q.get_den() != 1) n = tm.mk_divides(n, tm.mk_integer_constant(q.get_den().get_str()));
            return n; };
        int nb = hs::ri(1, 4), nr = hs::ri(1, 4);
        auto setrv = [&](term_t t) { T x; x.t = t; for (int k = 0; k < K; ++k) { x.v[k] = hs::coin() ? V(hs::ri(-2, 2)) : num(false); as[k].val[t.x >> 1] = x.v[k]; } return x; };
        for (int i = 0; i < nb; ++i) { T x; x.t = tm.mk_uninterpreted_constant(types::bool_type); for (int k = 0; k < K; ++k) as[k].val[x.t.x >> 1] = x.v[k] = hs::ri(0, 1); bs.push_back(x); }
        for (int i = 0; i < nr; ++i) rs.push_back(setrv(tm.mk_uninterpreted_constant(types::real_type)));
        term_t fs[2] = {tm.mk_uninterpreted_constant(types::real_type), tm.mk_uninterpreted_constant(types::bool_type)};
        tm.set_term_name(fs[0], "f"); tm.set_term_name(fs[1], "p");
        { T x; x.t = true_term; for (auto& v : x.v) v = 1; bs.push_back(x); x.t = false_term; for (auto& v : x.v) v = 0; bs.push_back(x); }
        for (int i = 0; i < 3; ++i) { auto q = num(false); T x; x.t = konst(q); for (auto& v : x.v) v = q; rs.push_back(x); }
        std::vector<std::pair<term_t, tv::Shape>> frozen;
        auto name = [](T const& t) { return std::to_string(t.t.x); };
        int steps = hs::ri(3, 30);
        for (int s = 0; s < steps; ++s) {
            auto B = [&]() -> T { T x = hs::coin() && bs.size() > 4 ? bs[bs.size() - 1 - hs::ri(0, 3)] : bs[hs::ri(0, bs.size() - 1)]; if (hs::coin(3)) { x.t = opposite_term(x.t); for (auto& v : x.v) v = 1 - v; } return x; };
            auto R = [&]() -> T { return hs::coin() && rs.size() > 4 ? rs[rs.size() - 1 - hs::ri(0, 3)] : rs[hs::ri(0, rs.size() - 1)]; };
            auto C = [&]() -> T { T x; auto q = num(true); x.t = konst(q); for (auto& v : x.v) v = q; return x; };
            T r; bool boolean = true; int op = hs::ri(0, 27); T a, b, c; std::vector<term_t> args; std::vector<T> ts;
            auto two = [&](auto f) { a = f(), b = hs::coin(6) ? a : f(); d += "(" + name(a) + "," + name(b) + ")"; args = {a.t, b.t}; };
            auto many = [&](auto f, int lo, int hi) { int n = hs::ri(lo, hi); d += "("; for (int i = 0; i < n; ++i) { ts.push_back(i && hs::coin(6) ? ts[hs::ri(0, i - 1)] : f()); args.push_back(ts.back().t); d += name(ts.back()) + " "; } d += ")"; };
            bool str = hs::coin();
            auto all = [&](auto g) { for (int k = 0; k < K; ++k) { r.v[k] = g(k); r.v[k].canonicalize(); } };
            d += " " + std::to_string(op); hs::setcur(d);
            switch (op) {
            case 0: many(B, 0, 5); hs::setcur(d); r.t = str ? tm.mk_term("or", args) : tm.mk_or(args); all([&](int k) { V v = 0; for (auto& t : ts) if (t.v[k] != 0) v = 1; return v; }); break;
            case 1: many(B, 0, 5); hs::setcur(d); r.t = str ? tm.mk_term("and", args) : tm.mk_and(args); all([&](int k) { V v = 1; for (auto& t : ts) if (t.v[k] == 0) v = 0; return v; }); break;
            case 2: two(B); hs::setcur(d); r.t = tm.mk_binary_or(a.t, b.t); all([&](int k) { return V(a.v[k] != 0 || b.v[k] != 0); }); break;
            case 3: two(B); hs::setcur(d); r.t = tm.mk_binary_and(a.t, b.t); all([&](int k) { return V(a.v[k] != 0 && b.v[k] != 0); }); break;
            case 4: two(B); hs::setcur(d); r.t = str ? tm.mk_term("=>", args) : tm.mk_implies(a.t, b.t); all([&](int k) { return V(a.v[k] == 0 || b.v[k] != 0); }); break;
            case 5: two(B); hs::setcur(d); r.t = str ? tm.mk_term("=", args) : tm.mk_iff(a.t, b.t); all([&](int k) { return V(a.v[k] == b.v[k]); }); break;
            case 6: two(B); hs::setcur(d); r.t = str ? tm.mk_term("xor", args) : tm.mk_xor(a.t, b.t); all([&](int k) { return V(a.v[k] != b.v[k]); }); break;
            case 7: a = B(); args = {a.t}; d += "(" + name(a) + ")"; r.t = tm.mk_term("not", args); all([&](int k) { return V(1 - a.v[k]); }); break;
            case 8: case 9: case 10: { a = B(); b = B(); c = B(); if (hs::coin()) { int w = hs::ri(0, 5); auto neg = [](T x) { x.t = opposite_term(x.t); for (auto& v : x.v) v = 1 - v; return x; }; if (w == 0) b = a; if (w == 1) c = a; if (w == 2) b = neg(a); if (w == 3) c = neg(a); if (w == 4) c = neg(b); if (w == 5) c = b; }
                d += "(" + name(a) + "," + name(b) + "," + name(c) + ")"; hs::setcur(d); args = {a.t, b.t, c.t}; r.t = str ? tm.mk_term("ite", args) : tm.mk_ite(a.t, b.t, c.t); all([&](int k) { return a.v[k] != 0 ? b.v[k] : c.v[k]; }); break; }
            case 11: case 12: a = B(); b = R(); c = hs::coin(5) ? b : R(); boolean = false; d += "(" + name(a) + "," + name(b) + "," + name(c) + ")"; hs::setcur(d); args = {a.t, b.t, c.t}; r.t = str ? tm.mk_term(Kind::ITE_TERM, args) : tm.mk_ite(a.t, b.t, c.t); all([&](int k) { return a.v[k] != 0 ? b.v[k] : c.v[k]; }); break;
            case 13: two(R); hs::setcur(d); r.t = str ? tm.mk_term(">=", args) : tm.mk_arithmetic_geq(a.t, b.t); all([&](int k) { return V(a.v[k] >= b.v[k]); }); break;
            case 14: two(R); hs::setcur(d); r.t = str ? tm.mk_term("<=", args) : tm.mk_arithmetic_leq(a.t, b.t); all([&](int k) { return V(a.v[k] <= b.v[k]); }); break;
            case 15: two(R); hs::setcur(d); r.t = str ? tm.mk_term("<", args) : tm.mk_arithmetic_lt(a.t, b.t); all([&](int k) { return V(a.v[k] < b.v[k]); }); break;
            case 16: two(R); hs::setcur(d); r.t = str ? tm.mk_term(">", args) : tm.mk_arithmetic_gt(a.t, b.t); all([&](int k) { return V(a.v[k] > b.v[k]); }); break;
            case 17: case 18: two(R); hs::setcur(d); r.t = str ? tm.mk_term("=", args) : hs::coin() ? tm.mk_arithmetic_eq(a.t, b.t) : tm.mk_binary_eq(a.t, b.t); all([&](int k) { return V(a.v[k] == b.v[k]); }); break;
            case 19: two(R); hs::setcur(d); boolean = false; r.t = str ? tm.mk_term("-", args) : tm.mk_arithmetic_minus(a.t, b.t); all([&](int k) { return V(a.v[k] - b.v[k]); }); break;
            case 20: a = R(); args = {a.t}; d += "(" + name(a) + ")"; hs::setcur(d); boolean = false; r.t = str ? tm.mk_term("-", args) : tm.mk_unary_minus(a.t); all([&](int k) { return V(-a.v[k]); }); break;
            case 21: many(R, 0, 5); hs::setcur(d); boolean = false; r.t = str ? tm.mk_term("+", args) : tm.mk_arithmetic_plus(args); all([&](int k) { V v = 0; for (auto& t : ts) v += t.v[k]; return v; }); break;
            case 22: case 23: { boolean = false; a = hs::coin(6) ? T() : C(); if (a.t.x == 0 || hs::coin(8)) { auto q = num(false); a.t = konst(q); for (auto& v : a.v) v = q; } b = R(); if (hs::coin()) std::swap(a, b);
                d += "(" + name(a) + "*" + name(b) + ")"; hs::setcur(d); args = {a.t, b.t}; r.t = str ? tm.mk_term("*", args) : tm.mk_arithmetic_times(args); all([&](int k) { return V(a.v[k] * b.v[k]); }); break; }
            case 24: boolean = false; a = R(); b = C(); d += "(" + name(a) + "/" + name(b) + ")"; hs::setcur(d); args = {a.t, b.t}; r.t = str ? tm.mk_term("/", args) : tm.mk_divides(a.t, b.t); all([&](int k) { return V(a.v[k] / b.v[k]); }); break;
            case 25: { bool real = hs::coin(); if (real) many(R, 2, 4); else many(B, 2, 3); hs::setcur(d); r.t = tm.mk_term("distinct", args); all([&](int k) { for (size_t i = 0; i < ts.size(); ++i) for (size_t j = 0; j < i; ++j) if (ts[i].v[k] == ts[j].v[k]) return V(0); return V(1); }); break; }
            case 26: { int f = hs::ri(0, 1); boolean = f == 1; many([&]() -> T { return hs::coin(3) ? B() : R(); }, 1, 3); hs::setcur(d);
                if (str) r.t = tm.mk_app(f ? "p" : "f", f ? types::bool_type : types::real_type, args); else { auto ar = args; ar.insert(ar.begin(), fs[f]); r.t = tm.mk_term(Kind::APP_TERM, ar); }
                all([&](int k) { std::vector<V> vs; for (auto& t : ts) vs.push_back(t.v[k]); return as[k].fun(fs[f].x, f, vs); }); break; }
            default: { a = R(); d += "(" + name(a) + ")"; hs::setcur(d); args = {a.t}; bool ge = hs::coin(); r.t = tm.mk_term(ge ? Kind::ARITH_GE_ATOM : Kind::ARITH_EQ_ATOM, args); all([&](int k) { return V(ge ? a.v[k] >= 0 : a.v[k] == 0); }); break; }
            }
            d += "=" + std::to_string(r.t.x); hs::setcur(d);
            CHECK(tm.get_type(r.t) == (boolean ? types::bool_type : types::real_type), "type of the term built");
            for (int k = 0; k < K; ++k) { tv::Eval e{tm, as[k], {}}; V v = e(r.t); CHECK(v == r.v[k], "value of the term built"); }
            (boolean ? bs : rs).push_back(r);
        }
        for (int k = 0; k < K; ++k) { tv::Eval e{tm, as[k], {}}; for (auto* l : {&bs, &rs}) for (auto& t : *l) CHECK(e(t.t) == t.v[k], "value of an earlier term"); }
        hs::begin_case(d);
    }
    return hs::done();
}
