// C23: the answers and models for random formulas with uninterpreted functions; congruence lemmas on random trails
#include "term.h"
#include "Solver_wrapper.h"
#include "Yaga.h"
#include "Options.h"
using tv::V;
static V value(var_value_t const& v) { return std::holds_alternative<bool>(v) ? V(std::get<bool>(v) ? 1 : 0) : rat::val(std::get<Rational>(v)); }
struct Visitor_values : yaga::parser::Default_model_visitor {
    std::map<int, V> val; std::map<int, std::map<std::vector<V>, V>> table;
    void visit_fnc(term_t f, std::map<std::vector<var_value_t>, var_value_t> const& m) override { for (auto& [a, r] : m) { std::vector<V> k; for (auto& x : a) k.push_back(value(x)); table[f.x][k] = value(r); } }
    void visit(term_t t, var_value_t const& v) override { val[t.x >> 1] = std::holds_alternative<bool>(v) ? V(std::get<bool>(v) ? 1 : 0) : rat::val(std::get<Rational>(v)); }
};
static std::string text(Term_manager& tm, term_t t)
{
    if (t.x & 1) return "(not " + text(tm, term_t{t.x & ~1}) + ")";
    auto k = tm.get_kind(t); if (k == Kind::CONSTANT_TERM) return "true"; if (k == Kind::UNINTERPRETED_TERM) return (tm.get_type(t) == types::bool_type ? "b" : "r") + std::to_string(t.x);
    if (k == Kind::ARITH_CONSTANT) { V v = rat::val(tm.arithmetic_constant_value(t)); std::string r = mpz_class(abs(v.get_num())).get_str(); if (v.get_den() != 1) r = "(/ " + r + " " + v.get_den().get_str() + ")"; return v < 0 ? "(- " + r + ")" : r; }
    std::string r = "("; bool zero = false; std::vector<term_t> a; for (auto x : tm.get_args(t)) a.push_back(x);
    if (k == Kind::APP_TERM) r += std::string(tm.get_type(t) == types::bool_type ? "p" : "f"); else if (k == Kind::ITE_TERM) r += "ite"; else if (k == Kind::OR_TERM) r += "or"; else if (k == Kind::ARITH_PRODUCT) r += "*"; else if (k == Kind::ARITH_POLY) r += "+"; else if (k == Kind::ARITH_GE_ATOM) r += ">=", zero = true; else r += "=", zero = k == Kind::ARITH_EQ_ATOM;
    if (k == Kind::APP_TERM) for (auto x : a) r += tm.get_type(x) == types::bool_type ? "b" : "r";
    for (auto x : a) r += " " + text(tm, x); return r + (zero ? " 0)" : ")");
}
int main(int argc, char** argv)
{
    hs::init(argc, argv);
    while (hs::more()) {
        Term_manager tm; std::string d; bool const uf = true;
        std::vector<term_t> bs, rs, leaves;
        int nb = hs::ri(1, 3), nr = hs::ri(1, 3);
        for (int i = 0; i < nb; ++i) { bs.push_back(tm.mk_uninterpreted_constant(types::bool_type)); tm.set_term_name(bs.back(), "b" + std::to_string(i)); }
        for (int i = 0; i < nr; ++i) { rs.push_back(tm.mk_uninterpreted_constant(types::real_type)); tm.set_term_name(rs.back(), "r" + std::to_string(i)); }
        leaves = bs; leaves.insert(leaves.end(), rs.begin(), rs.end());
        for (std::string n : {"pb", "pr", "fb", "fr", "pbb", "pbr", "prb", "prr", "fbb", "fbr", "frb", "frr", "pbbb", "pbbr", "pbrb", "pbrr", "prbb", "prbr", "prrb", "prrr", "fbbb", "fbbr", "fbrb", "fbrr", "frbb", "frbr", "frrb", "frrr"}) tm.set_term_name(tm.mk_uninterpreted_constant(n[0] == 'p' ? types::bool_type : types::real_type), n);
        auto konst = [&]() { term_t n = tm.mk_integer_constant(std::to_string(hs::ri(0, 3))); if (hs::coin()) n = tm.mk_unary_minus(n); if (hs::coin(3)) n = tm.mk_divides(n, tm.mk_integer_constant(std::to_string(hs::ri(1, 3)))); return n; };
        int steps = hs::ri(2, 14);
        for (int s = 0; s < steps; ++s) {
            auto B = [&]() { term_t x = hs::coin() ? bs.back() : bs[hs::ri(0, bs.size() - 1)]; return hs::coin(3) ? opposite_term(x) : x; };
            auto R = [&]() { return hs::coin(5) ? konst() : hs::coin() ? rs.back() : rs[hs::ri(0, rs.size() - 1)]; };
            std::vector<term_t> a; auto many = [&](auto g, int lo, int hi) { for (int n = hs::ri(lo, hi); n > 0; --n) a.push_back(g()); };
            bool boolean = true; std::string op; term_t r;
            switch (hs::coin() ? hs::ri(12, 13) : hs::ri(0, 11)) {
            case 0: case 1: op = "or"; many(B, 2, 4); break;
            case 2: op = "and"; many(B, 2, 4); break;
            case 3: op = "xor"; many(B, 2, 2); break;
            case 4: op = "ite"; a = {B(), B(), B()}; break;
            case 5: op = "ite"; a = {B(), R(), R()}; boolean = false; break;
            case 6: op = "="; if (hs::coin()) many(B, 2, 2); else many(R, 2, 2); break;
            case 7: op = "<="; many(R, 2, 2); break;
            case 8: op = "<"; many(R, 2, 2); break;
            case 9: op = hs::coin() ? ">" : ">="; many(R, 2, 2); break;
            case 10: op = "+"; many(R, 2, 3); boolean = false; break;
            case 11: op = "-"; many(R, 2, 2); boolean = false; break;
            case 12: op = "p"; many([&]() { return hs::coin(3) ? B() : R(); }, 1, hs::coin(3) ? 3 : 2); break;
            default: op = "f"; many([&]() { return hs::coin(3) ? B() : R(); }, 1, hs::coin(3) ? 3 : 2); boolean = false;
            }
            d += "(" + op; for (auto x : a) d += " " + std::to_string(x.x); d += ")"; hs::setcur(d);
            if (op == "p" || op == "f") { for (auto x : a) op += tm.get_type(x) == types::bool_type ? "b" : "r"; r = tm.mk_app(op, boolean ? types::bool_type : types::real_type, a); } else r = tm.mk_term(op, a);
            d += "=" + std::to_string(r.x) + " "; (boolean ? bs : rs).push_back(r);
        }
        std::vector<term_t> roots; for (int n = hs::ri(1, 2); n > 0; --n) { term_t x = n == 1 ? bs.back() : bs[hs::ri(0, bs.size() - 1)]; roots.push_back(hs::coin(3) ? opposite_term(x) : x); d += "assert " + std::to_string(roots.back().x) + " "; }
        auto random_atoms = [&]() { tv::Assign as; for (auto t : leaves) as.val[t.x >> 1] = tm.get_type(t) == types::bool_type ? V(hs::ri(0, 1)) : V(mpq_class(hs::ri(-4, 4), hs::coin(4) ? 2 : 1)); for (auto& [k, v] : as.val) v.canonicalize(); return as; };
        auto holds = [&](tv::Assign const& as) { tv::Eval e{tm, as, {}}; for (auto t : roots) if (e(t) == 0) return false; return true; };
        if (hs::coin()) { // formulas with a model
            auto as = random_atoms(); tv::Eval e{tm, as, {}}; for (int n = hs::ri(0, 4); n > 0; --n) roots.push_back(bs[hs::ri(0, bs.size() - 1)]);
            for (int n = hs::ri(0, 3); n > 0; --n) { term_t x = rs[hs::ri(0, rs.size() - 1)], y = rs[hs::ri(0, rs.size() - 1)]; std::vector<term_t> a{x, y}; roots.push_back(tm.mk_term(hs::coin() ? "=" : "<", a)); }
            for (auto& t : roots) if (e(t) == 0) t = opposite_term(t);
            d += "true in a model:"; for (auto t : roots) d += " " + std::to_string(t.x); hs::setcur(d);
        }
        d.clear(); for (auto t : roots) d += "(assert " + text(tm, t) + ") "; hs::setcur(d);
        yaga::Options o; yaga::parser::Solver_wrapper sw(tm, o); sw.set_logic(yaga::logic::qf_uflra); auto ans = sw.check(roots);
        if (ans == yaga::Solver_answer::SAT) { Visitor_values v; sw.model(v); tv::Assign as; as.val = v.val; as.tables = true; as.table = v.table; CHECK(holds(as), "the model with its tables of functions satisfies the formulas"); }
        else { CHECK(ans == yaga::Solver_answer::UNSAT, "an answer"); for (int k = 0; k < 40; ++k) CHECK(!holds(random_atoms()), "unsatisfiable formulas have no model"); }
        hs::begin_case(d, ans == yaga::Solver_answer::SAT);
    }
    return hs::done();
}
