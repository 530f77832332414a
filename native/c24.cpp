// C24: the clauses made for random formulas hold exactly when the auxiliary variables have the values of what they stand for; answers and models against the formula
#include "term.h"
#include "Solver_wrapper.h"
#include "Yaga.h"
#include "Linear_arithmetic.h"
#include "Theory_combination.h"
#include "Options.h"
using tv::V;
struct Visitor_values : yaga::parser::Default_model_visitor {
    std::map<int, V> val;
    void visit(term_t t, var_value_t const& v) override { val[t.x >> 1] = std::holds_alternative<bool>(v) ? V(std::get<bool>(v) ? 1 : 0) : rat::val(std::get<Rational>(v)); }
};
int main(int argc, char** argv)
{
    hs::init(argc, argv);
    while (hs::more()) {
        Term_manager tm; std::string d; bool uf = hs::coin(3);
        std::vector<term_t> bs, rs, leaves;
        int nb = hs::ri(1, 3), nr = hs::ri(1, 3);
        for (int i = 0; i < nb; ++i) { bs.push_back(tm.mk_uninterpreted_constant(types::bool_type)); tm.set_term_name(bs.back(), "b" + std::to_string(i)); }
        for (int i = 0; i < nr; ++i) { rs.push_back(tm.mk_uninterpreted_constant(types::real_type)); tm.set_term_name(rs.back(), "r" + std::to_string(i)); }
        leaves = bs; leaves.insert(leaves.end(), rs.begin(), rs.end());
        for (std::string n : {"pb", "pr", "fb", "fr"}) tm.set_term_name(tm.mk_uninterpreted_constant(n[0] == 'p' ? types::bool_type : types::real_type), n);
        auto konst = [&]() { term_t n = tm.mk_integer_constant(std::to_string(hs::ri(0, 3))); if (hs::coin()) n = tm.mk_unary_minus(n); if (hs::coin(3)) n = tm.mk_divides(n, tm.mk_integer_constant(std::to_string(hs::ri(1, 3)))); return n; };
        int steps = hs::ri(2, 14);
        for (int s = 0; s < steps; ++s) {
            auto B = [&]() { term_t x = hs::coin() ? bs.back() : bs[hs::ri(0, bs.size() - 1)]; return hs::coin(3) ? opposite_term(x) : x; };
            auto R = [&]() { return hs::coin(5) ? konst() : hs::coin() ? rs.back() : rs[hs::ri(0, rs.size() - 1)]; };
            std::vector<term_t> a; auto many = [&](auto g, int lo, int hi) { for (int n = hs::ri(lo, hi); n > 0; --n) a.push_back(g()); };
            bool boolean = true; std::string op; term_t r;
            switch (hs::ri(0, uf ? 13 : 11)) {
            case 0: case 1: op = "or"; many(B, 2, 4); break;
            case 2: op = "and"; many(B, 2, 4); break;
            case 3: op = "xor"; many(B, 2, 2); break;
            case 4: op = "ite"; a = {B(), B(), B()}; break;
            case 5: op = "ite"; a = {B(), R(), R()}; boolean = false; break;
            case 6: op = "="; if (hs::coin()) many(B, 2, 2); else many(R, 2, 2); break;
            case 7: op = "<="; many(R, 2, 2); break;
            case 8: op = "<"; many(R, 2, 2); break;
            case 9: op = hs::coin() ? ">" : ">="; many(R, 2, 2); break;
            case 10: op = "+"; many(R, 2, 3); boolean = false; break;
            case 11: op = "-"; many(R, 2, 2); boolean = false; break;
            case 12: op = "p"; many([&]() { return hs::coin(3) ? B() : R(); }, 1, 1); break;
            default: op = "f"; many([&]() { return hs::coin(3) ? B() : R(); }, 1, 1); boolean = false;
            }
            d += "(" + op; for (auto x : a) d += " " + std::to_string(x.x); d += ")"; hs::setcur(d);
            if (op == "p" || op == "f") { op += tm.get_type(a[0]) == types::bool_type ? "b" : "r"; r = tm.mk_app(op, boolean ? types::bool_type : types::real_type, a); } else r = tm.mk_term(op, a);
            d += "=" + std::to_string(r.x) + " "; (boolean ? bs : rs).push_back(r);
        }
        std::vector<term_t> roots; for (int n = hs::ri(1, 2); n > 0; --n) { term_t x = n == 1 ? bs.back() : bs[hs::ri(0, bs.size() - 1)]; roots.push_back(hs::coin(3) ? opposite_term(x) : x); d += "assert " + std::to_string(roots.back().x) + " "; }
        hs::setcur(d);
        auto random_atoms = [&]() { tv::Assign as; for (auto t : leaves) as.val[t.x >> 1] = tm.get_type(t) == types::bool_type ? V(hs::ri(0, 1)) : V(mpq_class(hs::ri(-4, 4), hs::coin(4) ? 2 : 1)); for (auto& [k, v] : as.val) v.canonicalize(); return as; };
        auto holds = [&](tv::Assign const& as) { tv::Eval e{tm, as, {}}; for (auto t : roots) if (e(t) == 0) return false; return true; };
        bool constant = false; for (auto t : roots) if (t == false_term || t == true_term) constant = true;
        if (!constant) {
            struct W { yaga::parser::Internalizer_config cfg; yaga::Yaga y; W(Term_manager& tm) : cfg(tm, y), y(tm, cfg.rational_vars(), cfg.bool_vars()) {} } w(tm);
            yaga::Options o; if (uf) w.y.set_logic(yaga::logic::qf_uflra, o); else w.y.set_logic(yaga::logic::qf_lra, o);
            w.y.init(); terms::Visitor<yaga::parser::Internalizer_config> vis(tm, w.cfg); vis.visit(roots);
            auto& trail = w.y.solver().trail(); int NB = trail.model<bool>(Variable::boolean).num_vars(), NR = trail.model<Rational>(Variable::rational).num_vars();
            Linear_arithmetic* lra = nullptr; for (auto th : dynamic_cast<Theory_combination*>(w.y.solver().theory())->theories()) if (auto l = dynamic_cast<Linear_arithmetic*>(th)) lra = l;
            std::vector<std::pair<term_t, Literal>> bv(w.cfg.bool_vars().begin(), w.cfg.bool_vars().end()); std::vector<std::pair<term_t, int>> rv(w.cfg.rational_vars().begin(), w.cfg.rational_vars().end());
            for (auto t : roots) CHECK(w.cfg.get_literal_for(term_t{t.x & ~1}).has_value(), "an asserted formula has a literal");
            std::vector<char> isatom(NB, 0), ratom(NR, 0), iscons(NB, 0);
            auto atom = [&](term_t t) { auto k = tm.get_kind(t); return k == Kind::UNINTERPRETED_TERM || k == Kind::APP_TERM; };
            for (auto& [t, l] : bv) if (atom(t)) isatom[l.var().ord()] = 1;
            for (auto& [t, v] : rv) if (atom(t)) ratom[v] = 1;
            auto cons = [&](int i) { return lra->constraint(Literal{i}); };
            std::vector<int> aux, raux;
            for (int i = 0; i < NB; ++i) { iscons[i] = !cons(i).empty(); if (!iscons[i] && !isatom[i]) aux.push_back(i); }
            for (int i = 0; i < NR; ++i) if (!ratom[i]) raux.push_back(i);
            for (int trial = 0; trial < 6; ++trial) {
                auto as = random_atoms(); tv::Eval e{tm, as, {}}; std::string dd = d; for (auto& [k, v] : as.val) dd += " " + std::to_string(k) + ":=" + v.get_str(); hs::setcur(dd);
                std::vector<int> b(NB, 0); std::vector<V> r(NR);
                auto run = [&]() { // constraints follow, then the clauses
                    for (int i = 0; i < NB; ++i) if (iscons[i]) { auto c = cons(i); V sum = 0; auto cf = c.coef().begin(); for (auto v : c.vars()) sum += rat::val(*cf++) * r[v]; V rhs = rat::val(c.rhs());
                        bool v = c.pred() == Order_predicate::eq ? sum == rhs : c.pred() == Order_predicate::lt ? sum < rhs : sum <= rhs; b[i] = v; }
                    for (auto& cl : w.y.solver().db().asserted()) { bool ok = false; for (auto l : cl) ok = ok || (b[l.var().ord()] != 0) != l.is_negation(); if (!ok) return false; }
                    return true; };
                for (auto& [t, v] : rv) r[v] = e(t);
                for (auto& [t, l] : bv) b[l.var().ord()] = (e(t) != 0) != l.is_negation();
                CHECK(run(), "the clauses hold when every variable has the value of what it stands for");
                for (auto& [t, l] : bv) CHECK((b[l.var().ord()] != 0) == ((e(t) != 0) != l.is_negation()), "the literal of a formula has its value");
                auto b0 = b; auto r0 = r; std::vector<V> cand; for (auto t : rs) cand.push_back(e(t)); cand.push_back(V(5)); cand.push_back(V(-1) / 3);
                size_t total = 1; for (auto x : aux) { (void) x; total = std::min<size_t>(total * 2, 100000); } 
                int tries = std::min<size_t>(raux.empty() ? total : 300, 300);
                for (int k = 0; k < tries; ++k) {
                    b = b0; r = r0;
                    if (raux.empty() && total <= 300) { for (size_t q = 0; q < aux.size(); ++q) b[aux[q]] = k >> q & 1; }
                    else { for (auto x : aux) if (hs::coin(4)) b[x] ^= 1; for (auto x : raux) if (hs::coin(3)) r[x] = cand[hs::ri(0, cand.size() - 1)]; }
                    if (!run()) continue;
                    for (auto& [t, l] : bv) CHECK((b[l.var().ord()] != 0) == ((e(t) != 0) != l.is_negation()), "the clauses force the literal of a formula to its value");
                    for (auto& [t, v] : rv) CHECK(r[v] == e(t), "the clauses force the variable of an if-then-else to its value");
                }
            }
        }
        hs::setcur(d);
        if (!uf && hs::coin(2)) { // the answer
            yaga::Options o; yaga::parser::Solver_wrapper sw(tm, o); sw.set_logic(yaga::logic::qf_lra); auto ans = sw.check(roots);
            if (ans == yaga::Solver_answer::SAT) { Visitor_values v; sw.model(v); tv::Assign as; as.val = v.val; CHECK(holds(as), "the model satisfies the formulas"); }
            else { CHECK(ans == yaga::Solver_answer::UNSAT, "an answer"); for (int k = 0; k < 60; ++k) CHECK(!holds(random_atoms()), "unsatisfiable formulas have no model"); }
        }
        hs::begin_case(d);
    }
    return hs::done();
}
