// C20: polynomial operations against maps from variables to GMP rationals
#include "term.h"
#include "sat.h"
#include "Linear_polynomial.h"
#include "Lra_conflict_analysis.h"
using Map = std::map<int, mpq_class>;
static mpq_class q() { mpq_class r(hs::ri(-3, 3)); if (hs::coin(3)) r /= hs::ri(1, 4); if (hs::coin(8)) r *= mpq_class("1000000000000"); r.canonicalize(); return r; }
static mpq_class nz() { for (;;) { auto r = q(); if (r != 0) return r; } }
static void drop(Map& m) { for (auto it = m.begin(); it != m.end();) if (it->second == 0) it = m.erase(it); else ++it; }
static std::string str(Map const& m) { std::string s; for (auto& [k, v] : m) s += " " + v.get_str() + "*x" + std::to_string(k); return s.empty() ? " 0" : s; }

using Poly = Polynomial<term_t>;
static Map map_of(Poly const& p, bool sorted = true)
{
    Map m; int last = -2;
    for (auto const& t : p) { CHECK(!m.count(t.var.x), "a variable occurs twice in a polynomial"); if (sorted) CHECK(t.var.x > last, "variables of a polynomial are not in increasing order"); last = t.var.x; m[t.var.x] = rat::val(t.coeff); }
    return m;
}
static void terms_poly()
{
    int nv = hs::ri(1, 12); std::string d; std::vector<Poly> ps(3); std::vector<Map> ms(3);
    auto X = [&] { int v = hs::ri(-1, nv - 1); return v < 0 ? term_t{-1} : term_t{2 * v + 6}; };
    int steps = hs::ri(3, 40);
    for (int s = 0; s < steps; ++s) {
        int i = hs::ri(0, 2), op = hs::ri(0, 9); Poly& p = ps[i]; Map& m = ms[i];
        d += "\n" + std::to_string(op) + " on p" + std::to_string(i) + ":" + str(m);
        if (op <= 2) { term_t x = X(); if (m.count(x.x)) continue; auto c = nz(); d += " add " + c.get_str() + "*x" + std::to_string(x.x); hs::setcur(d); p.add_term(x, rat::mk(c)); m[x.x] = c; }
        else if (op <= 5) { int j = (i + hs::ri(1, 2)) % 3; auto c = hs::coin(3) ? mpq_class(hs::coin() ? 1 : -1) : nz(); d += " merge " + c.get_str() + " *" + str(ms[j]); hs::setcur(d);
            Map before = ms[j];
            if (hs::coin(3)) { std::vector<Poly::poly_t::value_type> tmp; std::set<int> added, removed;
                int n0 = hs::ri(0, 3); Poly junk; for (int k = 0; k < n0; ++k) junk.add_term(term_t{2 * k + 100}, rat::mk(7)); for (auto& t : junk) tmp.push_back(t);
                Map old = m;
                p.merge(ps[j], rat::mk(c), tmp, [&](term_t v) { added.insert(v.x); }, [&](term_t v) { removed.insert(v.x); });
                for (auto& [k, v] : before) { CHECK((added.count(k) != 0) == !old.count(k), "a variable was reported as added wrongly"); CHECK((removed.count(k) != 0) == (old.count(k) && old[k] + c * v == 0), "a variable was reported as removed wrongly"); }
                for (auto k : added) CHECK(before.count(k), "added a variable of neither"); for (auto k : removed) CHECK(before.count(k), "removed a variable of neither");
            } else p.merge(ps[j], rat::mk(c));
            for (auto& [k, v] : before) m[k] += c * v; drop(m);
            CHECK(map_of(ps[j]) == before, "the operand of a merge changed"); }
        else if (op == 6) { hs::setcur(d + " negate"); p.negate(); for (auto& [k, v] : m) v = -v; }
        else if (op == 7) { auto c = nz(); hs::setcur(d + " * " + c.get_str()); p.multiply_by(rat::mk(c)); for (auto& [k, v] : m) v *= c; }
        else if (op == 8) { auto c = nz(); hs::setcur(d + " / " + c.get_str()); p.divide_by(rat::mk(c)); for (auto& [k, v] : m) v /= c; }
        else { if (m.empty()) continue; auto it = m.begin(); std::advance(it, hs::ri(0, m.size() - 1)); hs::setcur(d + " remove x" + std::to_string(it->first)); auto c = p.remove_var(term_t{it->first}); CHECK(rat::val(c) == it->second, "removing a variable returned another coefficient"); m.erase(it); }
        Map g = map_of(p);
        CHECK(g == m, "a polynomial is" + str(g) + " and should be" + str(m));
        CHECK(p.size() == m.size(), "size"); term_t x = X(); CHECK(p.contains(x) == (m.count(x.x) != 0), "contains"); 
    }
    hs::begin_case(d);
}
static Map map_of(utils::Linear_polynomial const& p) { Map m; CHECK(p.vars.size() == p.coef.size(), "as many coefficients as variables"); for (size_t i = 0; i < p.vars.size(); ++i) { CHECK(!m.count(p.vars[i]), "a variable occurs twice in a polynomial"); m[p.vars[i]] = rat::val(p.coef[i]); } m[-1] = rat::val(p.constant); return m; }
static utils::Linear_polynomial make(int nv) { utils::Linear_polynomial p; for (int v = 0; v < nv; ++v) if (hs::coin()) { int at = hs::ri(0, p.vars.size()); p.vars.insert(p.vars.begin() + at, v); p.coef.insert(p.coef.begin() + at, rat::mk(nz())); } p.constant = rat::mk(q()); return p; }
static void utils_poly()
{
    int nv = hs::ri(1, 8); auto p = make(nv); std::string d; int steps = hs::ri(1, 6);
    for (int s = 0; s < steps; ++s) {
        Map m = map_of(p); int op = hs::ri(0, 4); d += "\n" + str(m) + " op " + std::to_string(op);
        if (op <= 1) { auto o = make(nv); Map b = map_of(o); d += " with" + str(b); hs::setcur(d); if (op == 0) p.add(std::move(o)); else p.sub(std::move(o)); for (auto& [k, v] : b) m[k] += op == 0 ? v : mpq_class(-v); }
        else if (op == 2) { hs::setcur(d); p.negate(); for (auto& [k, v] : m) v = -v; }
        else if (op == 3) { int x = nv + 10 + s; hs::setcur(d); p.subtract_var(Variable(x, Variable::rational)); m[x] = -1; }
        else { Event_dispatcher ed; Trail t{ed}; t.set_model<Rational>(Variable::rational, nv + 20); std::vector<int> lv(nv + 20, 1 << 30);
            for (int x = 0; x < nv; ++x) if (hs::coin()) { Variable v(x, Variable::rational); auto& mo = t.model<Rational>(Variable::rational); mo.set_value(x, rat::mk(1)); t.decide(v); }
            hs::setcur(d); p.sort(t); for (size_t i = 1; i < p.vars.size(); ++i) { auto l = [&](int x) { return *t.decision_level(Variable(x, Variable::rational)); }; auto o = [&](int x) { return t.decision_level(Variable(x, Variable::rational)); }; (void) l; CHECK(!(o(p.vars[i]) > o(p.vars[i - 1])), "not sorted by decision level"); } }
        Map c = m[-1] == 0 ? m : m; auto g = map_of(p); mpq_class k = m[-1]; drop(m); m[-1] = k;
        CHECK(g == m, "a polynomial is" + str(g) + " and should be" + str(m));
        for (auto& v : p.coef) CHECK(rat::val(v) != 0, "a coefficient is zero");
    }
    hs::begin_case(d);
}
static void lra_poly()
{
    detail::Linear_polynomial<Rational> p; Map m; int n = hs::ri(0, 12), nv = hs::ri(1, 6);
    for (int i = 0; i < n; ++i) { int x = hs::ri(0, nv - 1); auto c = q(); p.variables.push_back({x, rat::mk(c)}); m[x] += c; }
    if (hs::coin()) { auto c = nz(); if (hs::coin()) { p.variables.push_back({0, rat::mk(c)}); p.variables.push_back({0, rat::mk(-c)}); } }
    std::string d = "normalize"; for (auto& [x, c] : p.variables) d += " " + rat::val(c).get_str() + "*x" + std::to_string(x);
    hs::setcur(d); p.constant = rat::mk(q()); auto k = rat::val(p.constant);
    p.normalize(); drop(m); Map g;
    for (auto& [x, c] : p.variables) { CHECK(!g.count(x), "a variable occurs twice after normalization"); CHECK(!(c == 0), "a zero coefficient after normalization"); g[x] = rat::val(c); }
    CHECK(g == m, "normalized to" + str(g) + " instead of" + str(m)); CHECK(rat::val(p.constant) == k, "the constant changed");
    hs::begin_case(d);
}
static void convert()
{
    Term_manager tm; std::vector<term_t> xs; int n = hs::ri(1, 8); for (int i = 0; i < n; ++i) xs.push_back(tm.mk_uninterpreted_constant(types::real_type));
    for (int r = 0; r < 10; ++r) {
        Poly p; Map m; bool all = hs::coin();
        if (hs::coin()) { auto c = nz(); p.add_term(term_t{-1}, rat::mk(c)); m[-1] = c; }
        for (auto x : xs) if (all || hs::coin()) { auto c = hs::coin(3) ? mpq_class(1) : nz(); p.add_term(x, rat::mk(c)); m[x.x] = c; }
        hs::setcur("term of" + str(m));
        term_t t = tm.poly_to_term(p); Map g = map_of(tm.term_to_poly(t));
        CHECK(g == m, "the polynomial of the term is" + str(g));
        tv::Assign as; for (auto x : xs) as.val[x.x >> 1] = q(); tv::Eval ev{tm, as, {}}; mpq_class v = 0; for (auto& [k, c] : m) v += c * (k == -1 ? mpq_class(1) : as.val[k >> 1]);
        CHECK(ev(t) == v, "the term has another value");
        CHECK(tm.poly_to_term(tm.term_to_poly(t)) == t, "converting forth and back gives another term");
        hs::begin_case("term of" + str(m));
    }
}
int main(int argc, char** argv)
{
    hs::init(argc, argv);
    while (hs::more()) switch (hs::ri(0, 3)) { case 0: terms_poly(); break; case 1: utils_poly(); break; case 2: lra_poly(); break; default: convert(); }
    return hs::done();
}
