// random histories of linear arithmetic on the real plugin and trail; oracles use exact rationals of GMP.
// LRA_PROP selects which property is checked (11 bounds, 12 conflict clauses and propagations, 13 decisions)
#include "rat.h"
#include "sat.h"
#include <sys/time.h>
#include "Linear_arithmetic.h"
namespace lra {
using rat::val;
// sum of coef * x + c  {<, <=, =, !=} 0
struct Lin { std::vector<mpq_class> a; mpq_class c; int k; enum { lt, le, eq, ne }; };
inline std::string s(Lin const& l) { std::string r; for (size_t i = 0; i < l.a.size(); ++i) if (l.a[i] != 0) r += l.a[i].get_str() + "x" + std::to_string(i) + "+"; static char const* n[] = {"<0", "<=0", "=0", "!=0"}; return r + l.c.get_str() + n[l.k]; }
inline bool trivially_false(Lin const& l) { for (auto& x : l.a) if (x != 0) return false; int g = sgn(l.c); return l.k == Lin::lt ? g >= 0 : l.k == Lin::le ? g > 0 : l.k == Lin::eq ? g != 0 : g == 0; }
inline Lin neg(Lin l)
{
    if (l.k == Lin::eq) l.k = Lin::ne; else if (l.k == Lin::ne) l.k = Lin::eq;
    else { for (auto& x : l.a) x = -x; l.c = -l.c; l.k = l.k == Lin::lt ? Lin::le : Lin::lt; }
    return l;
}
// 1 unsatisfiable, 0 satisfiable, -1 given up
inline int unsat(std::vector<Lin> cs, int depth = 0)
{
    for (size_t i = 0; i < cs.size(); ++i) if (trivially_false(cs[i])) return 1;
    for (size_t i = 0; i < cs.size(); ++i) if (cs[i].k == Lin::ne) {
        if (depth > 8) return -1;
        Lin l = cs[i]; l.k = Lin::lt; cs[i] = l; int r = unsat(cs, depth + 1); if (r != 1) return r;
        for (auto& x : l.a) x = -x; l.c = -l.c; cs[i] = l; return unsat(cs, depth + 1);
    }
    if (cs.empty()) return 0;
    int n = cs[0].a.size();
    for (int v = 0; v < n; ++v) {
        int e = -1; for (size_t i = 0; i < cs.size(); ++i) if (cs[i].k == Lin::eq && cs[i].a[v] != 0) e = i;
        std::vector<Lin> out;
        auto comb = [&](Lin const& p, mpq_class const& f, Lin const& q, mpq_class const& g, int k) { Lin r; r.k = k; r.c = p.c * f + q.c * g; r.a.resize(n); for (int i = 0; i < n; ++i) r.a[i] = p.a[i] * f + q.a[i] * g; if (trivially_false(r)) return true; bool any = false; for (auto& x : r.a) any |= x != 0; if (any) out.push_back(r); return false; };
        if (e >= 0) { Lin q = cs[e]; for (size_t i = 0; i < cs.size(); ++i) if ((int) i != e) if (comb(cs[i], 1, q, -cs[i].a[v] / q.a[v], cs[i].k)) return 1; }
        else {
            for (auto& l : cs) if (l.a[v] == 0) out.push_back(l);
            for (auto& p : cs) if (p.a[v] > 0) for (auto& q : cs) if (q.a[v] < 0) if (comb(p, -q.a[v], q, p.a[v], p.k == Lin::lt || q.k == Lin::lt ? Lin::lt : Lin::le)) return 1;
        }
        if (out.size() > 400) return -1;
        cs = std::move(out);
    }
    return 0;
}
struct Limit { Limit() { itimerval t{}; t.it_value.tv_sec = 10; setitimer(ITIMER_VIRTUAL, &t, nullptr); } ~Limit() { itimerval t{}; setitimer(ITIMER_VIRTUAL, &t, nullptr); } };
inline void on_time(int) { hs::fail("the code under test did not return within 10 s of processor time"); }

struct Sim;
inline std::function<void(Sim&)> on_start, on_step;
struct Sim {
    Event_dispatcher ed; Trail t{ed}; Linear_arithmetic lra; Database db; Linear_arithmetic::Options o; int n; Model<bool>* mb; Model<Rational>* mr; std::string d;
    std::map<int, bool> known; // boolean variables seen assigned
    Variable bv(int v) { return {v, Variable::boolean}; }
    Variable rv(int v) { return {v, Variable::rational}; }
    Lin lin(Literal l)
    {
        auto c = lra.constraint(l.var().ord()); Lin r; r.a.resize(n);
        auto k = c.coef().begin(); for (auto v : c.vars()) r.a[v] = val(*k++);
        r.c = -val(c.rhs()); r.k = c.pred() == Order_predicate::eq ? Lin::eq : c.pred() == Order_predicate::lt ? Lin::lt : Lin::le;
        if (c.lit() != l) r = neg(r);
        return r;
    }
    int nb() { return mb->num_vars(); }
    bool iscons(int b) { return !lra.constraint(b).empty(); }
    bool full(Lin const& l) { for (int v = 0; v < n; ++v) if (l.a[v] != 0 && !mr->is_defined(v)) return false; return true; }
    mpq_class x(int v) { return val(mr->value(v)); }
    bool holds(Lin const& l) { mpq_class r = l.c; for (int v = 0; v < n; ++v) if (l.a[v] != 0) r += l.a[v] * x(v); return l.k == Lin::lt ? r < 0 : l.k == Lin::le ? r <= 0 : l.k == Lin::eq ? r == 0 : r != 0; }
    // constraints assigned true, and values of real variables as equations
    std::vector<Lin> facts() {
        std::vector<Lin> r; for (int b = 0; b < nb(); ++b) if (mb->is_defined(b) && iscons(b)) r.push_back(lin(sat::lit(b, mb->value(b))));
        for (int v = 0; v < n; ++v) if (mr->is_defined(v)) { Lin l; l.a.resize(n); l.a[v] = 1; l.c = -x(v); l.k = Lin::eq; r.push_back(l); }
        return r;
    }
    struct B { bool has = false; mpq_class v; bool strict = false; };
    // strongest bounds and forbidden values of v implied by one true constraint whose other variables are assigned
    void unit(int v, B& lo, B& up, std::set<mpq_class>& ne)
    {
        for (int b = 0; b < nb(); ++b) if (mb->is_defined(b) && iscons(b)) {
            Lin l = lin(sat::lit(b, mb->value(b))); if (l.a[v] == 0) continue; bool un = true; mpq_class r = l.c;
            for (int w = 0; w < n; ++w) if (w != v && l.a[w] != 0) { if (!mr->is_defined(w)) un = false; else r += l.a[w] * x(w); }
            if (!un) continue;
            mpq_class q = -r / l.a[v];
            if (l.k == Lin::ne) { ne.insert(q); continue; }
            bool st = l.k == Lin::lt;
            auto tl = [&] { if (!lo.has || q > lo.v) lo = {true, q, st}; else if (q == lo.v && st) lo.strict = true; };
            auto tu = [&] { if (!up.has || q < up.v) up = {true, q, st}; else if (q == up.v && st) up.strict = true; };
            if (l.k == Lin::eq) tl(), tu(); else if (l.a[v] > 0) tu(); else tl();
        }
    }
    static bool in(B const& lo, B const& up, std::set<mpq_class> const& ne, mpq_class const& q) { return !(lo.has && (q < lo.v || (q == lo.v && lo.strict))) && !(up.has && (q > up.v || (q == up.v && up.strict))) && !ne.count(q); }

    Sim()
    {
        std::signal(SIGVTALRM, on_time);
        n = hs::ri(1, hs::coin() ? 3 : 5); ed.add(&lra);
        if (on_start) on_start(*this);
        mb = &t.set_model<bool>(Variable::boolean, 0); mr = &t.set_model<Rational>(Variable::rational, 0);
        o.prop_bounds = hs::coin(); o.prop_unassigned = hs::coin(4); o.prop_rational = hs::coin(); lra.set_options(o);
        d = "vars=" + std::to_string(n) + (o.prop_bounds ? " deduce" : "") + (o.prop_unassigned ? " unassigned" : "") + ":";
        t.resize(Variable::rational, n);
        int m = hs::ri(1, hs::coin() ? 6 : 14), wide = hs::ri(1, n), rng = hs::coin(4) ? 40 : hs::ri(1, 6), eqs = hs::ri(2, 6);
        for (int k = 0; k < m; ++k) {
            std::vector<int> v(n); std::iota(v.begin(), v.end(), 0); std::shuffle(v.begin(), v.end(), hs::rng);
            v.resize(hs::coin(3) ? 1 : hs::ri(1, wide)); std::vector<Rational> c; for (size_t i = 0; i < v.size(); ++i) { long q = 0; while (!q) q = hs::ri(-3, 3); c.push_back(hs::coin(8) ? Rational((int) q, 2u) : Rational((int) q)); }
            auto pred = hs::coin(eqs) ? Order_predicate::eq : hs::coin() ? Order_predicate::lt : Order_predicate::leq;
            Rational rhs = hs::coin(5) ? Rational((int) hs::ri(-rng, rng), (unsigned) hs::ri(1, 4)) : Rational((int) hs::ri(-rng, rng));
            auto cons = lra.constraint(t, v, c, pred, rhs); (void) cons;
        }
        for (int b = 0; b < nb(); ++b) d += " b" + std::to_string(b) + ":" + (iscons(b) ? s(lin(sat::lit(b))) : "-");
        d += " |"; hs::setcur(d); ed.on_init(db, t);
    }
    std::vector<Clause> propagate()
    {
        std::vector<bool> was(nb()); for (int b = 0; b < nb(); ++b) was[b] = mb->is_defined(b);
        int nbefore = nb(); size_t before = t.recent().size(); (void) before; std::vector<bool> rwas(n); for (int v = 0; v < n; ++v) rwas[v] = mr->is_defined(v);
        hs::begin_case(d + " propagate"); std::vector<Clause> conf; { Limit z; conf = lra.propagate(db, t); }
#if LRA_PROP == 12
        for (int v = 0; v < n; ++v) CHECK(rwas[v] == mr->is_defined(v), "real variables are not assigned by propagation");
        for (int b = 0; b < nbefore; ++b) {
            if (was[b]) CHECK(mb->is_defined(b), "assigned variables stay assigned");
            CHECK(mb->is_defined(b) == t.decision_level(bv(b)).has_value(), "on the trail iff it has a value");
        }
        for (int b = 0; b < nb(); ++b) if (mb->is_defined(b) && (b >= nbefore || !was[b])) {
            CHECK(iscons(b), "only constraints are propagated");
            auto l = lin(sat::lit(b, mb->value(b)));
            if (full(l)) {
                CHECK(holds(l), "a propagated constraint has the value it has under the assignment");
                int lev = 0; for (int v = 0; v < n; ++v) if (l.a[v] != 0) lev = std::max(lev, *t.decision_level(rv(v)));
                if (b >= nbefore || !o.prop_unassigned) CHECK(*t.decision_level(bv(b)) == lev, "a propagated constraint has the level of its latest variable");
            } else { CHECK(b < nbefore && o.prop_unassigned, "a constraint is propagated when its variables are assigned"); }
        }
        for (auto& c : conf) {
            CHECK(!c.empty(), "conflict clause is not empty"); std::vector<Lin> f; std::string cs;
            for (auto l : c) { CHECK(l.var().ord() < nb() && iscons(l.var().ord()), "literals of a conflict clause are constraints"); f.push_back(lin(~l)); cs += " " + sat::s(l) + "[" + s(lin(l)) + "]"; }
            hs::setcur(d + " conflict" + cs);
            for (auto l : c) { CHECK(mb->is_defined(l.var().ord()) && mb->value(l.var().ord()) == l.is_negation(), "a conflict clause is false"); auto q = lin(l); if (full(q)) CHECK(!holds(q), "a literal of a conflict clause is false under the assignment"); }
            CHECK(unsat(f) != 0, "a conflict clause is valid");
        }
        if (o.prop_unassigned) { auto f = facts(); bool bad = false; for (int b = 0; b < nb(); ++b) if (mb->is_defined(b) && (b >= nbefore || !was[b])) {
            std::vector<Lin> g; for (int q = 0; q < nbefore; ++q) if (was[q] && iscons(q)) g.push_back(lin(sat::lit(q, mb->value(q))));
            for (int v = 0; v < n; ++v) if (mr->is_defined(v)) { Lin l; l.a.resize(n); l.a[v] = 1; l.c = -x(v); l.k = Lin::eq; g.push_back(l); }
            g.push_back(lin(sat::lit(b, !mb->value(b)))); if (unsat(g) == 0) bad = true; }
            CHECK(!bad, "a propagated constraint follows from the assigned constraints"); }
#endif
        if (conf.empty()) {
#if LRA_PROP == 12
            for (int b = 0; b < nb(); ++b) if (iscons(b)) { auto l = lin(sat::lit(b)); if (full(l)) { CHECK(mb->is_defined(b), "a constraint whose variables are assigned has a value"); CHECK(mb->value(b) == holds(l), "the value of a constraint is right"); } }
#endif
#if LRA_PROP == 11
            if (!o.prop_unassigned || t.recent().size() == before) check_bounds();
#endif
        }
        return conf;
    }
    void check_bounds()
    {
        auto models = lra.relevant_models(t); std::vector<Lin> f = facts();
        for (int v = 0; v < n; ++v) if (!mr->is_defined(v)) {
            B lo, up; std::set<mpq_class> ne; unit(v, lo, up, ne);
            hs::setcur(d + " bounds of x" + std::to_string(v));
            auto& bs = lra.find_bounds(v); auto pl = bs.lower_bound(models); B l2, u2; if (pl) l2 = {true, val(pl->value()), pl->is_strict()};
            auto pu = bs.upper_bound(models); if (pu) u2 = {true, val(pu->value()), pu->is_strict()};
            if (!o.prop_bounds) {
                CHECK(lo.has == l2.has && (!lo.has || (lo.v == l2.v && lo.strict == l2.strict)), "lower bound is the strongest one implied");
                CHECK(up.has == u2.has && (!up.has || (up.v == u2.v && up.strict == u2.strict)), "upper bound is the strongest one implied");
            } else {
                if (lo.has) CHECK(l2.has && (l2.v > lo.v || (l2.v == lo.v && (l2.strict || !lo.strict))), "lower bound is at least as strong as the strongest one implied");
                if (up.has) CHECK(u2.has && (u2.v < up.v || (u2.v == up.v && (u2.strict || !up.strict))), "upper bound is at least as strong as the strongest one implied");
                auto imp = [&](B const& b, int sign, char const* what) { if (!b.has) return; auto g = f; Lin l; l.a.resize(n); l.a[v] = sign; l.c = -sign * b.v; l.k = b.strict ? Lin::le : Lin::lt; g.push_back(l); CHECK(unsat(g) != 0, what); };
                imp(l2, 1, "lower bound is implied"); imp(u2, -1, "upper bound is implied");
            }
            std::set<mpq_class> probe{0, 1, -1}; for (auto& q : ne) probe.insert(q); for (B const* b : {&lo, &up, &l2, &u2}) if (b->has) for (int e = -1; e < 2; ++e) probe.insert(b->v + mpq_class(e, 3));
            for (auto q : probe) { q.canonicalize(); auto r = rat::mk(q); CHECK(bs.is_allowed(models, r) == in(l2, u2, ne, q), "a value is allowed iff it is within the bounds and not forbidden");
                auto i = bs.inequality(models, r); CHECK((i != nullptr) == (ne.count(q) > 0), "forbidden values"); if (i) CHECK(val(i->value()) == q, "forbidden value"); }
            CHECK(lra.is_effectively_decided(models, v) == (l2.has && u2.has && l2.v == u2.v && !l2.strict && !u2.strict), "effectively decided");
            CHECK(!(l2.has && u2.has) || l2.v < u2.v || (l2.v == u2.v && !l2.strict && !u2.strict && !ne.count(l2.v)), "bounds admit a value when there is no conflict");
        }
    }
    std::vector<int> ub() { std::vector<int> r; for (int b = 0; b < nb(); ++b) if (!mb->is_defined(b)) r.push_back(b); return r; }
    std::vector<int> ur() { std::vector<int> r; for (int v = 0; v < n; ++v) if (!mr->is_defined(v)) r.push_back(v); return r; }
    void set(int b, bool val, int level, bool dec)
    {
        d += (dec ? " d" : " p") + std::to_string(b) + (val ? "+" : "-"); if (dec) t.decide(bv(b)); else { d += "@" + std::to_string(level); t.propagate(bv(b), nullptr, level); }
        mb->set_value(b, val); hs::setcur(d);
    }
    void back(int lev) { d += " back" + std::to_string(lev); hs::setcur(d); ed.on_before_backtrack(db, t, lev); t.backtrack(lev); }
    void decide_real(int v)
    {
        hs::begin_case(d + " decide x" + std::to_string(v)); B lo, up; std::set<mpq_class> ne; unit(v, lo, up, ne); int dl = t.decision_level(); auto f = facts();
        { Limit z; lra.decide(db, t, rv(v)); }
        d += " x" + std::to_string(v) + (mr->is_defined(v) ? "=" + rat::s(x(v)) : "?"); hs::setcur(d);
#if LRA_PROP == 13
        CHECK(mr->is_defined(v), "a decided variable has a value");
        CHECK(t.decision_level() == dl + 1 && t.decision_level(rv(v)) == dl + 1 && t.reason(rv(v)) == nullptr, "the decision starts a new level");
        CHECK(t.assigned(dl + 1).size() == 1 && t.assigned(dl + 1)[0].var == rv(v), "the decision is on the trail");
        CHECK(in(lo, up, ne, x(v)), "the decided value satisfies the bounds and disequalities in force");
#endif
        (void) dl;
    }
    void run()
    {
        for (int step = hs::ri(5, 60); step > 0; --step) {
            auto conf = propagate(); if (o.prop_unassigned) for (size_t z = 0; conf.empty() && z != t.recent().size();) { z = t.recent().size(); conf = propagate(); }
            if (!conf.empty()) {
                if (t.decision_level() == 0) break;
                int top = t.decision_level(); for (auto& c : conf) { int k = 0; for (auto l : c) if (auto q = t.decision_level(l.var())) k = std::max(k, *q); top = std::min(top, k); }
                if (top == 0) break;
                back(hs::coin() ? top - 1 : (int) hs::ri(0, top - 1)); continue;
            }
            if (on_step) on_step(*this);
            int op = hs::ri(0, 11), dl = t.decision_level(); auto b = ub(); auto r = ur();
            if (op == 0 && dl > 0) { if (hs::coin(3)) { d += " restart"; std::vector<std::pair<int, bool>> zero; for (auto [v, _] : t.assigned(0)) zero.push_back({v.ord(), mb->value(v.ord())}); ed.on_before_backtrack(db, t, 0); t.clear(); ed.on_restart(db, t); for (auto [b, val] : zero) set(b, val, 0, false); } else back(hs::ri(0, dl)); }
            else if (op < 4 && !r.empty()) decide_real(r[hs::ri(0, r.size() - 1)]);
            else if (!b.empty()) { for (int k = hs::coin() ? 1 : hs::ri(1, 3), j = 0; k > 0 && !b.empty(); --k, ++j) { int i = hs::ri(0, b.size() - 1); bool dec = j == 0 && hs::coin(); set(b[i], hs::coin(), dl, dec); b.erase(b.begin() + i); if (dec) break; } }
            else if (!r.empty()) decide_real(r[hs::ri(0, r.size() - 1)]);
            else { hs::begin_case(d + " complete"); break; }
        }
    }
};
}
#ifndef LRA_NO_MAIN
int main(int argc, char** argv)
{
    hs::init(argc, argv);
    while (hs::more()) { lra::Sim z; z.run(); }
    return hs::done();
}
#endif
