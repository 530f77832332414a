// runs the real search loop on random problems with the real plugins inside an observer that checks the protocol
#define LRA_NO_MAIN
#define LRA_PROP 25
#include "lra.h"
#include "Solver.h"
#include "Bool_theory.h"
#include "Theory_combination.h"
#include "First_unassigned.h"
#include "Evsids.h"
#include "Generalized_vsids.h"
#include "Restart.h"
static std::string d;
static long rounds; static bool asked, said;
struct Rnd final : Restart { int k; Rnd(int k) : k(k) {} bool should_restart() const override { asked = true; return said = k > 0 && hs::coin(k); } };
struct Order final : Variable_order { std::unique_ptr<Variable_order> in; std::optional<Variable> last; bool called = false; Event_dispatcher ed;
    void on_init(Database& b, Trail& t) override { in->on_init(b, t); }
    void on_variable_resize(Variable::Type y, int n) override { in->on_variable_resize(y, n); }
    void on_before_backtrack(Database& b, Trail& t, int l) override { in->on_before_backtrack(b, t, l); }
    void on_learned_clause(Database& b, Trail& t, Clause const& c) override { in->on_learned_clause(b, t, c); }
    void on_conflict_resolved(Database& b, Trail& t, Clause const& c) override { in->on_conflict_resolved(b, t, c); }
    void on_restart(Database& b, Trail& t) override { in->on_restart(b, t); }
    bool is_before(Variable a, Variable b) const override { return in->is_before(a, b); }
    std::optional<Variable> pick(Database& b, Trail& t) override { last = in->pick(b, t); called = true; return last; } };
static Clause canon(Clause c) { std::sort(c.begin(), c.end(), [](auto a, auto b) { return std::pair(a.var().ord(), a.is_negation()) < std::pair(b.var().ord(), b.is_negation()); }); return c; }
struct Spy final : Theory {
    Theory_combination in; Order* ord = nullptr; Conflict_analysis an; Subsumption sub; int nl = 0;
    bool conflict = false, restarted = false, back = false; int conflict_level = 0, exp_level = 0, dec_level = 0; bool empty = false, split = false, final_zero = false;
    std::vector<Clause> expd, got; std::vector<Clause const*> res_e, res_g, ptr; Variable decide_var{0, Variable::boolean}; bool deciding = false;
    std::vector<int> dec_at; std::vector<std::pair<int, bool>> value;
    void on_init(Database& b, Trail& t) override { in.on_init(b, t); sub.on_variable_resize(Variable::boolean, t.model<bool>(Variable::boolean).num_vars()); }
    void on_variable_resize(Variable::Type y, int n) override { in.on_variable_resize(y, n); sub.on_variable_resize(y, n); }
    void on_learned_clause(Database& b, Trail& t, Clause const& c) override
    {
        CHECK(conflict && !back, "a clause is learned after a conflict"); CHECK(!b.learned().empty() && &b.learned().back() == &c, "the learned clause is in the database"); got.push_back(c); ptr.push_back(&c);
        in.on_learned_clause(b, t, c);
    }
    void on_conflict_resolved(Database& b, Trail& t, Clause const& c) override { CHECK(conflict && !back, "resolution happens after a conflict"); res_g.push_back(&c); in.on_conflict_resolved(b, t, c); }
    void on_before_backtrack(Database& b, Trail& t, int l) override
    {
        CHECK(conflict && !back, "the search returns only after a conflict"); back = true;
        std::multiset<Clause> x, y; for (auto& c : expd) x.insert(canon(c)); for (auto& c : got) y.insert(canon(c)); CHECK(x == y, "the clauses of the lowest level are learned, each once"); CHECK(res_e == res_g, "every resolution is reported");
        CHECK(asked, "the restart policy is asked"); restarted = said;
        CHECK(l == (restarted ? 0 : exp_level), "the search returns to the level computed"); CHECK(!got.empty(), "something is learned");
        split = got[0].size() > 1 && t.decision_level(got[0][0].var()) == t.decision_level(got[0][1].var());
        dec_at.clear(); value.clear(); for (auto& c : got) { if (!split || value.empty()) value.push_back({c[0].var().ord(), !c[0].is_negation()}); }
        if (split) { value.clear(); int top = *t.decision_level(got[0][0].var()); for (auto q : got[0]) if (*t.decision_level(q.var()) == top) value.push_back({q.var().ord(), !q.is_negation()}); }
        in.on_before_backtrack(b, t, l);
    }
    void on_restart(Database& b, Trail& t) override { CHECK(conflict && back && restarted, "restart"); in.on_restart(b, t); }
    std::vector<Clause> propagate(Database& b, Trail& t) override
    {
        auto& m = t.model<bool>(Variable::boolean); ++rounds;
        if (conflict) {
            CHECK(back, "the search returns after a conflict"); int dl = t.decision_level();
            if (restarted) CHECK(dl == 0 && t.empty(), "nothing is assigned after a restart");
            else if (split) {
                CHECK(dl == exp_level + 1, "one literal of a split is decided"); int n = 0;
                for (auto [v, val] : value) if (m.is_defined(v) && t.decision_level(Variable{v, Variable::boolean}) == dl) { ++n; CHECK(m.value(v) == val && t.reason(Variable{v, Variable::boolean}) == nullptr, "the decided literal of a split is true"); }
                CHECK(n == 1 && t.assigned(dl).size() == 1, "one literal of a split is decided");
            } else {
                CHECK(dl == exp_level, "the search is at the level computed");
                for (auto [v, val] : value) {
                    CHECK(m.is_defined(v) && *t.decision_level(Variable{v, Variable::boolean}) <= dl, "the literal forced by a learned clause is assigned");
                    auto r = t.reason(Variable{v, Variable::boolean}); CHECK(std::find(ptr.begin(), ptr.end(), r) != ptr.end(), "with a learned clause as reason"); Clause rc = *r;
                    CHECK(rc[0] == sat::lit(v, m.value(v)), "the reason starts with the literal"); for (size_t i = 1; i < rc.size(); ++i) CHECK(m.is_defined(rc[i].var().ord()) && m.value(rc[i].var().ord()) == rc[i].is_negation(), "the rest of the reason is false");
                }
            }
        } else if (deciding) { CHECK(t.decision_level() == dec_level + 1, "a decision starts a level"); CHECK(t.decision_level(decide_var) == t.decision_level(), "the picked variable is decided"); }
        conflict = back = deciding = asked = said = false; got.clear(); expd.clear(); res_e.clear(); res_g.clear(); ptr.clear(); if (ord) ord->called = false;
        int dl0 = t.decision_level(); std::vector<bool> was; for (int v = 0; v < (int) m.num_vars(); ++v) was.push_back(m.is_defined(v));
        auto r = in.propagate(b, t); CHECK(t.decision_level() == dl0, "propagation keeps the level");
        if (std::getenv("LATE")) for (int v = 0; v < (int) was.size(); ++v) if (!was[v] && m.is_defined(v) && *t.decision_level(Variable{v, Variable::boolean}) < dl0) std::printf("LATE v%d reason %p level %d of %d old %d\n", v, (void*) t.reason(Variable{v, Variable::boolean}), *t.decision_level(Variable{v, Variable::boolean}), dl0, (int) was.size());
        if (!r.empty()) {
            conflict = true; conflict_level = t.decision_level(); empty = false; exp_level = INT_MAX; final_zero = conflict_level == 0;
            if (!final_zero) {
                for (auto c : r) {
                    auto [k, lev] = an.analyze(t, Clause(c), [&](auto& o) { res_e.push_back(&o); }); if (!k.empty()) sub.minimize(t, k); if (lev < exp_level) { exp_level = lev; expd.clear(); } if (lev == exp_level) expd.push_back(k);
                }
                for (auto& k : expd) empty |= k.empty();
                auto sp = [&](Clause const& k) { return k.size() > 1 && t.decision_level(k[0].var()) == t.decision_level(k[1].var()); };
                if (std::any_of(expd.begin(), expd.end(), [&](auto& k) { return !sp(k); })) std::erase_if(expd, sp);
                std::set<Clause> u; std::vector<Clause> w; for (auto& k : expd) if (u.insert(k).second) w.push_back(k); expd = w;
            }
        }
        return r;
    }
    void decide(Database& b, Trail& t, Variable v) override
    {
        CHECK(!conflict, "no decision after a conflict"); CHECK(ord->called && ord->last && *ord->last == v, "the picked variable is decided"); CHECK(!t.decision_level(v), "the picked variable is unassigned");
        deciding = true; decide_var = v; dec_level = t.decision_level(); in.decide(b, t, v);
    }
};
int main(int argc, char** argv)
{
    hs::init(argc, argv); std::signal(SIGVTALRM, lra::on_time); terms::Term_manager tm;
    while (hs::more()) {
        bool real = hs::coin(); int nv = hs::ri(real ? 0 : 1, real ? 3 : 9), n = real ? hs::ri(1, 3) : 0; d = real ? "lra" : "bool"; Solver s(tm);
        s.trail().set_model<bool>(Variable::boolean, 0); if (real) s.trail().set_model<Rational>(Variable::rational, 0);
        auto& spy = s.set_theory<Spy>(); auto& bt = spy.in.add_theory<Bool_theory>(); bt.set_phase(std::array{Phase::positive, Phase::negative, Phase::cache}[hs::ri(0, 2)]);
        Linear_arithmetic* la = nullptr; Linear_arithmetic::Options o; if (real) { la = &spy.in.add_theory<Linear_arithmetic>(); o.prop_bounds = hs::coin(); o.prop_rational = hs::coin(); la->set_options(o); }
        auto& ord = s.set_variable_order<Order>(); spy.ord = &ord; int vo = hs::ri(0, 2);
        if (vo == 0) ord.in = std::make_unique<First_unassigned>(); else if (real) ord.in = std::make_unique<Generalized_vsids>(*la); else if (vo == 1) ord.in = std::make_unique<Evsids>(); else ord.in = std::make_unique<First_unassigned>(Variable::boolean);
        int rk = hs::coin() ? 0 : hs::ri(3, 12); s.set_restart_policy<Rnd>(rk); d += " restart=" + std::to_string(rk) + " order=" + std::to_string(vo) + (o.prop_bounds ? " deduce" : "") + (o.prop_rational ? " eff" : "");
        if (real) s.trail().resize(Variable::rational, n); s.trail().resize(Variable::boolean, nv);
        std::vector<int> atoms; for (int v = 0; v < nv; ++v) atoms.push_back(v); int m = real ? hs::ri(1, hs::coin() ? 5 : 9) : 0, rng = hs::ri(1, 6);
        lra::Sim* sim = nullptr; (void) sim;
        for (int k = 0; k < m; ++k) {
            std::vector<int> v(n); std::iota(v.begin(), v.end(), 0); std::shuffle(v.begin(), v.end(), hs::rng); v.resize(hs::ri(1, n)); std::vector<Rational> c; for (size_t i = 0; i < v.size(); ++i) { long q = 0; while (!q) q = hs::ri(-3, 3); c.push_back(Rational((int) q)); }
            auto l = la->constraint(s.trail(), v, c, hs::coin(4) ? Order_predicate::eq : hs::coin() ? Order_predicate::lt : Order_predicate::leq, Rational((int) hs::ri(-rng, rng))).lit();
            if (std::find(atoms.begin(), atoms.end(), l.var().ord()) == atoms.end()) atoms.push_back(l.var().ord());
        }
        int nb = s.trail().model(Variable::boolean).num_vars();
        auto lin = [&](Literal l) { auto c = la->constraint(l.var().ord()); lra::Lin r; r.a.resize(n); auto k = c.coef().begin(); for (auto v : c.vars()) r.a[v] = rat::val(*k++); r.c = -rat::val(c.rhs()); r.k = c.pred() == Order_predicate::eq ? lra::Lin::eq : c.pred() == Order_predicate::lt ? lra::Lin::lt : lra::Lin::le; if (c.lit() != l) r = lra::neg(r); return r; };
        auto isc = [&](int b) { return la && !la->constraint(b).empty(); };
        for (int b = 0; b < nb; ++b) if (isc(b)) d += " b" + std::to_string(b) + ":" + lra::s(lin(sat::lit(b)));
        std::vector<Clause> cs; int len = hs::ri(1, 4);
        for (int k = hs::ri(0, real ? 3 * (int) atoms.size() : hs::coin() ? 60 : 25); k > 0; --k) { auto a = atoms; std::shuffle(a.begin(), a.end(), hs::rng); Clause c; int z = std::min<int>(a.size(), hs::coin(4) ? hs::ri(1, len) : std::max(1, len)); for (int i = 0; i < z; ++i) c.push_back(sat::lit(a[i], hs::coin())); cs.push_back(c); s.db().assert_clause(c); d += " " + sat::s(c); }
        hs::begin_case(d, cs.size() > 1);
        Solver::Result res; { lra::Limit z; res = s.check(); }
        if (res == Solver::Result::unsat) {
            CHECK(spy.conflict && !spy.back && (spy.final_zero || spy.empty), "unsat is answered at a conflict of level zero or an empty learned clause");
            if (nb <= 14) for (unsigned a = 0; a < (1u << nb); ++a) {
                bool ok = true; for (auto& c : cs) if (!sat::sat(c, a)) { ok = false; break; } if (!ok) continue;
                if (!real) hs::fail("unsat but there is a satisfying assignment");
                std::vector<lra::Lin> f; for (int b = 0; b < nb; ++b) if (isc(b)) f.push_back(lin(sat::lit(b, (a >> b) & 1))); CHECK(lra::unsat(f) != 0, "unsat but there is a satisfying assignment");
            }
        } else {
            CHECK(!spy.conflict && !spy.deciding && ord.called && !ord.last, "sat is answered when nothing is left to decide");
            for (auto [ty, mo] : s.trail().models()) for (int v = 0; v < (int) mo->num_vars(); ++v) CHECK(mo->is_defined(v), "every variable has a value when sat is answered");
            auto& mb = s.trail().model<bool>(Variable::boolean);
            for (auto& c : cs) { bool t = false; for (auto l : c) t |= mb.value(l.var().ord()) != l.is_negation(); CHECK(t, "the model satisfies the asserted clauses"); }
            if (real) { auto& mr = s.trail().model<Rational>(Variable::rational); for (int b = 0; b < (int) mb.num_vars(); ++b) if (isc(b)) { auto l = lin(sat::lit(b, mb.value(b))); mpq_class r = l.c; for (int v = 0; v < n; ++v) r += l.a[v] * rat::val(mr.value(v)); CHECK(l.k == 0 ? r < 0 : l.k == 1 ? r <= 0 : l.k == 2 ? r == 0 : r != 0, "the model satisfies the constraints"); } }
        }
    }
    if (std::getenv("LATE")) std::printf("rounds %ld\n", rounds);
    return hs::done();
}
