#include "sat.h"
#include "Bool_theory.h"
#include "Conflict_analysis.h"
#include "Subsumption.h"
using sat::s;
int main(int argc, char** argv)
{
    hs::init(argc, argv);
    while (hs::more()) {
        int n = hs::ri(1, 8); sat::World w(n, 3); Bool_theory th; Conflict_analysis ana; Subsumption sub;
        w.ed.add(&th); w.ed.add(&sub);
        th.set_phase(std::array{Phase::positive, Phase::negative, Phase::cache}[hs::ri(0, 2)]);
        w.ed.on_variable_resize(Variable::boolean, n); w.ed.on_variable_resize(Variable::rational, 3);
        Database db; std::vector<Clause> orig; int maxlen = hs::ri(1, 5);
        for (int k = hs::ri(0, 4 * n); k > 0; --k) {
            std::vector<int> v(n); std::iota(v.begin(), v.end(), 0); std::shuffle(v.begin(), v.end(), hs::rng);
            Clause c; int len = hs::coin(6) ? 1 : hs::ri(1, std::min(n, maxlen)); for (int i = 0; i < len; ++i) c.push_back(sat::lit(v[i], hs::coin()));
            db.assert_clause(c); orig.push_back(c); w.d += " " + s(c);
        }
        w.d += ":"; w.ed.on_init(db, w.t);
        auto& t = w.t; bool theory_assigned = false;
        auto canon = [](Clause c) { std::sort(c.begin(), c.end(), [](auto a, auto b) { return a.var().ord() != b.var().ord() ? a.var().ord() < b.var().ord() : a.is_negation() < b.is_negation(); }); return c; };
        auto all = [&] { std::vector<Clause*> r; for (auto& c : db.asserted()) r.push_back(&c); for (auto& c : db.learned()) r.push_back(&c); return r; };
        for (int step = 0; step < 40; ++step) {
            std::vector<bool> was(n); for (int v = 0; v < n; ++v) was[v] = w.m->is_defined(v);
            std::vector<Clause> cb; for (auto c : all()) cb.push_back(canon(*c));
            hs::begin_case(w.d + " propagate", db.asserted().size() > 1);
            auto conflicts = th.propagate(db, t);
            { std::vector<Clause> ca; for (auto c : all()) ca.push_back(canon(*c)); CHECK(ca == cb, "clauses keep their literals"); }
            auto cl = all();
            for (int v = 0; v < n; ++v) {
                if (was[v]) { CHECK(w.m->is_defined(v), "assigned variables stay assigned"); continue; }
                CHECK(w.m->is_defined(v) == t.decision_level(Variable{v, Variable::boolean}).has_value(), "on the trail iff it has a value");
                if (!w.m->is_defined(v)) continue;
                auto r = t.reason(Variable{v, Variable::boolean}); auto l = sat::lit(v, w.m->value(v));
                CHECK(r != nullptr && std::find(cl.begin(), cl.end(), r) != cl.end(), "the reason of a propagation is a clause of the database");
                CHECK((*r)[0] == l, "the reason starts with the assigned literal");
                for (size_t i = 1; i < r->size(); ++i) CHECK(w.isfalse((*r)[i]) && w.level((*r)[i]) <= w.level(l), "the other literals of the reason are false");
            }
            for (auto& k : conflicts) {
                CHECK(std::any_of(cl.begin(), cl.end(), [&](auto c) { return canon(*c) == canon(k); }), "a conflict is a clause of the database");
                for (auto l : k) CHECK(w.isfalse(l), "a conflict is false");
            }
            if (conflicts.empty()) for (auto c : cl) {
                int un = 0; bool tr = false; for (auto l : *c) { if (!w.m->is_defined(l.var().ord())) ++un; else if (!w.isfalse(l)) tr = true; }
                CHECK(tr || un > 1, "after propagation no clause is false or unit");
            }
            if (!conflicts.empty()) {
                if (t.decision_level() == 0) { if (!theory_assigned) CHECK(sat::entails(orig, Clause{}, n), "conflict at level zero means unsatisfiable"); break; }
                auto [c, level] = ana.analyze(t, std::move(conflicts[0]));
                if (c.empty()) break;
                bool split = c.size() > 1 && w.level(c[0]) == w.level(c[1]);
                if (!split) { sub.minimize(t, c); if (c.size() > 1 && w.level(c[0]) == w.level(c[1])) break; }
                if (c.empty()) break;
                auto& lc = db.learn_clause(c); w.ed.on_learned_clause(db, t, lc); w.d += " learn " + s(lc);
                hs::setcur(w.d);
                if (hs::coin(8)) { w.d += " restart"; w.ed.on_before_backtrack(db, t, 0); t.clear(); w.ed.on_restart(db, t); }
                else {
                    w.ed.on_before_backtrack(db, t, level); t.backtrack(level);
                    if (split) w.decide(lc[0].var().ord(), !lc[0].is_negation());
                    else if (!w.m->is_defined(lc[0].var().ord())) w.propagate(lc[0].var().ord(), !lc[0].is_negation(), &lc, level);
                }
                continue;
            }
            int op = hs::ri(0, 15); int dl = t.decision_level();
            if (op == 0) { int lev = hs::ri(0, dl); w.d += " back" + std::to_string(lev); w.ed.on_before_backtrack(db, t, lev); t.backtrack(lev); }
            else if (op == 1) { w.d += " restart"; w.ed.on_before_backtrack(db, t, 0); t.clear(); w.ed.on_restart(db, t); }
            else if (op == 2) w.decide_real();
            else if (auto u = w.unassigned(); !u.empty()) {
                int v = u[hs::ri(0, u.size() - 1)];
                if (op < 6 && dl > 0 && !t.assigned(dl).empty() && t.assigned(dl).front().var.type() != Variable::boolean) { w.propagate(v, hs::coin(), nullptr, dl); theory_assigned = true; }
                else { w.d += " pick" + std::to_string(v); hs::setcur(w.d); th.decide(db, t, Variable{v, Variable::boolean}); CHECK(w.m->is_defined(v) && t.decision_level() == dl + 1 && t.decision_level(Variable{v, Variable::boolean}) == dl + 1 && t.reason(Variable{v, Variable::boolean}) == nullptr, "decision gives the variable a value at a new level"); w.d += w.m->value(v) ? "+" : "-"; }
            } else break;
        }
    }
    return hs::done();
}
