// random trails with reasons, and brute-force entailment over boolean variables
#pragma once
#include "harness.h"
#include "Clause.h"
#include "Database.h"
#include "Event_dispatcher.h"
#include "Literal.h"
#include "Model.h"
#include "Trail.h"
using namespace yaga;
namespace sat {
inline std::string s(Literal l) { return (l.is_negation() ? "-" : "") + std::to_string(l.var().ord()); }
inline std::string s(Clause const& c) { std::string r = "("; for (auto l : c) r += (r.size() > 1 ? " " : "") + s(l); return r + ")"; }
inline Literal lit(int v, bool pos = true) { Literal l{v}; return pos ? l : ~l; }
inline bool sat(Clause const& c, unsigned a) { for (auto l : c) if (((a >> l.var().ord()) & 1) != (unsigned) l.is_negation()) return true; return false; }
// every assignment of n variables that satisfies all of cs satisfies goal
inline bool entails(std::vector<Clause> const& cs, Clause const& goal, int n)
{
    for (unsigned a = 0; a < (1u << n); ++a) { if (sat(goal, a)) continue; bool all = true; for (auto& c : cs) if (!sat(c, a)) { all = false; break; } if (all) return false; }
    return true;
}
struct World {
    Event_dispatcher ed; Trail t{ed}; int n, nr; Model<bool>* m; Model<int>* mr;
    std::deque<Clause> reasons; std::map<int, Clause*> why; std::string d;
    std::vector<int> order; // assignment order of boolean variables
    World(int n, int nr) : n(n), nr(nr) { m = &t.set_model<bool>(Variable::boolean, n); mr = &t.set_model<int>(Variable::rational, nr); }
    std::vector<int> unassigned() { std::vector<int> r; for (int v = 0; v < n; ++v) if (!m->is_defined(v)) r.push_back(v); return r; }
    int level(Literal l) { return *t.decision_level(l.var()); }
    bool isfalse(Literal l) { return m->is_defined(l.var().ord()) && m->value(l.var().ord()) == l.is_negation(); }
    // false literals of the assigned variables
    std::vector<Literal> falses() { std::vector<Literal> r; for (int v = 0; v < n; ++v) if (m->is_defined(v)) r.push_back(lit(v, !m->value(v))); return r; }
    void decide(int v, bool val) { m->set_value(v, val); t.decide(Variable{v, Variable::boolean}); order.push_back(v); d += " decide " + s(lit(v, val)); }
    void decide_real() { for (int r = 0; r < nr; ++r) if (!mr->is_defined(r)) { mr->set_value(r, 0); t.decide(Variable{r, Variable::rational}); d += " decide-real"; return; } }
    void propagate(int v, bool val, Clause* c, int lev) { m->set_value(v, val); t.propagate(Variable{v, Variable::boolean}, c, lev); order.push_back(v); if (c) why[v] = c; d += " " + s(lit(v, val)) + "@" + std::to_string(lev) + (c ? " by " + s(*c) : " semantic"); }
    // literals of a reason that are false, with a bias to recent ones
    void random_trail(int steps, bool semantic)
    {
        for (; steps > 0; --steps) {
            auto u = unassigned(); if (u.empty()) break;
            int v = u[hs::ri(0, u.size() - 1)]; bool val = hs::coin(); int k = hs::ri(0, 9); int dl = t.decision_level();
            if (k < 3) decide(v, val);
            else if (k == 3 && semantic) decide_real();
            else if (k == 4 && semantic && dl > 0) propagate(v, val, nullptr, hs::coin(3) ? hs::ri(1, dl) : dl);
            else {
                Clause c{lit(v, val)}; int lev = 0;
                for (auto l : falses()) if (level(l) == dl ? hs::coin(2) : hs::coin(3)) { c.push_back(l); lev = std::max(lev, level(l)); }
                std::shuffle(c.begin() + 1, c.end(), hs::rng);
                reasons.push_back(c);
                propagate(v, val, &reasons.back(), lev);
            }
        }
    }
    std::vector<Clause> all() { return {reasons.begin(), reasons.end()}; }
};
}
