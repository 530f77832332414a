#include "sat.h"
#include "Subsumption.h"
using sat::s;
static bool contains(Clause const& big, Clause const& small) { return std::all_of(small.begin(), small.end(), [&](auto l) { return std::find(big.begin(), big.end(), l) != big.end(); }); }
static Clause rclause(int n, int maxlen)
{
    std::vector<int> v(n); std::iota(v.begin(), v.end(), 0); std::shuffle(v.begin(), v.end(), hs::rng);
    Clause c; for (int i = hs::ri(1, std::min(n, maxlen)); i > 0; --i) c.push_back(sat::lit(v[i - 1], hs::coin()));
    return c;
}
int main(int argc, char** argv)
{
    hs::init(argc, argv);
    while (hs::more()) {
        if (hs::coin()) {          // removal of subsumed clauses over a series of restarts
            int n = hs::coin(5) ? hs::ri(33, 40) : hs::ri(1, 6); Subsumption sub; sub.on_variable_resize(Variable::boolean, n);
            Event_dispatcher ed; Trail t{ed}; t.set_model<bool>(Variable::boolean, n);
            Database db; std::string d = "vars " + std::to_string(n) + ":";
            for (int r = hs::ri(1, 4); r > 0; --r) {
                for (int k = hs::ri(0, 6); k > 0; --k) {
                    Clause c = rclause(n, n > 20 && hs::coin(3) ? n : 5);
                    if (!db.learned().empty() && hs::coin()) {           // related to an earlier one
                        c = db.learned()[hs::ri(0, db.learned().size() - 1)]; std::shuffle(c.begin(), c.end(), hs::rng);
                        int op = hs::ri(0, 3);
                        if (op == 0 && c.size() > 1) c.pop_back();
                        else if (op == 1) { int v = hs::ri(0, n - 1); if (std::none_of(c.begin(), c.end(), [&](auto l) { return l.var().ord() == v; })) c.push_back(sat::lit(v, hs::coin())); }
                        else if (op == 2) { auto i = hs::ri(0, c.size() - 1); c[i] = ~c[i]; }
                    }
                    d += " " + s(c); db.learn_clause(c);
                }
                if (hs::coin(3)) db.assert_clause(rclause(n, 3));
                d += " restart"; hs::begin_case(d, db.learned().size() > 1);
                std::vector<Clause> before(db.learned().begin(), db.learned().end()), as(db.asserted().begin(), db.asserted().end());
                sub.on_restart(db, t);
                std::vector<Clause> after(db.learned().begin(), db.learned().end());
                CHECK((as == std::vector<Clause>(db.asserted().begin(), db.asserted().end())), "asserted clauses stay");
                size_t i = 0;
                for (auto& c : after) { auto sorted = c; while (i < before.size() && before[i] != c) ++i; CHECK(i < before.size(), "a clause that is left is one of the old clauses"); ++i; }
                for (auto& c : before) CHECK(std::any_of(after.begin(), after.end(), [&](auto& k) { return contains(c, k); }), "a removed clause contains every literal of a clause that is kept");
            }
        } else {                   // minimization of a false clause
            int n = hs::ri(1, 7); sat::World w(n, 2); Subsumption sub; sub.on_variable_resize(Variable::boolean, n);
            w.random_trail(hs::ri(1, 12), true);
            Clause c; for (auto l : w.falses()) if (hs::coin(3) == false) c.push_back(l);
            std::shuffle(c.begin(), c.end(), hs::rng);
            if (c.empty()) continue;
            std::string d = w.d + " minimize " + s(c); hs::begin_case(d, c.size() > 1);
            Clause m = c; sub.minimize(w.t, m);
            size_t i = 0; for (auto l : m) { while (i < c.size() && c[i] != l) ++i; CHECK(i < c.size(), "only literals are removed"); ++i; }
            for (auto l : m) CHECK(w.isfalse(l), "still false");
            auto cs = w.all(); cs.push_back(c);
            CHECK(sat::entails(cs, m, n), "the minimized clause follows from the clause and the reasons");
            for (auto& r : w.reasons) CHECK(!r.empty(), "reasons stay");
            Clause m2 = c; sub.minimize(w.t, m2); CHECK(m2 == m, "the result does not depend on earlier calls");
        }
    }
    return hs::done();
}
