#include "sat.h"
#include "Conflict_analysis.h"
using sat::s;
int main(int argc, char** argv)
{
    hs::init(argc, argv);
    Conflict_analysis ana;
    while (hs::more()) {
        int n = hs::ri(1, 8); sat::World w(n, 3);
        w.random_trail(hs::ri(1, 16), true);
        Clause c; int k = hs::ri(1, 3), dl = w.t.decision_level();
        for (auto l : w.falses()) if (w.level(l) == dl ? hs::coin(2) : hs::coin(k + 1)) c.push_back(l);
        std::shuffle(c.begin(), c.end(), hs::rng);
        if (c.empty()) continue;
        hs::begin_case(w.d + " conflict " + s(c), c.size() > 1);
        std::vector<Clause const*> used;
        Clause in = c;
        auto [r, level] = ana.analyze(w.t, std::move(in), [&](auto const& x) { used.push_back(&x); });
        hs::setcur(w.d + " conflict " + s(c) + " learned " + s(r) + " level " + std::to_string(level));
        std::vector<Clause> cs{c};
        for (auto u : used) { CHECK(std::any_of(w.reasons.begin(), w.reasons.end(), [&](auto& x) { return &x == u; }), "resolved clauses are reasons"); cs.push_back(*u); }
        CHECK(sat::entails(cs, r, n), "follows from the conflict and the reasons resolved with");
        for (auto l : r) CHECK(w.isfalse(l), "false under the assignment");
        for (size_t i = 0; i < r.size(); ++i) for (size_t j = 0; j < i; ++j) CHECK(r[i] != r[j], "each literal once");
        for (size_t i = 1; i < r.size(); ++i) CHECK(w.level(r[i - 1]) >= w.level(r[i]), "ordered by level");
        int top = 0; for (auto l : c) top = std::max(top, w.level(l));
        if (r.empty()) { CHECK(level == -1, "empty clause"); continue; }
        int rt = w.level(r[0]), cnt = 0; for (auto l : r) cnt += w.level(l) == rt;
        CHECK(rt <= top, "levels of the conflict");
        if (cnt > 1) {
            CHECK(rt == top && level == top - 1, "semantic split returns below the conflict level");
            for (auto l : r) if (w.level(l) == rt) CHECK(!w.why.count(l.var().ord()), "literals of a semantic split have no reason");
        } else if (r.size() == 1) CHECK(level == 0, "unit clause returns to level zero");
        else CHECK(level == w.level(r[1]) && level < rt, "returns to the second highest level");
        int nu = 0; for (auto l : r) nu += w.level(l) > level;
        if (cnt == 1 && rt > 0) CHECK(nu == 1, "exactly one literal is unassigned at the level returned to");
        // a second analysis with the same object gives the same clause
        Clause in2 = c; std::shuffle(in2.begin(), in2.end(), hs::rng); auto [r2, l2] = ana.analyze(w.t, std::move(in2)); CHECK(r2 == r && l2 == level, "the result does not depend on earlier analyses");
    }
    return hs::done();
}
