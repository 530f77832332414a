#include "rat.h"
#include "Linear_constraint.h"
#include "Linear_constraints.h"
using namespace yaga;
using Q = Long_fraction;
static mpq_class small() { mpq_class q(hs::ri(-4, 4), hs::coin(3) ? hs::ri(1, 3) : 1); q.canonicalize(); return hs::coin(15) ? rat::rq() : q; }
static bool rel(Order_predicate::Type p, mpq_class const& a, mpq_class const& b) { return p == Order_predicate::eq ? a == b : p == Order_predicate::lt ? a < b : a <= b; }
int main(int argc, char** argv)
{
    hs::init(argc, argv);
    while (hs::more()) {
        int n = hs::ri(1, 5);
        Linear_constraints<Q> rep;
        for (int k = hs::ri(1, 4); k > 0; --k) {
            std::vector<int> vs(n); std::iota(vs.begin(), vs.end(), 0); std::shuffle(vs.begin(), vs.end(), hs::rng); vs.resize(hs::ri(0, n));
            std::vector<Q> cs; std::vector<mpq_class> qs;
            for (auto v : vs) { (void) v; auto q = small(); qs.push_back(q); cs.push_back(rat::mk(q)); }
            auto p = std::array{Order_predicate::eq, Order_predicate::lt, Order_predicate::leq}[hs::ri(0, 2)];
            auto rhs = small();
            auto cons = rep.make(vs, cs, p, rat::mk(rhs));
            // stored form, read back
            std::vector<int> sv; std::vector<mpq_class> sq;
            for (auto v : cons.vars()) sv.push_back(v);
            for (auto& q : cons.coef()) sq.push_back(rat::val(q));
            auto sp = (Order_predicate::Type) cons.pred(); auto sr = rat::val(cons.rhs()); bool neg = cons.lit().is_negation();
            Model<Q> m; m.resize(n); std::vector<mpq_class> val(n); std::vector<int> def(n);
            std::string d;
            for (size_t i = 0; i < sv.size(); ++i) d += sq[i].get_str() + "*x" + std::to_string(sv[i]) + " + ";
            d += std::string(sp == Order_predicate::eq ? " = " : sp == Order_predicate::lt ? " < " : " <= ") + sr.get_str() + (neg ? " negated" : "") + " with";
            int un = hs::ri(0, 3);
            for (int v = 0; v < n; ++v) { val[v] = small(); if (!hs::coin(8) && !(un == 0 && !sv.empty() && v == sv[0])) { m.set_value(v, rat::mk(val[v])); def[v] = 1; d += " x" + std::to_string(v) + "=" + val[v].get_str(); } }
            // make equality of both sides likely
            if (hs::coin() && !sv.empty() && sq[0] != 0) {
                mpq_class s = 0; for (size_t i = 1; i < sv.size(); ++i) s += sq[i] * val[sv[i]];
                val[sv[0]] = (sr - s) / sq[0]; if (def[sv[0]]) { m.set_value(sv[0], rat::mk(val[sv[0]])); d += " x" + std::to_string(sv[0]) + "=" + val[sv[0]].get_str(); }
            }
            hs::begin_case(d, sv.size() > 0);
            bool all = true, rest = true; mpq_class sum = 0, tail = 0;
            for (size_t i = 0; i < sv.size(); ++i) { if (!def[sv[i]]) { all = false; if (i) rest = false; } sum += sq[i] * val[sv[i]]; if (i) tail += sq[i] * val[sv[i]]; }
            auto e = eval(m, cons);
            CHECK(e.has_value() == all, "undetermined exactly when a variable is unassigned");
            if (all) {
                bool t = neg != rel(sp, sum, sr);
                CHECK(*e == t, "true exactly when the weighted sum satisfies the relation");
                CHECK(cons.eval(m) == t, "member evaluation");
                CHECK((~cons).eval(m) == !t, "complement is true exactly when the constraint is false");
                auto c2 = cons; c2.negate(); CHECK(c2.eval(m) == !t, "negation in place"); CHECK(c2.lit() == ~cons.lit(), "literal of the negation");
            }
            auto cc = ~cons;
            CHECK(cc.lit() == ~cons.lit() && cc.pred() == cons.pred() && cc.rhs() == cons.rhs() && cc.size() == cons.size(), "complement keeps the linear part");
            CHECK(cons.is_strict() == !(neg != rel(sp, 0, 0)), "strict exactly when the bound itself is excluded");
            CHECK(cons.empty() == sv.empty() && cons.size() == (int) sv.size(), "number of variables");
            if (!sv.empty() && rest) {
                auto b = cons.implied_value(m);
                CHECK(rat::val(b) == sr - tail, "implied right-hand side");
                for (int t = 0; t < 3; ++t) {
                    mpq_class x = t == 0 ? mpq_class((sr - tail) / sq[0]) : small();
                    CHECK(rel(sp, sq[0] * x, rat::val(b)) == rel(sp, sq[0] * x + tail, sr), "implied bound holds for exactly the satisfying values");
                }
            }
            CHECK(rat::val(cons.rhs()) == sr, "right-hand side unchanged");
        }
    }
    return hs::done();
}
