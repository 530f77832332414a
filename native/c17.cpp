#include "harness.h"
#include "Restart.h"
#include "Event_dispatcher.h"
using namespace yaga;
static long ref(long i) { for (long k = 1;; ++k) { if (i == (1L << k) - 1) return 1L << (k - 1); if (i < (1L << k) - 1) return ref(i - (1L << (k - 1)) + 1); } }
int main(int argc, char** argv)
{
    hs::init(argc, argv);
    while (hs::more()) {
        Database db; Event_dispatcher ed;
        int kind = hs::ri(0, 9);
        if (kind < 4) {
            long i = hs::coin() ? hs::ri(1, 300) : hs::coin() ? hs::ri(1, 1 << 22) : (1L << hs::ri(1, 21)) + hs::ri(-2, 2); if (i < 1) i = 1;
            hs::begin_case("luby " + std::to_string(i));
            CHECK(Luby_restart{}.luby(i) == ref(i), "element of the Luby sequence");
        } else if (kind == 4 && hs::coin(4)) {
            Trail t{ed}; Clause c; int n = hs::coin(40) ? hs::ri(200, 600) : hs::ri(1, 40);
            hs::begin_case("luby policy, " + std::to_string(n) + " restarts");
            Luby_restart r; long m = r.mult;
            CHECK(m > 0, "multiplier");
            for (int k = 1; k <= n; ++k) {
                for (long x = 0; x < ref(k) * m; ++x) { CHECK(!r.should_restart(), "no restart before the limit"); r.on_learned_clause(db, t, c); }
                CHECK(r.should_restart(), "restart at the limit"); r.on_restart(db, t);
            }
        } else if (kind == 5) { hs::begin_case("no restart"); Trail t{ed}; No_restart r; for (int i = 0; i < 20; ++i) { CHECK(!r.should_restart(), "never restarts"); Clause c; r.on_learned_clause(db, t, c); if (hs::coin()) r.on_restart(db, t); } }
        else {
            Trail t{ed}; int n = hs::ri(1, 12); auto& m = t.set_model<bool>(Variable::boolean, n); int dl = 0; std::vector<int> lev(n);
            for (int i = 0; i < n; ++i) { m.set_value(i, hs::coin()); if (hs::coin()) { t.decide({i, Variable::boolean}); lev[i] = ++dl; } else { int l = hs::ri(0, dl); t.propagate({i, Variable::boolean}, nullptr, l); lev[i] = l; } }
            int mc = hs::ri(0, 8), se = hs::ri(0, 13), fe = hs::ri(0, 7); float th = 1.f + hs::ri(0, 4) / 10.f;
            std::string d = "glucose min " + std::to_string(mc) + " slow " + std::to_string(se) + " fast " + std::to_string(fe) + " threshold " + std::to_string(th);
            Glucose_restart r; r.set_min_conflicts(mc).set_slow_exp(se).set_fast_exp(fe).set_threshold(th);
            float slow = 0, fast = 0; int cnt = mc;
            hs::begin_case(d);
            for (int k = hs::ri(1, 40); k > 0; --k) {
                Clause c; std::set<int> ls; int len = hs::ri(1, 2 * n);
                for (int j = 0; j < len; ++j) { int v = hs::ri(0, n - 1); c.push_back(hs::coin() ? Literal(v) : ~Literal(v)); ls.insert(lev[v]); }
                d += " clause(" + std::to_string(ls.size()) + " levels of " + std::to_string(len) + " literals)"; hs::setcur(d);
                r.on_learned_clause(db, t, c); --cnt; int lbd = ls.size();
                slow += (lbd - slow) / static_cast<float>(1 << se); fast += (lbd - fast) / static_cast<float>(1 << fe);
                CHECK(std::abs(r.slow() - slow) < 1e-4f, "slow average"); CHECK(std::abs(r.fast() - fast) < 1e-4f, "fast average");
                bool e = cnt <= 0 && r.fast() >= th * r.slow();
                CHECK(r.should_restart() == e, "restarts exactly when the fast average exceeds the slow one by the margin");
                if (hs::coin(5)) { d += " restart"; hs::setcur(d); r.on_restart(db, t); cnt = mc; }
            }
        }
    }
    return hs::done();
}
