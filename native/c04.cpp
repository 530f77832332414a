#include "harness.h"
#include "Clause.h"
#include "Model.h"
using namespace yaga;
int main(int argc, char** argv)
{
    hs::init(argc, argv);
    while (hs::more()) {
        int n = hs::ri(0, 6);
        Model<bool> m; m.resize(n);
        std::vector<int> ref(n, -1); std::vector<int> ts(n, -1); int now = 0;
        std::string d = "vars " + std::to_string(n) + " ops:";
        hs::begin_case(d, false);
        for (int k = hs::ri(0, 12); k > 0 && n > 0; --k) {
            int v = hs::ri(0, n - 1);
            if (hs::coin(4)) { m.clear(v); ref[v] = -1; d += " c" + std::to_string(v); }
            else if (hs::coin(12)) { m.clear(); for (auto& x : ref) x = -1; d += " C"; }
            else if (hs::coin(12)) { int k2 = hs::ri(1, 8); m.resize(k2); ref.resize(k2, -1); ts.resize(k2, -1); n = k2; d += " r" + std::to_string(k2); }
            else { bool b = hs::coin(); m.set_value(v, b); ref[v] = b; ts[v] = now++; d += " s" + std::to_string(v) + (b ? "t" : "f"); }
            hs::setcur(d);
            CHECK((int) m.num_vars() == n, "number of variables");
            for (int i = 0; i < n; ++i) {
                CHECK(m.is_defined(i) == (ref[i] >= 0), "defined exactly when set and not cleared");
                if (ref[i] >= 0) CHECK(m.value(i) == (ref[i] == 1), "value is the last one set");
                if (ref[i] >= 0) for (int j = 0; j < n; ++j) if (ref[j] >= 0 && i != j) CHECK((m.timestamp(i) < m.timestamp(j)) == (ts[i] < ts[j]), "timestamps order the assignments");
            }
        }
        Clause c;
        for (int k = n ? hs::ri(0, 5) : 0; k > 0; --k) { Literal l{(int) hs::ri(0, n - 1)}; if (hs::coin()) l = ~l; c.push_back(l); d += std::string(" lit") + (l.is_negation() ? "-" : "+") + std::to_string(l.var().ord()); }
        hs::begin_case(d, n > 0);
        bool anyt = false, allf = true;
        for (auto l : c) {
            int r = ref[l.var().ord()];
            auto e = eval(m, l);
            CHECK(e.has_value() == (r >= 0), "literal undefined iff its variable is");
            if (r >= 0) CHECK(*e == ((r == 1) != l.is_negation()), "literal value");
            if (r >= 0 && (r == 1) != l.is_negation()) anyt = true;
            if (r < 0 || (r == 1) != l.is_negation()) allf = false;
        }
        auto e = eval(m, c);
        CHECK((e == true) == anyt, "clause true iff a literal is");
        CHECK((e == false) == allf, "clause false iff all literals are");
    }
    return hs::done();
}
