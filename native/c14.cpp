#include "harness.h"
#include "Variable_priority_queue.h"
using namespace yaga;
int main(int argc, char** argv)
{
    hs::init(argc, argv);
    static float const sc[] = {0.f, 1.f, 1.f, 2.f, 3.f, 1e-30f, 1e30f, 1e-44f, 2e-44f};
    while (hs::more()) {
        Variable_priority_queue q; std::map<std::pair<int, int>, float> ref; std::string d;
        int n = hs::coin(5) ? hs::ri(20, 120) : hs::ri(1, 14), range = hs::ri(1, 60);
        bool draw = hs::coin(3);
        auto score = [&]() -> float { return hs::coin(3) ? sc[hs::ri(0, std::size(sc) - 1)] : hs::coin(3) ? (float) hs::ri(0, 3) : (float) hs::ri(0, 1000) / 7; };
        auto better = [](auto const& a, auto const& b) { return a.second > b.second || (a.second == b.second && a.first < b.first); };
        auto best = [&] { auto m = ref.begin(); for (auto it = ref.begin(); it != ref.end(); ++it) if (better(*it, *m)) m = it; return m; };
        auto check = [&] {
            hs::setcur(d);
            CHECK(q.size() == ref.size(), "number of variables held");
            CHECK(q.empty() == ref.empty(), "empty");
            for (int t = 0; t < 2; ++t) for (int o = 0; o <= range; ++o) CHECK(q.contains(Variable(o, (Variable::Type) t)) == (ref.count({t, o}) > 0), "membership");
            CHECK(!q.contains(Variable(100000, Variable::rational)), "membership of a variable never inserted");
            if (!ref.empty()) { auto v = q.top(); CHECK(ref.count({v.type(), v.ord()}), "top is held"); CHECK(ref.at({v.type(), v.ord()}) == best()->second, "top has the highest priority"); }
            std::multiset<std::pair<int, int>> a, b; for (auto v : q.vars()) a.insert({v.type(), v.ord()}); for (auto& [k, s] : ref) b.insert(k);
            CHECK(a == b, "each variable is held exactly once");
        };
        for (int k = 0; k < n; ++k) {
            int op = hs::ri(0, 9); int t = hs::ri(0, 1), o = hs::ri(0, range); Variable v(o, (Variable::Type) t);
            std::string vs = std::to_string(t) + "." + std::to_string(o);
            if (op < 5) { if (!ref.count({t, o})) { float s = score(); d += " push" + vs + "=" + std::to_string(s); hs::setcur(d); q.push(v, s); ref[{t, o}] = s; } }
            else if (op < 7) { if (!ref.empty()) { auto w = q.top(); d += " pop"; hs::setcur(d); q.pop(); ref.erase({w.type(), w.ord()}); } }
            else if (op < 9) { float s = score(); d += " update" + vs + "=" + std::to_string(s); hs::setcur(d); q.update(v, s); if (ref.count({t, o})) ref[{t, o}] = s; }
            else { float f = hs::coin() ? 1e35f : hs::coin() ? 1e-3f : 2.f; d += " rescale" + std::to_string(f); hs::setcur(d); q.rescale(f); for (auto& [_, s] : ref) s /= f; }
            check();
        }
        hs::begin_case(d);
        float last = std::numeric_limits<float>::infinity();
        if (draw) { d += " drain"; while (!q.empty()) { auto v = q.top(); float s = ref.at({v.type(), v.ord()}); CHECK(s <= last, "drained in order"); last = s; q.pop(); ref.erase({v.type(), v.ord()}); check(); } CHECK(ref.empty(), "drained all"); }
    }
    return hs::done();
}
