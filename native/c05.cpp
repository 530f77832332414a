#include "harness.h"
#include "Event_dispatcher.h"
#include "Trail.h"
#include "Model.h"
using namespace yaga;
struct Rec { int level; Clause* reason; int val; };
int main(int argc, char** argv)
{
    hs::init(argc, argv);
    std::deque<Clause> pool(16, Clause{});
    while (hs::more()) {
        Event_dispatcher ed; Trail t{ed};
        int n[2] = {(int) hs::ri(1, 5), (int) hs::ri(0, 4)};
        auto& mb = t.set_model<bool>(Variable::boolean, n[0]);
        auto& mr = t.set_model<int>(Variable::rational, n[1]);
        std::map<std::pair<int, int>, Rec> ref; int dl = 0;
        std::string d = "vars " + std::to_string(n[0]) + "," + std::to_string(n[1]) + ":";
        auto check = [&] {
            hs::setcur(d);
            CHECK(t.decision_level() == dl, "decision level");
            CHECK(t.empty() == (dl == 0 && ref.empty()), "empty");
            for (int ty = 0; ty < 2; ++ty) for (int o = 0; o < n[ty]; ++o) {
                Variable v{o, static_cast<Variable::Type>(ty)};
                auto it = ref.find({ty, o});
                auto l = t.decision_level(v);
                bool def = ty ? mr.is_defined(o) : mb.is_defined(o);
                CHECK(l.has_value() == (it != ref.end()), "a variable has a level iff it is assigned");
                CHECK(def == (it != ref.end()), "a variable has a value iff it is assigned");
                if (it != ref.end()) {
                    CHECK(*l == it->second.level, "level of an assignment");
                    CHECK(t.reason(v) == it->second.reason, "reason of an assignment");
                    CHECK((ty ? mr.value(o) : (int) mb.value(o)) == it->second.val, "value of an assignment");
                    int cnt = 0; for (auto a : t.assigned(it->second.level)) if (a.var == v) ++cnt;
                    CHECK(cnt == 1, "listed once at its level");
                } else CHECK(t.reason(v) == nullptr, "no reason");
            }
            for (int k = 0; k <= dl; ++k) for (auto a : t.assigned(k)) { auto it = ref.find({a.var.type(), a.var.ord()}); CHECK(it != ref.end() && it->second.level <= k, "listed variables are assigned"); }
        };
        for (int k = hs::ri(1, 25); k > 0; --k) {
            std::vector<Variable> un;
            for (int ty = 0; ty < 2; ++ty) for (int o = 0; o < n[ty]; ++o) if (!ref.count({ty, o})) un.push_back({o, static_cast<Variable::Type>(ty)});
            int op = hs::ri(0, 9);
            if (op < 7 && !un.empty()) {
                auto v = un[hs::ri(0, un.size() - 1)];
                int val = hs::ri(0, 1);
                if (v.type() == 0) mb.set_value(v.ord(), val); else mr.set_value(v.ord(), val);
                if (op < 3) { d += " decide" + std::to_string(v.type()) + "." + std::to_string(v.ord()); hs::setcur(d); t.decide(v); ++dl; ref[{v.type(), v.ord()}] = {dl, nullptr, val}; }
                else { int lev = hs::ri(0, dl); Clause* r = hs::coin(4) ? nullptr : &pool[hs::ri(0, 15)]; d += " prop" + std::to_string(v.type()) + "." + std::to_string(v.ord()) + "@" + std::to_string(lev); hs::setcur(d); t.propagate(v, r, lev); ref[{v.type(), v.ord()}] = {lev, r, val}; }
            } else if (op == 9 && hs::coin(4)) { d += " clear"; hs::setcur(d); t.clear(); ref.clear(); dl = 0; }
            else { int lev = hs::ri(0, dl); d += " back" + std::to_string(lev); hs::setcur(d); t.backtrack(lev); for (auto it = ref.begin(); it != ref.end();) if (it->second.level > lev) it = ref.erase(it); else ++it; dl = lev; }
            check();
        }
        hs::begin_case(d);
    }
    return hs::done();
}
