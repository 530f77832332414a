#include "harness.h"
#include "Event_dispatcher.h"
#include "Theory_combination.h"
#include "Solver.h"
#include "Restart.h"
#include "variable_order/Variable_order.h"
#define final
#include "variable_order/Combined_order.h"
#undef final
using namespace yaga;
using Ev = std::vector<long>;
static std::vector<std::pair<int, Ev>> glog;
static Database* DB; static Trail* TR;
static long id(void const* p) { return (long) p; }
template <class B> struct Rec : B {
    int me; Rec(int me = 0) : me(me) {}
    void put(Ev e) { glog.push_back({me, e}); }
    void on_init(Database& d, Trail& t) override { put({0, id(&d), id(&t)}); }
    void on_variable_resize(Variable::Type t, int n) override { put({1, (long) t, n}); }
    void on_before_backtrack(Database& d, Trail& t, int l) override { put({2, id(&d), id(&t), l}); }
    void on_learned_clause(Database& d, Trail& t, Clause const& c) override { put({3, id(&d), id(&t), id(&c)}); }
    void on_conflict_resolved(Database& d, Trail& t, Clause const& c) override { put({4, id(&d), id(&t), id(&c)}); }
    void on_restart(Database& d, Trail& t) override { put({5, id(&d), id(&t)}); }
};
struct Th : Rec<Theory> {
    int quiet = 1000, conf = 1000; using Rec<Theory>::Rec; int calls = 0;
    std::vector<Clause> propagate(Database& d, Trail& t) override
    {
        ++calls; put({6, id(&d), id(&t), (long) t.recent().size()});
        if (calls == conf) return {Clause{Literal(me)}, Clause{}};
        if (quiet-- > 0 && next < max) { t.propagate({next++, Variable::boolean}, nullptr, 0); }
        return {};
    }
    inline static int next = 0, max = 0;
    void decide(Database& d, Trail& t, Variable v) override { put({7, id(&d), id(&t), v.ord(), (long) v.type()}); }
};
struct Co : Combined_order { bool is_before(Variable, Variable) const { return false; } };
struct Or : Rec<Variable_order> { bool is_before(Variable, Variable) const { return false; } using Rec<Variable_order>::Rec; std::optional<Variable> r; std::optional<Variable> pick(Database& d, Trail& t) override { put({8, id(&d), id(&t)}); return r; } };
int main(int argc, char** argv)
{
    hs::init(argc, argv);
    while (hs::more()) {
        Event_dispatcher ed; Trail t{ed}; auto& m = t.set_model<bool>(Variable::boolean, 40); (void) m; Database db; DB = &db; TR = &t;
        int k = hs::ri(0, 5), kind = hs::ri(0, 2);
        Event_dispatcher disp; Theory_combination tc; Co co; std::vector<std::unique_ptr<Rec<Event_listener>>> ls; std::vector<int> order; std::vector<Th*> ths; std::vector<Or*> ors;
        std::string d = std::string(kind == 0 ? "dispatcher" : kind == 1 ? "theories" : "orders") + " of " + std::to_string(k) + ":";
        std::map<int, int> sizes;
        auto addth = [&](int i) {
            glog.clear(); Th& x = tc.add_theory<Th>(i); ths.push_back(&x); order.push_back(i);
            std::vector<std::pair<int, Ev>> exp; for (auto [ty, n] : sizes) if (n > 0) exp.push_back({i, {1, ty, n}});
            hs::setcur(d); CHECK(glog == exp, "a theory added later is told the number of variables of each type");
        };
        for (int i = 0; i < k; ++i) {
            if (kind == 0) { ls.push_back(std::make_unique<Rec<Event_listener>>(i)); disp.add(ls.back().get()); order.push_back(i); }
            else if (kind == 1) addth(i);
            else { auto& x = co.add<Or>(i); ors.push_back(&x); order.push_back(i); }
        }
        Event_listener* w = kind == 0 ? (Event_listener*) &disp : kind == 1 ? (Event_listener*) &tc : (Event_listener*) &co;
        auto all = [&](Ev e) { std::vector<std::pair<int, Ev>> r; for (int i : order) r.push_back({i, e}); return r; };
        hs::setcur(d);
        for (int n = hs::ri(1, 10); n > 0; --n) {
            Clause c{Literal(1)}, c2; Clause& cc = hs::coin() ? c : c2; int op = hs::ri(0, 9), l = hs::ri(0, 9); long D = id(&db), T = id(&t);
            d += " " + std::to_string(op); hs::setcur(d); glog.clear();
            switch (op) {
            case 0: w->on_init(db, t); CHECK(glog == all({0, D, T}), "on_init"); break;
            case 1: { auto ty = hs::coin() ? Variable::boolean : Variable::rational; w->on_variable_resize(ty, l); CHECK(glog == all({1, (long) ty, l}), "on_variable_resize"); sizes[ty] = l; break; }
            case 2: w->on_before_backtrack(db, t, l); CHECK(glog == all({2, D, T, l}), "on_before_backtrack"); break;
            case 3: w->on_learned_clause(db, t, cc); CHECK(glog == all({3, D, T, id(&cc)}), "on_learned_clause"); break;
            case 4: w->on_conflict_resolved(db, t, cc); CHECK(glog == all({4, D, T, id(&cc)}), "on_conflict_resolved"); break;
            case 5: w->on_restart(db, t); CHECK(glog == all({5, D, T}), "on_restart"); break;
            case 6: if (kind == 0) { if (!order.empty()) { int p = hs::ri(0, order.size() - 1); disp.remove(ls[order[p]].get()); order.erase(order.begin() + p); } else { Rec<Event_listener> x(9); disp.remove(&x); } }
                    else if (kind == 1) { addth(order.size()); } break;
            case 7: if (kind == 1) { Variable v(l, hs::coin() ? Variable::boolean : Variable::rational); tc.decide(db, t, v); CHECK(glog == all({7, D, T, l, (long) v.type()}), "decide"); } break;
            case 8: if (kind == 1) {
                t.clear(); Th::next = 0; Th::max = hs::coin(3) ? 0 : hs::ri(0, 30); std::map<int, int> conf;
                for (auto x : ths) { x->calls = 0; x->quiet = hs::ri(0, 4); x->conf = hs::coin(4) ? hs::ri(1, 5) : 1000; }
                auto r = tc.propagate(db, t);
                CHECK(!glog.empty() || ths.empty(), "theories are consulted");
                std::size_t K = ths.size();
                for (std::size_t i = 0; i < glog.size(); ++i) { CHECK(glog[i].first == (int) (i % K), "theories are consulted in turn"); CHECK(glog[i].second[1] == D && glog[i].second[2] == T, "arguments"); }
                bool hit = false; int who = -1; for (auto x : ths) if (x->calls == x->conf) { hit = true; who = x->me; }
                CHECK(r.empty() == !hit, "conflicts of a theory are returned");
                if (hit) { CHECK(r.size() == 2 && r[0].size() == 1 && r[0][0] == Literal(who) && r[1].empty(), "the conflicts are those of the theory"); CHECK(glog.back().first == who, "conflict ends the round"); }
                else if (K) { CHECK(glog.size() % K == 0, "full rounds"); long fin = t.recent().size(); for (std::size_t i = glog.size() - K; i < glog.size(); ++i) CHECK(glog[i].second[3] == fin, "ends only after a round without new propagations"); }
            } break;
            case 9: if (kind == 2) {
                int first = -1; for (std::size_t i = 0; i < ors.size(); ++i) { ors[i]->r = hs::coin() ? std::optional<Variable>(Variable((int) i, Variable::rational)) : std::nullopt; if (ors[i]->r && first < 0) first = i; }
                auto r = co.pick(db, t);
                CHECK(r.has_value() == (first >= 0), "picks a variable if an ordering has one");
                if (first >= 0) CHECK(r->ord() == first, "first ordering with a variable wins");
            } break;
            }
        }
        hs::begin_case(d);
    }
    return hs::done();
}
