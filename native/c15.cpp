// ordering strategies registered on random histories of the trail
#define LRA_NO_MAIN
#define LRA_PROP 15
#include "lra.h"
#include "Evsids.h"
#include "First_unassigned.h"
#include "Generalized_vsids.h"
#define final
#include "Combined_order.h"
#undef final
struct Both : Combined_order { bool is_before(Variable, Variable) const override { return false; } };
struct Set { First_unassigned any, boo{Variable::boolean}, rea{Variable::rational}; Evsids ev; Generalized_vsids gv; Both two; First_unassigned* in1; Evsids* in2; Set(Linear_arithmetic& l) : gv(l) {} };
int main(int argc, char** argv)
{
    hs::init(argc, argv); std::unique_ptr<Set> z; std::deque<Clause> kept; int mode = 0;
    lra::on_start = [&](lra::Sim& s) { z = std::make_unique<Set>(s.lra); mode = hs::ri(0, 1); s.ed.add(&z->any); s.ed.add(&z->boo); s.ed.add(&z->rea); s.ed.add(&z->ev); s.ed.add(&z->gv);
        if (mode) { z->two.add<First_unassigned>(Variable::rational); z->two.add<Evsids>(); } else { z->two.add<Evsids>(); z->two.add<First_unassigned>(Variable::rational); }
        s.ed.add(&z->two); };
    lra::on_step = [&](lra::Sim& s) {
        auto some = [&] { Clause c; for (int k = hs::ri(1, 4); k > 0; --k) c.push_back(sat::lit(hs::ri(0, s.nb() - 1), hs::coin())); return c; };
        if (s.nb() && hs::coin(4)) { auto c = some(); s.d += " resolved" + sat::s(c); hs::setcur(s.d); s.ed.on_conflict_resolved(s.db, s.t, c); }
        if (s.nb() && hs::coin(4)) { auto c = some(); s.d += " learned" + sat::s(c); hs::setcur(s.d); auto& r = s.db.learn_clause(c); s.ed.on_learned_clause(s.db, s.t, r); }
        if (hs::coin(200)) { s.d += " learn*4000"; hs::setcur(s.d); Clause c{sat::lit(0)}; if (s.nb()) for (int k = 0; k < 4000; ++k) s.ed.on_learned_clause(s.db, s.t, c); }
        if (hs::coin(10)) { s.d += " newbool"; hs::setcur(s.d); s.t.resize(Variable::boolean, s.nb() + 1); }
        if (hs::coin(15)) { s.d += " newreal"; hs::setcur(s.d); s.t.resize(Variable::rational, ++s.n); }
        hs::begin_case(s.d + " pick"); bool ub = !s.ub().empty(), ur = !s.ur().empty();
        auto ok = [&](Variable_order& o, char const* w, bool b, bool r) {
            auto p = o.pick(s.db, s.t); CHECK(p.has_value() == ((b && ub) || (r && ur)), std::string(w) + " picks a variable iff there is one");
            if (p) { bool isb = p->type() == Variable::boolean; CHECK(isb ? b : r, std::string(w) + " picks a variable of a type it is responsible for"); CHECK(p->ord() >= 0 && p->ord() < (isb ? s.nb() : s.n), std::string(w) + " picks an existing variable");
                CHECK(!s.t.decision_level(*p) && !s.t.model(p->type()).is_defined(p->ord()), std::string(w) + " picks an unassigned variable"); } };
        ok(z->any, "first unassigned", true, true); ok(z->boo, "first unassigned boolean", true, false); ok(z->rea, "first unassigned real", false, true); ok(z->ev, "evsids", true, false); ok(z->gv, "generalized vsids", true, true); ok(z->two, "combination", true, true);
    };
    while (hs::more()) { lra::Sim s; s.run(); }
    return hs::done();
}
