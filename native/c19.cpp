// C19: equal terms are shared, different terms never are, and terms never change
#include "term.h"
#include <limits>
int main(int argc, char** argv)
{
    hs::init(argc, argv);
    while (hs::more()) {
        Term_table tt; std::string d; hs::setcur("");
        struct Seen { term_t t; std::tuple<int, int, std::vector<int>, std::string> key; };
        std::map<std::tuple<int, int, std::vector<int>, std::string>, int> ref; std::vector<Seen> all;
        std::vector<term_t> bs{true_term, false_term}, rs{zero_term}, vars;
        auto idx = [](term_t t) { return t.x >> 1; };
        auto verify = [&](Seen const& s) {
            auto const& [k, ty, as, c] = s.key;
            CHECK((int) tt.get_kind(s.t) == k, "the kind of a term changed (or is wrong)"); CHECK(tt.get_type(s.t) == ty, "the type of a term changed (or is wrong)");
            if (tt.get_kind(s.t) == Kind::ARITH_CONSTANT) { CHECK(rat::val(tt.arithmetic_constant_value(s.t)).get_str() == c, "the value of a constant changed (or is wrong)"); return; }
            if (tt.get_kind(s.t) == Kind::UNINTERPRETED_TERM || tt.get_kind(s.t) == Kind::CONSTANT_TERM) return;
            std::vector<int> a; if (tt.get_kind(s.t) == Kind::APP_TERM) a.push_back(tt.get_fnc_symbol(s.t).x);
            for (auto x : tt.get_args(s.t)) a.push_back(x.x);
            CHECK(a == as, "the arguments of a term changed (or are wrong)"); };
        auto note = [&](term_t t, Kind k, type_t ty, std::vector<int> as, std::string c) {
            CHECK(t.x >= 2 && t.x % 2 == 0, "a new term is a positive handle");
            Seen s{t, {(int) k, ty, as, c}};
            auto [it, fresh] = ref.insert({s.key, t.x});
            if (!fresh) CHECK(it->second == t.x, "an equal request returned another term");
            else { for (auto& o : all) CHECK(o.t.x != t.x, "a different request returned the same term"); all.push_back(s); }
            verify(s); };
        auto fresh = [&](type_t ty) { term_t t = tt.new_uninterpreted_constant(ty); for (auto& o : all) CHECK(o.t.x != t.x, "a fresh constant is not fresh"); all.push_back({t, {(int) Kind::UNINTERPRETED_TERM, ty, {}, "u" + std::to_string(t.x)}}); return t; };
        all.push_back({true_term, {(int) Kind::CONSTANT_TERM, types::bool_type, {}, "0"}});
        ref[{(int) Kind::CONSTANT_TERM, types::bool_type, {}, "0"}] = true_term.x;
        note(zero_term, Kind::ARITH_CONSTANT, types::real_type, {}, "0");
        int nv = hs::ri(2, 60); // enough handles for colliding hashes (31 apart)
        for (int i = 0; i < nv; ++i) { auto t = fresh(types::real_type); rs.push_back(t); vars.push_back(t); if (hs::coin()) bs.push_back(fresh(types::bool_type)); }
        auto B = [&] { term_t t = bs[hs::ri(0, bs.size() - 1)]; return hs::coin(3) ? opposite_term(t) : t; };
        auto R = [&] { return rs[hs::ri(0, rs.size() - 1)]; };
        auto X = [&] { return vars[hs::ri(0, vars.size() - 1)]; };
        auto xs = [&](std::vector<term_t> const& v) { std::vector<int> r; for (auto t : v) r.push_back(t.x); return r; };
        std::vector<term_t> last; int lastop = -1;
        int steps = hs::ri(5, 60);
        for (int s = 0; s < steps; ++s) {
            int op = hs::coin(3) && lastop >= 0 ? lastop : hs::ri(0, 9); std::vector<term_t> a;
            auto arity = [&](int lo, int hi) { return hs::ri(lo, hi); };
            bool again = op == lastop && !last.empty();
            if (again) {
                a = last; int w = hs::ri(0, 3);
                if (w == 1 && a.size() >= 2) { int i = hs::ri(0, a.size() - 2), k = hs::coin() ? 2 : -2; (void) i; // same hash: one up, the next 31 down
                    auto ok = [&](term_t t) { return std::find(vars.begin(), vars.end(), t) != vars.end(); };
                    for (int m : {2, 4}) { (void) k; term_t x{a[i].x + m}, y{a[i + 1].x - 31 * m}; if (ok(x) && ok(y)) { a[i] = x; a[i + 1] = y; break; } } }
                if (w == 2) { std::swap(a[0], a[a.size() - 1]); }
                if (w == 3 && op == 0) a.push_back(B());
            }
            d += " " + std::to_string(op); hs::setcur(d);
            term_t t;
            auto real = [&](term_t x) { return x.x % 2 == 0 && tt.get_type(x) == types::real_type; };
            auto var = [&](term_t x) { return real(x) && (tt.is_uninterpreted_constant(x) || tt.is_ite(x) || tt.is_app(x)); };
            switch (op) {
            case 0: if (!again) { int n = arity(2, 4); while (n--) a.push_back(B()); } d += "or"; t = tt.or_term(a); note(t, Kind::OR_TERM, types::bool_type, xs(a), ""); bs.push_back(t); break;
            case 1: { mpq_class q(hs::ri(-3, 3)); if (hs::coin()) q /= hs::ri(1, 4); if (hs::coin(4)) q *= mpq_class("4294967296"); if (hs::coin(6)) q += mpq_class("18446744073709551616"); q.canonicalize();
                t = tt.arithmetic_constant(rat::mk(q)); note(t, Kind::ARITH_CONSTANT, types::real_type, {}, q.get_str()); rs.push_back(t); break; }
            case 2: { if (!again) a = {X()}; a.resize(1); if (!var(a[0])) break; mpq_class q(hs::ri(1, 3)); if (hs::coin()) q = -q / 2; q.canonicalize(); term_t c = tt.arithmetic_constant(rat::mk(q)); note(c, Kind::ARITH_CONSTANT, types::real_type, {}, q.get_str());
                t = tt.arithmetic_product(rat::mk(q), a[0]); note(t, Kind::ARITH_PRODUCT, types::real_type, {c.x, a[0].x}, ""); rs.push_back(t); break; }
            case 3: case 4: { if (!again) { int n = arity(2, 4); while (n--) a.push_back(X()); } bool good = a.size() >= 2; for (auto x : a) good = good && real(x); if (!good) break; t = tt.arithmetic_polynomial(a); note(t, Kind::ARITH_POLY, types::real_type, xs(a), ""); rs.push_back(t); break; }
            case 5: a = {R()}; t = tt.arithmetic_geq_zero(a[0]); note(t, Kind::ARITH_GE_ATOM, types::bool_type, xs(a), ""); bs.push_back(t); break;
            case 6: a = {R()}; t = tt.arithmetic_eq_zero(a[0]); note(t, Kind::ARITH_EQ_ATOM, types::bool_type, xs(a), ""); bs.push_back(t); break;
            case 7: if (!again) a = {X(), X()}; a.resize(2, X()); if (!var(a[0]) || !real(a[1]) || tt.is_arithmetic_product(a[1]) || tt.is_arithmetic_polynomial(a[1])) break; t = tt.arithmetic_binary_eq(a[0], a[1]); note(t, Kind::ARITH_BINEQ_ATOM, types::bool_type, xs(a), ""); bs.push_back(t); break;
            case 8: if (!again) a = {B(), R(), R()}; if (a.size() != 3 || tt.get_type(a[0]) != types::bool_type || !real(a[1]) || !real(a[2])) break; t = tt.arithmetic_ite(a[0], a[1], a[2]); note(t, Kind::ITE_TERM, types::real_type, xs(a), ""); rs.push_back(t); vars.push_back(t); break;
            case 9: { if (!again) { int n = arity(2, 4); while (n--) a.push_back(X()); } type_t ty = hs::coin(3) ? types::bool_type : types::real_type; t = tt.app_term(ty, a); note(t, Kind::APP_TERM, ty, xs(a), ""); if (ty == types::real_type) { rs.push_back(t); vars.push_back(t); } else bs.push_back(t); break; }
            }
            (void) idx; last = a; lastop = op;
            if (hs::coin(6)) for (auto& o : all) verify(o);
        }
        for (auto& o : all) verify(o);
        hs::begin_case(d);
    }
    return hs::done();
}
