#include "rat.h"
#include "Linear_constraint.h"
#include "Linear_constraints.h"
using namespace yaga;
using Q = Long_fraction;
using Key = std::tuple<std::vector<std::pair<int, mpq_class>>, int, mpq_class>;
struct Less { bool operator()(Key const& a, Key const& b) const {
    auto& [x, p, r] = a; auto& [y, q, s] = b;
    if (x.size() != y.size()) return x.size() < y.size();
    for (size_t i = 0; i < x.size(); ++i) { if (x[i].first != y[i].first) return x[i].first < y[i].first; if (x[i].second != y[i].second) return x[i].second < y[i].second; }
    return p != q ? p < q : r < s; } };
struct Asked { std::vector<int> v; std::vector<mpq_class> c; Order_predicate::Type p; mpq_class rhs; };
static mpq_class small() { mpq_class q(hs::ri(-4, 4), hs::coin(3) ? hs::ri(1, 3) : 1); q.canonicalize(); return hs::coin(20) ? rat::rq() : q; }
static bool rel(int p, mpq_class const& a, mpq_class const& b) { return p == Order_predicate::eq ? a == b : p == Order_predicate::lt ? a < b : a <= b; }
static std::string str(Asked const& a)
{
    std::string d;
    for (size_t i = 0; i < a.v.size(); ++i) d += (i ? " + " : "") + a.c[i].get_str() + "*x" + std::to_string(a.v[i]);
    return (d.empty() ? "0" : d) + (a.p == Order_predicate::eq ? " = " : a.p == Order_predicate::lt ? " < " : " <= ") + a.rhs.get_str() + "; ";
}
static Key key(Asked const& a)
{
    std::vector<std::pair<int, mpq_class>> t;
    for (size_t i = 0; i < a.v.size(); ++i) if (a.c[i] != 0) t.emplace_back(a.v[i], a.c[i]);
    std::sort(t.begin(), t.end(), [](auto& x, auto& y) { return x.first < y.first; });
    if (t.empty()) return {t, 0, 0};
    mpq_class f = t[0].second; int p = a.p;
    if (f < 0 && p != Order_predicate::eq) p = p == Order_predicate::lt ? Order_predicate::leq : Order_predicate::lt;
    for (auto& [v, c] : t) { (void) v; c = c / f; }
    return {t, p, mpq_class(a.rhs / f)};
}
int main(int argc, char** argv)
{
    hs::init(argc, argv);
    while (hs::more()) {
        int n = hs::ri(1, 5);
        Linear_constraints<Q> rep;
        std::map<Key, int, Less> known;
        std::vector<Asked> all; std::vector<Linear_constraint<Q>> built;
        std::string d;
        for (int k = hs::ri(1, 8); k > 0; --k) {
            Asked a;
            if (!all.empty() && hs::coin()) {          // an earlier one, permuted and scaled, sometimes changed a little
                a = all[hs::ri(0, all.size() - 1)];
                std::vector<size_t> o(a.v.size()); std::iota(o.begin(), o.end(), 0); std::shuffle(o.begin(), o.end(), hs::rng);
                mpq_class f; do f = small(); while (f == 0);
                if (hs::coin(4)) f = -1;
                Asked b; for (auto i : o) { b.v.push_back(a.v[i]); b.c.push_back(f * a.c[i]); }
                b.p = a.p; b.rhs = f * a.rhs;
                if (f < 0 && hs::coin() && b.p != Order_predicate::eq) b.p = b.p == Order_predicate::lt ? Order_predicate::leq : Order_predicate::lt;
                if (hs::coin(4) && !b.c.empty()) { auto i = hs::ri(0, b.c.size() - 1); b.c[i] = hs::coin() ? mpq_class(-b.c[i]) : small(); }
                if (hs::coin(8) && b.c.size() > 1) std::swap(b.c[0], b.c[1]);
                if (hs::coin(8)) b.rhs = small();
                if (hs::coin(8)) b.p = std::array{Order_predicate::eq, Order_predicate::lt, Order_predicate::leq}[hs::ri(0, 2)];
                if (hs::coin(8) && !b.v.empty()) { b.v.pop_back(); b.c.pop_back(); }
                a = b;
            } else {
                a.v.resize(n); std::iota(a.v.begin(), a.v.end(), 0); std::shuffle(a.v.begin(), a.v.end(), hs::rng); a.v.resize(hs::ri(0, n));
                for (size_t i = 0; i < a.v.size(); ++i) a.c.push_back(small());
                a.p = std::array{Order_predicate::eq, Order_predicate::lt, Order_predicate::leq}[hs::ri(0, 2)];
                a.rhs = small();
            }
            d += str(a);
            hs::begin_case("make in order: " + d, a.v.size() > 0);
            std::vector<Q> cs; for (auto& q : a.c) cs.push_back(rat::mk(q));
            auto c = rep.make(a.v, cs, a.p, rat::mk(a.rhs));
            auto kk = key(a);
            auto [it, fresh] = known.insert({kk, (int) known.size()});
            if (fresh) for (auto& [k2, o] : known) if (o != it->second) CHECK(o != c.lit().var().ord(), "different constraints never share a boolean variable");
            if (fresh) it->second = c.lit().var().ord();
            CHECK(it->second == c.lit().var().ord(), "the same constraint gets the same boolean variable");
            all.push_back(a); built.push_back(c);
            // every constraint built so far still has the solutions asked for
            for (size_t j = 0; j < all.size(); ++j) if (j + 1 == all.size() || hs::coin(3)) {
                auto& x = all[j]; auto& y = built[j];
                CHECK((size_t) y.size() == std::get<0>(key(x)).size(), "one stored term per non-zero coefficient");
                for (int t = 0; t < 3; ++t) {
                    std::vector<mpq_class> val(n); for (auto& q : val) q = small();
                    mpq_class s = 0; int nz = -1;
                    for (size_t i = 0; i < x.v.size(); ++i) { s += x.c[i] * val[x.v[i]]; if (x.c[i] != 0) nz = i; }
                    if (t && nz >= 0) { val[x.v[nz]] += (x.rhs - s) / x.c[nz]; s = x.rhs; }
                    Model<Q> m; m.resize(n); std::string vs;
                    for (int v = 0; v < n; ++v) { m.set_value(v, rat::mk(val[v])); vs += " x" + std::to_string(v) + "=" + val[v].get_str(); }
                    hs::setcur("make in order: " + d + " then evaluate " + str(x) + "with" + vs);
                    bool want = rel(x.p, s, x.rhs);
                    CHECK(y.eval(m) == want, "same solutions as the constraint asked for");
                    auto st = rep[y.lit().var().ord()];
                    CHECK(st.eval(m) == (want != y.lit().is_negation()), "negated exactly when the stored form is the complement");
                }
            }
        }
    }
    return hs::done();
}
