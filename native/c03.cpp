#include "harness.h"
#include "Literal.h"
#include "Literal_map.h"
#include "Variable.h"
using namespace yaga;
int main(int argc, char** argv)
{
    hs::init(argc, argv);
    while (hs::more()) {
        int big = hs::coin(8) ? (1 << 29) : 40;
        int a = hs::ri(0, big), b = hs::coin(3) ? a : hs::ri(0, big);
        bool na = hs::coin(), nb = hs::coin();
        Literal x{a}, y{b};
        if (na) x = ~x;
        if (nb) y.negate();
        hs::begin_case("literals " + std::to_string(a) + (na ? "-" : "+") + " " + std::to_string(b) + (nb ? "-" : "+"));
        CHECK(x.var().ord() == a && x.var().type() == Variable::boolean && x.is_negation() == na, "literal denotes its variable and sign");
        CHECK(y.var().ord() == b && y.is_negation() == nb, "literal denotes its variable and sign");
        bool same = a == b && na == nb;
        CHECK((x == y) == same && (x != y) == !same, "equality");
        CHECK(~~x == x && ~x != x && (~x).var() == x.var(), "negation");
        CHECK((x.var() == y.var()) == (a == b), "variable equality");
        auto c = x <=> y;
        CHECK((c == 0) == same, "order is total");
        long ix = 2L * a + na, iy = 2L * b + nb;
        CHECK((c < 0) == (ix < iy), "order by variable, then sign");
        Literal_comparer lc; CHECK(lc(x, y) == (ix < iy), "comparer");
        Literal_hash h; if (same) CHECK(h(x) == h(y), "hash of equal literals");
        if (a < 40 && b < 40) {
            Literal_map<int> m(41); Literal_map<bool> mb(41);
            m[x] = 7; m[y] = 9; mb[y] = true;
            CHECK(m[y] == 9 && (same || m[x] == 7), "map entries are independent");
            CHECK(mb[y] && (same || !mb[x]), "map entries are independent");
            m.assign(3); CHECK(m[x] == 3 && m[y] == 3, "assign all");
            CHECK(m.num_vars() == 41, "number of variables");
            m.resize(50); CHECK(m.num_vars() == 50, "number of variables");
        }
        Variable v{a, Variable::boolean}, w{b, nb ? Variable::rational : Variable::boolean};
        CHECK((v == w) == (a == b && !nb) && (v != w) == !(a == b && !nb), "variables of different type differ");
    }
    return hs::done();
}
