#include "rat.h"
using namespace rat;
int main(int argc, char** argv)
{
    hs::init(argc, argv);
    while (hs::more()) {
        mpq_class qa = rq(), qb = hs::coin(5) ? qa : hs::coin(9) ? -qa : rq();
        if (hs::coin(10)) { mpq_class d(1, rz(true)); d.canonicalize(); qb = qa + d; }
        Long_fraction a = mk(qa), b = mk(qb);
        hs::begin_case(s(qa) + " ; " + s(qb));
        int c = cmp(qa, qb);
        CHECK((a == b) == (c == 0), "=="); CHECK((a != b) == (c != 0), "!="); CHECK((a < b) == (c < 0), "<"); CHECK((a <= b) == (c <= 0), "<="); CHECK((a > b) == (c > 0), ">"); CHECK((a >= b) == (c >= 0), ">=");
        int k = a.compare(b); CHECK((k < 0) == (c < 0) && (k > 0) == (c > 0), "compare");
        int sg = a.sign(); CHECK((sg < 0) == (sgn(qa) < 0) && (sg > 0) == (sgn(qa) > 0), "sign");
        CHECK(a.isZero() == (sgn(qa) == 0), "isZero"); CHECK(a.isOne() == (qa == 1), "isOne");
        CHECK(a.isInteger() == (qa.get_den() == 1), "integrality");
        mpz_class f, g; mpz_fdiv_q(f.get_mpz_t(), qa.get_num_mpz_t(), qa.get_den_mpz_t()); mpz_cdiv_q(g.get_mpz_t(), qa.get_num_mpz_t(), qa.get_den_mpz_t());
        CHECK(val(a.floor()) == mpq_class(f), "floor"); CHECK(val(a.ceil()) == mpq_class(g), "ceiling");
        wf(a.floor(), "floor"); wf(a.ceil(), "ceil");
        Long_fraction a2 = (a + b) - b, a3 = mk(qa);
        CHECK(a2 == a && a == a3, "the same value computed differently is equal");
        CHECK(a.getHashValue() == a2.getHashValue() && a.getHashValue() == a3.getHashValue(), "equal numbers have equal hashes");
        CHECK(std::hash<Long_fraction>{}(a) == std::hash<Long_fraction>{}(a2), "std::hash of equal numbers");
        if (c == 0) CHECK(a.getHashValue() == b.getHashValue(), "equal numbers have equal hashes");
        wf(a, "comparison"); wf(b, "comparison"); CHECK(val(a) == qa && val(b) == qb, "operands keep their values");
    }
    return hs::done();
}
