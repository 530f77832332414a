#include "rat.h"
using namespace rat;
int main(int argc, char** argv)
{
    hs::init(argc, argv);
    while (hs::more()) {
        mpq_class qa = rq(), qb = hs::coin(12) ? qa : hs::coin(12) ? -qa : rq();
        if (hs::coin(10)) { qb = mpq_class(qb.get_num(), qa.get_den()); qb.canonicalize(); }
        if (hs::coin(10) && qa != 0) { qb = (hs::coin() ? mpq_class(rz(false)) : mpq_class(1)) / qa; }
        Long_fraction a = mk(qa), b = mk(qb);
        hs::begin_case(s(qa) + " ; " + s(qb));
        wf(a, "construction"); wf(b, "construction");
        CHECK(val(a) == qa && val(b) == qb, "construction gives the value");
        auto res = [&](Long_fraction const& r, mpq_class const& q, char const* w) {
            wf(r, w);
            if (val(r) != q) hs::fail(std::string(w) + " gives " + s(val(r)) + " instead of " + s(q));
            wf(a, w); wf(b, w);
            if (val(a) != qa || val(b) != qb) hs::fail(std::string(w) + " changes an operand");
        };
        res(a + b, qa + qb, "a + b"); res(a - b, qa - qb, "a - b"); res(a * b, qa * qb, "a * b");
        res(b - a, qb - qa, "b - a");
        if (qb != 0) { res(a / b, qa / qb, "a / b"); res(b.inverse(), 1 / qb, "inverse of b"); res(b.inv(), 1 / qb, "inv of b"); }
        res(-a, -qa, "-a"); res(-b, -qb, "-b");
        res(a.get_num(), mpq_class(qa.get_num()), "numerator"); res(a.get_den(), mpq_class(qa.get_den()), "denominator");
        auto comp = [&](auto f, mpq_class const& q, char const* w) {
            Long_fraction t = a; if (hs::coin(3)) t.force_ensure_mpq_valid();
            f(t); wf(t, w);
            if (val(t) != q) hs::fail(std::string(w) + " gives " + s(val(t)) + " instead of " + s(q));
            if (val(b) != qb || val(a) != qa) hs::fail(std::string(w) + " changes an operand");
            wf(b, w);
        };
        comp([&](auto& t) { t += b; }, qa + qb, "a += b"); comp([&](auto& t) { t -= b; }, qa - qb, "a -= b"); comp([&](auto& t) { t *= b; }, qa * qb, "a *= b");
        if (qb != 0) comp([&](auto& t) { t /= b; }, qa / qb, "a /= b");
        comp([&](auto& t) { t.negate(); }, -qa, "negate");
        comp([&](auto& t) { t += t; }, qa + qa, "a += a"); comp([&](auto& t) { t -= t; }, 0, "a -= a"); comp([&](auto& t) { t *= t; }, qa * qa, "a *= a");
        if (qa != 0) comp([&](auto& t) { t /= t; }, 1, "a /= a");
        comp([&](auto& t) { t = b; }, qb, "a = b"); comp([&](auto& t) { Long_fraction c = b; t = std::move(c); }, qb, "a = move(b)");
        comp([&](auto& t) { auto& u = t; t = u; }, qa, "a = a");
        comp([&](auto& t) { t = t + b; t = t - b; }, qa, "a = a + b - b");
        { Long_fraction c(a), d(std::move(c)); res(d, qa, "move construction"); }
        if (fits(qa)) { int n = qa.get_num().get_si(); unsigned d = qa.get_den().get_ui(); res(Long_fraction(n, d), qa, "construction from a word fraction"); }
        { int n = (int) rz(false).get_si(); unsigned d = (unsigned) rz(true).get_ui(); if (d) { mpq_class q{mpz_class((long) n), mpz_class((unsigned long) d)}; q.canonicalize(); hs::setcur(std::to_string(n) + "/" + std::to_string(d)); res(Long_fraction(n, d), q, "construction from numerator and denominator"); hs::setcur(std::to_string(n)); res(Long_fraction(n), mpq_class((long) n), "construction from an integer"); hs::setcur(std::to_string(d)); res(Long_fraction((std::uint32_t) d), mpq_class((unsigned long) d), "construction from an unsigned integer"); } }
        {
            mpz_class x = rz(false), y = rz(false);
            if (y != 0) {
                hs::setcur(x.get_str() + " % " + y.get_str());
                Long_fraction fx = mk(mpq_class(x)), fy = mk(mpq_class(y)); mpz_class m; mpz_fdiv_r(m.get_mpz_t(), x.get_mpz_t(), y.get_mpz_t());
                Long_fraction r = fx % fy; wf(r, "remainder");
                if (val(r) != mpq_class(m)) hs::fail("remainder gives " + s(val(r)) + " instead of " + m.get_str());
                CHECK(val(fx) == mpq_class(x) && val(fy) == mpq_class(y), "remainder keeps its operands");
            }
        }
    }
    return hs::done();
}
