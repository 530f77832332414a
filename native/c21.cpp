// C21: numerals, decimals and quotients of numerals denote exactly the number written (oracle: digit strings read by GMP)
#include "smt.h"
static std::string digits(int n, bool lead) { std::string s; for (int i = 0; i < n; ++i) s += char('0' + (hs::coin(4) ? 9 * hs::coin() : hs::ri(0, 9))); if (!lead && n > 1 && s[0] == '0') s[0] = char('1' + hs::ri(0, 8)); return s; }
static int len() { switch (hs::ri(0, 4)) { case 0: return hs::ri(1, 3); case 1: return hs::ri(8, 11); case 2: return hs::ri(17, 22); case 3: return hs::ri(1, 60); default: return 1; } }
static std::string special() { static char const* v[] = {"2147483647", "2147483648", "2147483649", "4294967295", "4294967296", "4294967297", "9223372036854775807", "9223372036854775808", "18446744073709551615", "18446744073709551616", "0", "1", "10", "1000000000", "1000000000000000000000"}; return v[hs::ri(0, 14)]; }
static std::string numeral() { return hs::coin(3) ? special() : digits(len(), hs::coin(5)); }
static mpq_class value(std::string const& s)
{
    auto p = s.find('.'); if (p == std::string::npos) return mpq_class(mpz_class(s, 10));
    std::string f = s.substr(p + 1); mpz_class d = 1; for (size_t i = 0; i < f.size(); ++i) d *= 10;
    mpq_class q(mpz_class(s.substr(0, p) + f, 10), d); q.canonicalize(); return q;
}
static std::string literal() { if (hs::coin()) return numeral(); std::string f = hs::coin(4) ? std::string(hs::ri(0, 12), '0') + digits(hs::ri(1, 4), true) : digits(len(), true); if (hs::coin(5)) f += std::string(hs::ri(1, 10), '0'); return numeral() + "." + f; }
struct Text { std::string s; mpq_class v; };
static Text number(int depth)
{
    int k = depth ? hs::ri(0, 5) : 0; 
    if (k <= 2) { auto l = literal(); return {l, value(l)}; }
    if (k == 3) { auto a = number(depth - 1); return {"(- " + a.s + ")", -a.v}; }
    if (k == 4) { auto a = number(depth - 1), b = number(depth - 1); if (b.v == 0) return {"(* " + a.s + " " + b.s + ")", mpq_class(0)}; mpq_class q = a.v / b.v; return {"(/ " + a.s + " " + b.s + ")", q}; }
    auto a = number(depth - 1), b = number(depth - 1); return {"(- " + a.s + " " + b.s + ")", a.v - b.v};
}
static void constant(Term_manager& tm, term_t t, mpq_class const& v, char const* what)
{
    CHECK(tm.get_kind(t) == Kind::ARITH_CONSTANT, std::string(what) + " is not a constant");
    auto g = rat::val(tm.arithmetic_constant_value(t)); CHECK(g == v, std::string(what) + " is read as " + g.get_str() + " instead of " + v.get_str());
}
int main(int argc, char** argv)
{
    hs::init(argc, argv);
    while (hs::more()) {
        Term_manager tm;
        for (int i = 0; i < 5; ++i) {
            auto n = numeral(); hs::setcur("mk_integer_constant " + n); constant(tm, tm.mk_integer_constant(n), value(n), "the numeral"); hs::begin_case(n);
            auto d = literal(); hs::setcur("mk_rational_constant " + d); constant(tm, tm.mk_rational_constant(d), value(d), "the decimal"); hs::begin_case(d);
            hs::setcur("Rational(\"" + n + "\")"); CHECK(rat::val(Rational(n.c_str())) == value(n), "the string constructor reads another number"); 
        }
        Text x = number(hs::ri(0, 3)); hs::setcur("parse " + x.s);
        smt::Session s(x.s + " "); term_t t = s.tp.parse_term(); constant(s.tm, t, x.v, "the text"); hs::begin_case(x.s);
    }
    return hs::done();
}
