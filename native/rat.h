// generation of rational numbers in every representation and their exact value by GMP
#pragma once
#include "harness.h"
#include "Long_fraction.h"
using yaga::Long_fraction;
namespace rat {
inline mpq_class val(Long_fraction const& f)
{
    if (f.wordPartValid()) { mpq_class q(mpz_class((long) f.num), mpz_class((unsigned long) f.den)); return q; }
    return mpq_class(f.mpq);
}
inline std::string s(mpq_class const& q) { return q.get_str(); }
inline void wf(Long_fraction const& f, char const* what)
{
    if (!f.wordPartValid() && !f.mpqPartValid()) hs::fail(std::string(what) + ": no representation is valid");
    if (f.wordPartValid()) {
        if (f.den == 0 || std::gcd((long) std::abs((long) f.num), (long) f.den) != 1) hs::fail(std::string(what) + ": not in lowest terms");
    }
    if (f.mpqPartValid()) {
        mpq_class q(f.mpq); mpq_class c = q; c.canonicalize();
        if (q.get_den() != c.get_den() || q.get_num() != c.get_num() || sgn(q.get_den()) <= 0) hs::fail(std::string(what) + ": not in lowest terms (gmp)");
        if (f.wordPartValid() && q != mpq_class(mpz_class((long) f.num), mpz_class((unsigned long) f.den))) hs::fail(std::string(what) + ": both representations differ");
        if (!f.wordPartValid() && q.get_num().fits_sint_p() && q.get_den().fits_uint_p()) hs::fail(std::string(what) + ": value fits a word but is not stored as one");
    }
}
inline mpz_class rz(bool pos)
{
    static long const sp[] = {0, 1, 2, 3, 4, 5, 6, 7, 10, 12, 30, 60, 64, 100, 210, 1000, 46340, 46341, 65535, 65536, 65537, 1048576, 2147483645L, 2147483646L, 2147483647L, 2147483648L, 2147483649L, 4294967294L, 4294967295L, 4294967296L, 4294967297L, 9223372036854775807L};
    mpz_class r;
    switch (hs::ri(0, 9)) {
    case 0: case 1: case 2: r = hs::ri(0, 12); break;
    case 3: case 4: r = sp[hs::ri(0, std::size(sp) - 1)]; break;
    case 5: r = hs::ri(0, 2147483647L); break;
    case 6: r = hs::ri(2147480000L, 2147483648L); break;
    case 7: r = hs::ri(0, 4294967295L); break;
    case 8: { r = 1; for (int i = hs::ri(1, 5); i > 0; --i) r *= sp[hs::ri(1, std::size(sp) - 1)]; break; }
    default: { static int const pr[] = {2, 2, 2, 3, 3, 5, 7, 11, 13}; r = 1; while (r < 2147483648L && !hs::coin(12)) r *= pr[hs::ri(0, 8)]; }
    }
    if (pos) { if (r < 0) r = -r; if (r == 0) r = 1; } else if (hs::coin()) r = -r;
    return r;
}
inline mpq_class rq() { mpq_class q(rz(false), hs::coin(3) ? mpz_class(1) : rz(true)); q.canonicalize(); return q; }
inline bool fits(mpq_class const& q) { return q.get_num().fits_sint_p() && q.get_den().fits_uint_p(); }
// a number of value q, in one of its representations
inline Long_fraction mk(mpq_class const& q)
{
    Long_fraction f;
    if (fits(q) && !hs::coin(6)) f = Long_fraction((int) q.get_num().get_si(), (unsigned) q.get_den().get_ui());
    else { std::string t = q.get_str(); f = Long_fraction(t.c_str(), 10); }
    if (hs::coin(4)) f.force_ensure_mpq_valid();
    else if (hs::coin(6)) { Long_fraction big("123456789012345678901234567890/7", 10); big = f; f = std::move(big); }
    return f;
}
}
