// value of a term read off its structure, under an assignment of the uninterpreted constants
#pragma once
#include "harness.h"
#include "rat.h"
#include "Term_manager.h"
#include "Terms.h"
#include "Arithmetic_polynomial.h"
using namespace yaga; using namespace yaga::terms;
namespace tv {
using V = mpq_class;                              // booleans are 0 and 1
struct Assign {
    std::map<int, V> val;                          // by index of the uninterpreted constant
    bool tables = false; std::map<int, std::map<std::vector<V>, V>> table;      // values of functions, if they are given
    V fun(int symbol, bool bool_result, std::vector<V> const& a) const
    {
        if (tables) { auto f = table.find(symbol); CHECK(f != table.end(), "the model has a table for each function"); auto v = f->second.find(a); CHECK(v != f->second.end(), "the model has a value for each application"); return v->second; }   // some fixed function of the argument values
        std::string s = std::to_string(symbol); for (auto& x : a) s += "," + x.get_str();
        size_t h = std::hash<std::string>{}(s);
        if (bool_result) return V((long) (h >> 7 & 1));
        return V((long) (h >> 7 & 7) - 3);
    }
};
struct Eval {
    Term_manager& tm; Assign const& as; std::unordered_map<int, V> memo;
    V operator()(term_t t)
    {
        V v = pos(positive_of(t));
        if (t.x & 1) { CHECK(tm.get_type(t) == types::bool_type, "only boolean terms are negated"); return 1 - v; }
        return v;
    }
    static term_t positive_of(term_t t) { return term_t{t.x & ~1}; }
    V pos(term_t t)
    {
        auto it = memo.find(t.x); if (it != memo.end()) return it->second;
        V r;
        std::vector<term_t> a; for (auto x : tm.get_args(t)) a.push_back(x);
        switch (tm.get_kind(t)) {
        case Kind::CONSTANT_TERM: CHECK(t == true_term, "the only constant is true"); r = 1; break;
        case Kind::ARITH_CONSTANT: r = rat::val(tm.arithmetic_constant_value(t)); break;
        case Kind::UNINTERPRETED_TERM: r = as.val.count(t.x >> 1) ? as.val.at(t.x >> 1) : V(0); break;
        case Kind::ITE_TERM: CHECK(a.size() == 3, "if-then-else has three arguments"); r = (*this)(a[0]) != 0 ? (*this)(a[1]) : (*this)(a[2]); break;
        case Kind::APP_TERM: { std::vector<V> vs; for (auto x : a) vs.push_back((*this)(x)); r = as.fun(tm.get_fnc_symbol(t).x, tm.get_type(t) == types::bool_type, vs); break; }
        case Kind::OR_TERM: r = 0; for (auto x : a) if ((*this)(x) != 0) r = 1; break;
        case Kind::XOR_TERM: r = 0; for (auto x : a) r = r == (*this)(x) ? 0 : 1; break;
        case Kind::EQ_TERM: r = (*this)(a[0]) == (*this)(a[1]) ? 1 : 0; break;
        case Kind::DISTINCT_TERM: r = 1; for (size_t i = 0; i < a.size(); ++i) for (size_t j = 0; j < i; ++j) if ((*this)(a[i]) == (*this)(a[j])) r = 0; break;
        case Kind::ARITH_EQ_ATOM: CHECK(a.size() == 1, "one argument"); r = (*this)(a[0]) == 0 ? 1 : 0; break;
        case Kind::ARITH_GE_ATOM: CHECK(a.size() == 1, "one argument"); r = (*this)(a[0]) >= 0 ? 1 : 0; break;
        case Kind::ARITH_BINEQ_ATOM: CHECK(a.size() == 2, "two arguments"); r = (*this)(a[0]) == (*this)(a[1]) ? 1 : 0; break;
        case Kind::ARITH_PRODUCT: CHECK(a.size() == 2, "two arguments"); r = (*this)(a[0]) * (*this)(a[1]); break;
        case Kind::ARITH_POLY: r = 0; for (auto x : a) r += (*this)(x); break;
        default: hs::fail("unexpected kind of term");
        }
        memo[t.x] = r; return r;
    }
};
// everything that must never change once a term has been built
struct Shape {
    Kind kind; type_t type; std::vector<int> args; std::string constant; int symbol = 0;
    bool operator==(Shape const&) const = default;
    auto key() const { return std::tuple((int) kind, type, args, constant, symbol); }
};
inline Shape shape(Term_manager& tm, term_t t)
{
    Shape s; s.kind = tm.get_kind(t); s.type = tm.get_type(t);
    for (auto x : tm.get_args(t)) s.args.push_back(x.x);
    if (s.kind == Kind::ARITH_CONSTANT) s.constant = rat::val(tm.arithmetic_constant_value(t)).get_str();
    if (s.kind == Kind::APP_TERM) s.symbol = tm.get_fnc_symbol(t).x;
    return s;
}
}
