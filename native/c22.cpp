// C22: let and define-fun; random scripts read by the real command reader, the asserted terms compared with an independent evaluation of the text
#include "smt.h"
#include "parser/Smt2_parser.cpp"
struct Ex { enum K { num, name, op, let, call } k; std::string s; mpq_class v; std::vector<Ex> a; std::vector<std::string> binders; int sort; };
struct Fun { std::string name; std::vector<std::pair<std::string, int>> ps; int sort; Ex body; };
struct Ufun { std::string name; std::vector<int> ps; int sort; };
struct World { std::map<std::string, int> consts; std::vector<Fun> funs; std::vector<Ufun> ufs; };
using Scope = std::map<std::string, int>;
static std::string text(Ex const& e)
{
    switch (e.k) {
    case Ex::num: { mpq_class v = abs(e.v); std::string s = v.get_den() == 1 ? v.get_num().get_str() : "(/ " + v.get_num().get_str() + " " + v.get_den().get_str() + ")"; return e.v < 0 ? "(- " + s + ")" : s; }
    case Ex::name: return e.s;
    case Ex::let: { std::string s = "(let ("; for (size_t i = 0; i < e.binders.size(); ++i) s += (i ? " (" : "(") + e.binders[i] + " " + text(e.a[i]) + ")"; return s + ") " + text(e.a.back()) + ")"; }
    default: { std::string s = "(" + e.s; for (auto& x : e.a) s += " " + text(x); return s + ")"; }
    }
}
static char const* NAMES[] = {"x", "y", "z", "p", "q", "|a b|", "x!1", "w"};
static Ex gen(World const& w, Scope const& sc, int sort, int depth);
static Ex leaf(World const& w, Scope const& sc, int sort)
{
    std::vector<std::string> c; for (auto& [n, s] : sc) if (s == sort) c.push_back(n); for (auto& [n, s] : w.consts) if (s == sort && !sc.count(n)) c.push_back(n);
    for (auto& f : w.funs) if (f.ps.empty() && f.sort == sort && !sc.count(f.name)) c.push_back(f.name);
    if (!c.empty() && !hs::coin(5)) return {Ex::name, c[hs::ri(0, c.size() - 1)], 0, {}, {}, sort};
    if (sort == 0) return {Ex::name, hs::coin() ? "true" : "false", 0, {}, {}, 0};
    mpq_class v(hs::ri(-3, 3), hs::ri(1, 3)); v.canonicalize(); return {Ex::num, "", v, {}, {}, 1};
}
static Ex gen(World const& w, Scope const& sc, int sort, int depth)
{
    if (depth == 0 || hs::coin(6)) return leaf(w, sc, sort);
    int k = hs::ri(0, 9);
    if (k <= 2) { // let
        Ex e{Ex::let, "", 0, {}, {}, sort}; Scope in = sc; int n = hs::ri(1, 3);
        for (int i = 0; i < n; ++i) { std::string b = NAMES[hs::ri(0, 7)]; if (std::find(e.binders.begin(), e.binders.end(), b) != e.binders.end()) continue; int s = hs::ri(0, 1); e.binders.push_back(b); e.a.push_back(gen(w, sc, s, depth - 1)); in[b] = s; }
        e.a.push_back(gen(w, in, sort, depth - 1)); return e;
    }
    if (k <= 5) { std::vector<int> c; for (size_t i = 0; i < w.funs.size(); ++i) if (w.funs[i].sort == sort && !w.funs[i].ps.empty()) c.push_back(i);
        if (!c.empty()) { auto& f = w.funs[c[hs::ri(0, c.size() - 1)]]; Ex e{Ex::call, f.name, 0, {}, {}, sort}; for (auto& p : f.ps) e.a.push_back(gen(w, sc, p.second, depth - 1)); return e; } }
    if (k == 6) { std::vector<int> c; for (size_t i = 0; i < w.ufs.size(); ++i) if (w.ufs[i].sort == sort) c.push_back(i);
        if (!c.empty()) { auto& f = w.ufs[c[hs::ri(0, c.size() - 1)]]; Ex e{Ex::call, f.name, 0, {}, {}, sort}; for (auto p : f.ps) e.a.push_back(gen(w, sc, p, depth - 1)); return e; } }
    Ex e{Ex::op, "", 0, {}, {}, sort}; auto g = [&](int s) { e.a.push_back(gen(w, sc, s, depth - 1)); };
    if (sort == 1) switch (hs::ri(0, 4)) {
        case 0: case 1: e.s = "+"; g(1); g(1); if (hs::coin()) g(1); break;
        case 2: e.s = "-"; g(1); if (hs::coin()) g(1); break;
        case 3: { e.s = "*"; mpq_class v(hs::ri(-3, 3)); e.a.push_back({Ex::num, "", v, {}, {}, 1}); g(1); break; }
        default: e.s = "ite"; g(0); g(1); g(1);
    } else switch (hs::ri(0, 7)) {
        case 0: e.s = "and"; g(0); g(0); if (hs::coin()) g(0); break;
        case 1: e.s = "or"; g(0); g(0); if (hs::coin()) g(0); break;
        case 2: e.s = "not"; g(0); break;
        case 3: { static char const* r[] = {"<", "<=", ">", ">=", "="}; e.s = r[hs::ri(0, 4)]; g(1); g(1); break; }
        case 4: e.s = "ite"; g(0); g(0); g(0); break;
        case 5: e.s = "="; g(0); g(0); break;
        case 6: e.s = hs::coin() ? "xor" : "=>"; g(0); g(0); break;
        default: e.s = "distinct"; g(1); g(1); if (hs::coin()) g(1);
    }
    return e;
}
using Env = std::map<std::string, mpq_class>;
static mpq_class eval(World const& w, Env const& env, Ex const& e, terms::Term_manager& tm, tv::Assign const& as, Env const& global)
{
    auto ev = [&](Ex const& x) { return eval(w, env, x, tm, as, global); };
    auto B = [](bool b) { return mpq_class(b ? 1 : 0); };
    switch (e.k) {
    case Ex::num: return e.v;
    case Ex::name: if (env.count(e.s)) return env.at(e.s); if (e.s == "true") return 1; if (e.s == "false") return 0; if (global.count(e.s)) return global.at(e.s);
        for (auto& f : w.funs) if (f.name == e.s) return eval(w, {}, f.body, tm, as, global);
        hs::fail("unknown name in the oracle");
    case Ex::let: { Env in = env; for (size_t i = 0; i < e.binders.size(); ++i) in[e.binders[i]] = ev(e.a[i]); return eval(w, in, e.a.back(), tm, as, global); }
    case Ex::call: {
        std::vector<mpq_class> v; for (auto& x : e.a) v.push_back(ev(x));
        for (auto& f : w.funs) if (f.name == e.s) { Env in; for (size_t i = 0; i < v.size(); ++i) in[f.ps[i].first] = v[i]; return eval(w, in, f.body, tm, as, global); }
        for (auto& f : w.ufs) if (f.name == e.s) return as.fun(tm.get_term_by_name(f.name)->x, f.sort == 0, v);
        hs::fail("unknown function in the oracle"); }
    default: break;
    }
    std::vector<mpq_class> v; for (auto& x : e.a) v.push_back(ev(x));
    auto& o = e.s;
    if (o == "+") { mpq_class r = 0; for (auto& x : v) r += x; return r; }
    if (o == "-") return v.size() == 1 ? mpq_class(-v[0]) : mpq_class(v[0] - v[1]);
    if (o == "*") return v[0] * v[1];
    if (o == "ite") return v[0] != 0 ? v[1] : v[2];
    if (o == "and") { for (auto& x : v) if (x == 0) return 0; return 1; }
    if (o == "or") { for (auto& x : v) if (x != 0) return 1; return 0; }
    if (o == "not") return B(v[0] == 0);
    if (o == "<") return B(v[0] < v[1]); if (o == "<=") return B(v[0] <= v[1]); if (o == ">") return B(v[0] > v[1]); if (o == ">=") return B(v[0] >= v[1]);
    if (o == "=") return B(v[0] == v[1]); if (o == "xor") return B(v[0] != v[1]); if (o == "=>") return B(v[0] == 0 || v[1] != 0);
    if (o == "distinct") { for (size_t i = 0; i < v.size(); ++i) for (size_t j = 0; j < i; ++j) if (v[i] == v[j]) return 0; return 1; }
    hs::fail("unknown operation in the oracle"); return 0;
}
static char const* S[] = {"Bool", "Real"};
int main(int argc, char** argv)
{
    hs::init(argc, argv); static bool uf = std::getenv("NOUF") == nullptr;
    while (hs::more()) {
        World w; std::string d = "(set-logic QF_UFLRA)\n"; std::vector<Ex> asserted;
        auto strip = [](std::string s) { return s[0] == '|' ? s.substr(1, s.size() - 2) : s; };
        int nc = hs::ri(1, 4); for (int i = 0; i < nc; ++i) { std::string n = NAMES[hs::ri(0, 7)]; if (w.consts.count(n)) continue; int s = hs::ri(0, 1); w.consts[n] = s; d += "(declare-fun " + n + " () " + S[s] + ")\n"; }
        if (uf && hs::coin()) { Ufun f{"u", {}, hs::ri(0, 1)}; int n = hs::ri(1, 2); d += "(declare-fun u ("; for (int i = 0; i < n; ++i) { f.ps.push_back(hs::ri(0, 1)); d += std::string(" ") + S[f.ps.back()]; } d += std::string(") ") + S[f.sort] + ")\n"; w.ufs.push_back(f); }
        int nf = hs::ri(0, 3);
        for (int i = 0; i < nf; ++i) {
            Fun f; f.name = "f" + std::to_string(i); f.sort = hs::ri(0, 1); Scope sc; int n = hs::ri(0, 3);
            for (int k = 0; k < n; ++k) { std::string p = NAMES[hs::ri(0, 7)]; if (sc.count(p)) continue; int s = hs::ri(0, 1); sc[p] = s; f.ps.push_back({p, s}); }
            f.body = gen(w, sc, f.sort, hs::ri(0, 3));
            d += "(define-fun " + f.name + " ("; for (auto& [p, s] : f.ps) d += "(" + p + " " + S[s] + ")"; d += std::string(") ") + S[f.sort] + " " + text(f.body) + ")\n";
            w.funs.push_back(f);
            if (hs::coin(3)) { asserted.push_back(gen(w, {}, 0, 2)); d += "(assert " + text(asserted.back()) + ")\n"; }
        }
        int na = hs::ri(1, 3); for (int i = 0; i < na; ++i) { asserted.push_back(gen(w, {}, 0, hs::ri(1, 4))); d += "(assert " + text(asserted.back()) + ")\n"; }
        hs::setcur(d);
        std::istringstream in(d); std::ostringstream out; terms::Term_manager tm; Options opts; opts.deduce_bounds = true;
        yaga::parser::Smt2_command_context cc(in, out, tm, opts);
        try { cc.execute(); } catch (std::exception const& e) { hs::fail(std::string("reading the script throws ") + e.what()); }
        CHECK(out.str().empty(), "output " + out.str());
        CHECK(cc.assertions.size() == asserted.size(), "as many assertions as written");
        for (int r = 0; r < 4; ++r) {
            tv::Assign as; Env global;
            for (auto& [n, s] : w.consts) { auto t = tm.get_term_by_name(strip(n)); CHECK(t.has_value(), "a declared name is known"); mpq_class v = s == 0 ? mpq_class(hs::coin() ? 1 : 0) : mpq_class(hs::ri(-4, 4), hs::ri(1, 2)); v.canonicalize(); as.val[t->x >> 1] = v; global[n] = v; }
            for (size_t i = 0; i < asserted.size(); ++i) { tv::Eval ev{tm, as, {}}; auto got = ev(cc.assertions[i]), want = eval(w, {}, asserted[i], tm, as, global); CHECK(got == want, "assertion " + std::to_string(i) + " means " + got.get_str() + " instead of " + want.get_str()); }
        }
        hs::begin_case(d);
    }
    return hs::done();
}
