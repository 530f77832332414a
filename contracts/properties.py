"""Which contracts, native driver and bounded stand-ins decide which property."""
CAP = 'variable ordinals stay below 2^30, container sizes below 2^58 (memory capacity)'
LIB = 'standard library behaves as modelled in yagavc/stl.py'
SPECS = {}
LMAP = '''
namespace yaga { inline int yagavc_use_map(Literal l) {
  Literal_map<bool> a(3); a.resize(4); a[l] = true; a.assign(false); Literal_map<bool> const& ca = a;
  Literal_map<int> b(3); b.resize(4); b[l] = 1; b.assign(0); Literal_map<int> const& cb = b;
  return ca[l] + cb[l] + cb.num_vars() + ca.num_vars(); } }
'''
SPECS['C03'] = dict(modules=['literals'], native='c03.cpp', assumptions=[CAP, LIB], extra=LMAP)
SPECS['C04'] = dict(modules=['model'], uses=['literals'], native='c04.cpp', assumptions=[CAP, LIB, 'fewer than 2^31 assignments are made in one run (timestamp counter)'])
SPECS['C05'] = dict(modules=['trail'], native='c05.cpp', assumptions=[CAP, LIB, 'models of different variable types are separate objects (they are owned by unique_ptr)'])
import rational as _r
GMP = 'GMP functions compute what their documentation says (contracts/gmp.py: exact integers and canonical rationals)'
SPECS['C01'] = dict(modules=['rational'], only=sorted({c.name for c in _r.REPR + _r.ARITH}), native='c01.cpp', cxxflags=['-fno-access-control'], wall=500, assumptions=[LIB, GMP],
    bounded=['yaga::operator%(Long_fraction, Long_fraction)', 'yaga::Long_fraction::Long_fraction(char const*, int)', 'yaga::Long_fraction::get_str'],
    rule='random numbers around word limits, small, smooth and large, in each representation, with aliasing; oracle GMP mpq_class')
SPECS['C02'] = dict(modules=['rational'], only=sorted({c.name for c in _r.REPR + _r.ORDER}), native='c02.cpp', cxxflags=['-fno-access-control'], wall=400, assumptions=[LIB, GMP],
    bounded=['yaga::Long_fraction::getHashValue (limbs of large numbers)'],
    rule='random pairs around word limits in each representation, equal values computed differently; oracle GMP mpq_class')
FLOAT = 'scores are real numbers that are not NaN; rounding of scores is not modelled (the bounded search runs the real float code)'
SPECS['C14'] = dict(modules=['pqueue'], native='c14.cpp', assumptions=[CAP, LIB, FLOAT], bounded=['yaga::Variable_priority_queue::vars', 'yaga::Variable_priority_queue::rescale (rounding of floats)'], rule='random operation sequences on up to 122 variables with ties, checked against a reference map', seconds=8)
SPECS['C17'] = dict(modules=['restart'], native='c17.cpp', cxxflags=['-fno-access-control'], seconds=8, assumptions=[CAP, LIB, 'fewer than 2^22 restarts in one run', 'averages are exact reals (rounding of floats is not modelled)', 'lemma on a & (a + 1) decided by z3 over bit-vectors'])
SPECS['C16'] = dict(modules=['events'], native='c16.cpp', seconds=6, extra='#include "variable_order/Combined_order.h"\n', assumptions=[CAP, LIB, 'components passed to a dispatcher or combination are not null', 'a virtual call of a component may change anything but the list of components (components do not register others while an event is delivered)'],
    bounded=['yaga::Theory_combination::add_theory', 'yaga::Combined_order::add'], rule='random sets of recording components and random event sequences')
RATC = 'rational numbers behave as mathematical rationals (the contracts proved as C01 and C02)'
SPECS['C10'] = dict(modules=['linear'], native='c10.cpp', cxxflags=['-fno-access-control'], seconds=6, assumptions=[CAP, LIB, RATC])
SPECS['C09'] = dict(modules=['normal'], uses=['linear'], native='c09.cpp', cxxflags=['-fno-access-control'], seconds=6, assumptions=[CAP, LIB, RATC, 'the variables of one constraint are distinct (the polynomials of C20 provide that)', 'the hash set of constraints finds an element exactly when the contract of its equality says equal and that of its hash says equal hash', 'the number of non-zero coefficients and order-independent sums do not depend on the order of the terms (pigeonhole facts)', 'erasing an empty default-constructed range does nothing (constraint without variables that is already known)'],
    rule='sequences of constraints over up to 5 variables with zero coefficients, repeated up to order and factor or changed a little; oracle: normal form by GMP')
SPECS['C07'] = dict(modules=['subsume'], uses=['trail'], native='c07.cpp', seconds=6, assumptions=[CAP, LIB, 'learned clauses are separate objects', 'the clause to minimize is not itself a reason on the trail', 'a reason contains the literal it implies and its other literals were assigned earlier (C05, C08, C12)'],
    rule='series of related clauses over up to 40 variables and restarts; random trails with reasons over up to 7 variables, entailment checked by enumeration')
SPECS['C06'] = dict(modules=['conflict'], native='c06.cpp', seconds=8, assumptions=[CAP, LIB, 'the answers of Trail::decision_level and Model::value are those proved for C05 and C04', 'a reason on the trail is a clause that contains the literal it implies, its other literals are false and were assigned no later, one of them at the same level (C05, C08, C12)', 'counting literals of a set at a level: inserting or erasing one changes the count by one, a literal at the level makes it positive, and at most one makes them equal (facts of finite sets)', 'the callback of analyze changes neither the trail nor the analysis'],
    bounded=['resolution goes on until one literal of the conflict level is left, or no reason is left'],
    rule='random implication graphs over up to 9 variables; entailment by enumeration, levels and the first UIP recomputed')
SPECS['C08'] = dict(modules=['watched'], native='c08.cpp', seconds=8, assumptions=[CAP, LIB, 'the answers of Model are those proved for C04', 'adding to the watch list of another literal leaves the watch being replaced where it is'],
    bounded=['yaga::Bool_theory::falsified', 'yaga::Bool_theory::propagate', 'yaga::Bool_theory::initialize', 'yaga::Bool_theory::on_learned_clause', 'yaga::Theory::assigned'],
    rule='random clause databases and histories of decisions, propagation, learned clauses, backtracks and restarts; every value and conflict compared with the database')
SPECS['C11'] = dict(modules=['bounds'], uses=['linear'], native='c11.cpp', cxxflags=['-fno-access-control'], seconds=8, assumptions=[CAP, LIB, RATC, 'a bound (Implied_value) is never changed after its construction; contracts refer to its value, variable, strictness and validity by identity'],
    bounded=['yaga::Bounds::deduce_from_equality', 'yaga::Bounds::deduce_from_inequality', 'yaga::Bounds::is_implied', 'yaga::Bounds::changed', 'yaga::Bounds::count_distinct_bounds', 'yaga::Implied_value::is_obsolete', 'yaga::Implied_value::is_strict', 'yaga::Implied_value::compute_timestamps'],
    rule='random histories of assignments, unit constraints, deductions and backtracks over a few variables; oracle: tightest bounds recomputed from the trail with GMP')
SPECS['C12'] = dict(modules=['elim'], uses=['linear'], native='c12.cpp', cxxflags=['-fno-access-control'], seconds=8, assumptions=[CAP, LIB, RATC, 'Linear_polynomial::normalize keeps the polynomial (bounded search here and for C20)', 'a variable is eliminated between bounds from opposite sides, or with an equality (Bounds: C11)'],
    bounded=['yaga::Lra_conflict_analysis::eliminate', 'yaga::Fm_elimination::finish', 'yaga::detail::Linear_polynomial::normalize', 'yaga::Bound_conflict_analysis::analyze', 'yaga::Inequality_conflict_analysis::analyze', 'yaga::Linear_arithmetic::propagate, replace_watch, unit'],
    rule='random systems of linear constraints over a few variables, decided and propagated; every conflict clause and reason refuted by an independent exact Fourier-Motzkin elimination')
SPECS['C13'] = dict(modules=['decide'], native='c13.cpp', cxxflags=['-fno-access-control'], seconds=8, assumptions=[CAP, LIB, RATC, 'the bounds of the variable are consistent when it is decided (conflicts are reported by propagation: bounded search of C12)', 'the answers of the bounds are those proved for C11; asking does not change them', 'loops that search a value may not terminate (partial correctness); a value between two different bounds is found because only finitely many values are forbidden'],
    bounded=['termination of yaga::Linear_arithmetic::find_integer and decide'],
    rule='random bounds, strictness and forbidden values (integers and fractions); the decided value is compared with the constraints and with the existence of integers by GMP')
SPECS['C25'] = dict(modules=['search'], native='c25.cpp', cxxflags=['-fno-access-control'], seconds=8, assumptions=[CAP, LIB, 'theory, ordering and restart policy are set before the search starts', 'counters of the statistics stay below 2^31', 'the loop is not required to terminate'],
    bounded=['yaga::Solver::learn', 'yaga::Solver::backtrack_with', 'yaga::Solver::init', 'Event_dispatcher and Trail below the loop (proved for C16 and C05)'],
    rule='random boolean, arithmetic and mixed problems solved by the real loop with every restart policy and ordering inside an observer that checks each step of the protocol; answers compared with enumeration')
SPECS['C15'] = dict(modules=['order'], uses=['pqueue'], native='c15.cpp', cxxflags=['-fno-access-control'], seconds=8, extra='#include "variable_order/Combined_order.h"\n', assumptions=[CAP, LIB, FLOAT, 'the queue of variables holds fewer than 2^31 entries', 'variables at level 0 are assigned again before the first pick after a restart (bounded search only)'],
    bounded=['yaga::Generalized_vsids::pick_effectively_decided', 'yaga::Generalized_vsids::on_init, bump, rescale', 'yaga::Generalized_vsids::pick', 'yaga::Combined_order::pick (proved for C16)'],
    rule='random histories of the trail with linear constraints, conflicts, learned clauses, backtracks, restarts and new variables; every strategy asked at every step')
SPECS['C18'] = dict(modules=['terms'], native='c18.cpp', cxxflags=['-fno-access-control'], seconds=8, bounded=['mk_term (choice of the operation by name), mk_eq and distinct', 'Term_table: a new term means what its kind and arguments say (assumed in the proofs)', 'Polynomial operations add, subtract and scale (assumed in the proofs)'], assumptions=[CAP, LIB, RATC, 'terms do not change and equal numbers are one term (C19)', 'polynomials: merge, negate, multiply_by (C20)', 'a polynomial is represented by one term', 'arguments have the types the operation expects, products and quotients are linear'])
SPECS['C19'] = dict(modules=['table'], native='c19.cpp', cxxflags=['-fno-access-control'], seconds=8, bounded=['Term_table constructors: kind, type and hash put into a request', 'Term_table::get_args, get_fnc_symbol and the other accessors of contents'], assumptions=[CAP, LIB, RATC, 'an unordered set finds the entry under the hash of a request whose comparison with it succeeds, exactly when there is one', 'a descriptor is immutable (its members are private and never written) and lives as long as the table', 'equal requests have equal hashes (the hash functions read only kind, type and contents; bounded search)'])
SPECS['C20'] = dict(modules=['poly'], native='c20.cpp', cxxflags=['-fno-access-control'], seconds=8, extra='#include "utils/Linear_polynomial.h"\n', bounded=['yaga::Polynomial::merge, remove_var, divide_by', 'yaga::utils::Linear_polynomial::add, sub, sort', 'yaga::detail::Linear_polynomial::normalize', 'term and polynomial conversion (proved for C18 from the contracts here)'], assumptions=[CAP, LIB, RATC])
SPECS['C21'] = dict(modules=['numeral'], native='c21.cpp', parser=True, cxxflags=['-fno-access-control'], seconds=8, bounded=['mpq_set_str, mpz and string functions (external)', 'lexer rules (generated code)', 'yaga::parser::Smt2_term_parser::parse_term on constants'], assumptions=[CAP, LIB, RATC])
SPECS['C22'] = dict(modules=['scopes'], native='c22.cpp', parser=True, cxxflags=['-fno-access-control'], ldflags=['-Wl,--allow-multiple-definition'], seconds=10, bounded=['yaga::parser::Smt2_term_parser::parse_term: the order of frames and bindings for let, parallel binding, choice between local and global names', 'yaga::parser::Parser_context::resolve_term and the table of defined functions'], assumptions=[CAP, LIB, 'Term_manager::mk_term(kind, arguments) means every term of that kind whose arguments have the same meanings (C18), has their type, and is not a formal parameter (parameters are fresh, arguments of applications never contain them)', 'arguments of a term are older terms (C19)', 'equal strings are one name (std::string, its hash and comparison)'])
SPECS['C24'] = dict(modules=['cnf'], native='c24.cpp', parser=True, cxxflags=['-fno-access-control'], ldflags=['-Wl,--allow-multiple-definition'], seconds=10, bounded=['yaga::terms::Visitor::visit: every argument of a term is translated before the term', 'yaga::parser::Solver_wrapper::check: the literals of the assertions are asserted'], assumptions=[CAP, LIB, 'Term_visitor translates the arguments of a term before the term, each once', 'terms have the shapes their constructors give them (C18, C19)', 'Yaga::linear_constraint gives a literal that holds iff the relation does (C09, C10)', 'Linear_polynomial::negate and subtract_var (C20)', 'the assignment is any values of the solver variables in which the asserted clauses hold (soundness), or the values of what the variables stand for (completeness)'])
SPECS['C23'] = dict(modules=['congruence'], native='c23.cpp', parser=True, cxxflags=['-fno-access-control'], ldflags=['-Wl,--allow-multiple-definition'], seconds=15, extra='#include "uf/Uninterpreted_functions.h"\n',
    assumptions=[CAP, LIB, 'Trail::decision_level tells whether a variable is assigned (C05)', 'an application waits for at least one variable'],
    bounded=['yaga::Uninterpreted_functions::vars_to_watch, register_application_term: the list contains the application and every variable of its arguments', 'yaga::Uninterpreted_functions::propagate, evaluate, add_function_value, on_before_backtrack, get_model: the table of applications', 'yaga::Uninterpreted_functions::assert_equality, term_to_poly: the congruence lemma'],
    rule='random formulas with functions of one to three boolean and real arguments, solved by the real solver; answers compared with an assignment search, models (values and function tables) evaluated against the assertions')
