I = ['inputs']; H = ['inputs', 'histories']
prop('C01', 'Rational arithmetic is exact',
     'Every arithmetic operation on rational numbers (construction from a numerator and a denominator, addition, subtraction, multiplication, division, their in-place forms, negation, inverse, remainder) returns exactly the mathematical result, for machine-word values, values at the word limits and arbitrarily large values, also when operands and destination are the same object. The operands keep their values and every result is in lowest terms with a positive denominator.',
     I, 'for all pairs of rational numbers in every internal representation, and every aliasing of operands and destination',
     'the word-sized fast paths overflow only at particular magnitudes; unit tests sample a few numbers out of 2^128 pairs',
     ['src/lra/Long_fraction.h', 'src/lra/Long_fraction.cpp'],
     [('representation', 'a word fraction, an arbitrary precision fraction, or both with equal value', 'src/lra/Long_fraction.h'), ('lowest terms', 'numerator and denominator are coprime, the denominator is positive', 'src/lra/Long_fraction.h')],
     [('overflow-checked fast path with fallback to GMP', 'src/lra/Long_fraction.h')], ['the value returned by each operation'], claim=False)
prop('C02', 'Rational comparison, rounding and hashing agree with the value',
     'Comparison, equality and sign of rational numbers agree with the order of the mathematical values, floor and ceiling are the nearest integers below and above, and the integrality test holds exactly for integers. Equal numbers have equal hashes and compare equal however they were computed or are represented.',
     I, 'for all pairs of rational numbers in every internal representation',
     'the failing values are at word limits, negative non-integers or mixed representations that a handful of samples misses',
     ['src/lra/Long_fraction.h', 'src/lra/Long_fraction.cpp'],
     [('representation', 'word part, arbitrary precision part, or both', 'src/lra/Long_fraction.h')],
     [('cross multiplication compare', 'src/lra/Long_fraction.h')], ['results of comparison, rounding and hash functions'], claim=False)
prop('C03', 'Literals and literal maps denote what they encode',
     'A literal built from a variable denotes that variable positively; negating it twice gives it back, negating once gives a different literal of the same variable, and equality, ordering and hashing of literals agree with equality of variable and sign. A table indexed by literals has one independent entry for every literal of every variable it was sized for, and no other.',
     I, 'for all variables and signs, all pairs of literals, all table sizes',
     'the encoding must be injective over the whole range of variables; tests use small ordinals',
     ['src/Literal.h', 'src/Literal_map.h', 'src/Variable.h'],
     [('literal code', 'positive code for a variable, negative for its negation', 'src/Literal.h'), ('slot', 'two table slots per variable', 'src/Literal_map.h')],
     [('sign encoding', 'src/Literal.h'), ('literal table indexing', 'src/Literal_map.h')], ['literal and table operations'])
prop('C04', 'Partial assignments are evaluated as three-valued logic',
     'A partial assignment records for each variable whether it has a value, which one, and how recent it is; assigning or clearing a variable changes that variable only, growing the assignment keeps it. A literal evaluates to its truth value exactly if its variable is assigned; a clause is true if and only if some literal is true, false if and only if all its literals are false, and undetermined otherwise.',
     H, 'for all partial assignments and all clauses, after any sequence of assignments, clears and resizes',
     'a clause can have any length and any pattern of assigned literals; order of the literals must not matter',
     ['src/Model.h', 'src/Clause.h'],
     [('assigned flags, values, timestamps', 'one of each per variable', 'src/Model.h')], [('clause evaluation', 'src/Model.h')], ['evaluation results, assignment accessors'])
prop('C05', 'The trail is an exact history of the assignment',
     'At every moment the variables on the trail are exactly the assigned variables, each once, at the decision level at which they were assigned and with the reason recorded then. Returning to an earlier level removes exactly the assignments above that level and leaves everything at or below it unchanged; opening a level does not change what is assigned.',
     H, 'for all sequences of decisions, propagations and backtracks over any number of variables of several types',
     'bugs need particular multi-level histories; the state must agree after every one of them',
     ['src/Trail.cpp', 'src/Trail.h'],
     [('per-level assignment lists', 'assignments in order, by level', 'src/Trail.h'), ('level and reason tables', 'level and reason of each assigned variable', 'src/Trail.h')],
     [('propagate/decide/backtrack', 'src/Trail.h')], ['trail accessors and models after each operation'])
prop('C06', 'Learned clauses are implied and assert at the level returned to',
     'From a conflicting clause, conflict analysis derives a clause that follows by resolution from the conflict and the reasons on the trail, is false under the current assignment, and has exactly one literal of the highest level involved when it is not a semantic split. The level it tells the solver to return to is below the conflict level and makes the learned clause undetermined with one literal left, so that search makes progress.',
     H, 'for all trails and all conflicting clauses over them',
     'soundness must hold for every implication graph, tests contain a few fixed graphs',
     ['src/Conflict_analysis.cpp', 'src/Conflict_analysis.h'],
     [('current conflict', 'set of literals, counts at top level', 'src/Conflict_analysis.h')], [('first UIP resolution', 'src/Conflict_analysis.cpp')], ['returned clause and level'], claim=False)
prop('C07', 'Clause simplification never weakens or strengthens the clause set',
     'Removing subsumed clauses deletes only clauses that contain every literal of another clause that is kept. Minimizing a learned clause removes only literals whose removal is justified by resolution with reasons on the trail, so the minimized clause still follows and is still false under the assignment.',
     H, 'for all clause sets, trails and learned clauses',
     'depends on the whole set of clauses; wrong removals show only as rare wrong answers',
     ['src/Subsumption.cpp', 'src/Subsumption.h'],
     [('occurrence lists', 'clauses by literal', 'src/Subsumption.h')], [('bitmap subset test', 'src/Subsumption.cpp')], ['clauses kept and literals kept'], claim=False)
prop('C08', 'Boolean propagation is sound, justified and complete',
     'Each value assigned by boolean propagation is forced: its reason is a clause of the database, starting with the assigned literal, all of whose other literals are false. A reported conflict is a clause of the database that is false, and when propagation reports none, no clause of the database is false or has exactly one undetermined literal with all others false.',
     H, 'for all clause databases and all sequences of decisions, propagations, learned clauses and backtracks',
     'watch lists are only right if an invariant over all clauses survives every history',
     ['src/bool/Bool_theory.cpp', 'src/bool/Bool_theory.h'],
     [('watch lists', 'each clause is watched by two of its literals', 'src/bool/Bool_theory.h')], [('two watched literals', 'src/bool/Bool_theory.cpp')], ['trail and conflicts after propagation'], claim=False)
prop('C09', 'Normalization of linear constraints preserves their solutions',
     'A linear constraint built from any variables, coefficients, relation and right-hand side has exactly the same solutions as the one asked for, with the literal returned for it negated exactly when the stored form is the complement. Building the same constraint again, in any variable order and up to a non-zero factor that keeps its meaning, yields the same boolean variable, and different constraints never share one.',
     I, 'for all coefficient vectors, relations and right-hand sides, and all earlier constraints',
     'sign flips, strictness and order matter for every coefficient combination; samples cannot show injectivity',
     ['src/lra/Linear_constraints.h', 'src/lra/Linear_constraint.h'],
     [('constraint store', 'variables, coefficients, relation, right-hand side per boolean variable', 'src/lra/Linear_constraints.h')], [('normal form and hash set', 'src/lra/Linear_constraints.h')], ['the constraint returned, its evaluation'], claim=False)
prop('C10', 'Linear constraints evaluate, complement and imply correctly',
     'Under an assignment of all its variables a linear constraint is true exactly when the weighted sum satisfies its relation with the right-hand side, and it is undetermined otherwise; its complement is true exactly when it is false. The bound it implies for its first variable, when the others are assigned, holds for exactly the values of that variable that satisfy the constraint.',
     I, 'for all constraints and assignments',
     'all combinations of relation, sign, strictness and assigned variables must agree',
     ['src/lra/Linear_constraints.h', 'src/lra/Linear_constraint.h'],
     [('predicate and literal sign', 'relation of the constraint, complemented by its literal', 'src/lra/Linear_constraint.h')], [('evaluation', 'src/lra/Linear_constraints.h')], ['evaluation result, implied value'], claim=False)
prop('C11', 'Variable bounds are the tightest consequences of the assignment',
     'The lower and upper bounds and the forbidden values kept for a real variable are each implied by a constraint that is assigned true and whose other variables are assigned, bounds that no longer hold after backtracking are not used, and the current bound is the tightest of those that are still valid. A value is reported allowed exactly when it is within the current bounds and not forbidden.',
     H, 'for all sequences of bound additions, assignments and backtracks',
     'validity depends on the history of assignments, and strict and non-strict bounds at equal values',
     ['src/lra/Bounds.h', 'src/lra/Variable_bounds.h'],
     [('bound stacks', 'bounds of each variable ordered by tightness', 'src/lra/Bounds.h')], [('obsolete bound removal', 'src/lra/Bounds.h')], ['bounds and allowed values'], claim=False)
prop('C12', 'Arithmetic conflict clauses are theory lemmas',
     'Every conflict clause and every propagation reason produced by linear arithmetic is valid: no assignment of real values falsifies it. It is false under the current assignment, and every new constraint in it has the value it has under the current assignment.',
     H, 'for all bound conflicts, disequality conflicts and chains of derived bounds',
     'elimination must combine constraints with the right multipliers, signs and strictness in every case',
     ['src/lra/Lra_conflict_analysis.cpp', 'src/lra/Lra_conflict_analysis.h', 'src/lra/Linear_arithmetic.cpp'],
     [('derived constraint', 'linear combination of the conflicting bounds', 'src/lra/Lra_conflict_analysis.h')], [('Fourier-Motzkin elimination', 'src/lra/Lra_conflict_analysis.cpp')], ['conflict clauses'], claim=False)
prop('C13', 'Arithmetic decisions pick allowed values',
     'When linear arithmetic decides a real variable, the value it picks satisfies every bound and disequality in force for that variable. A value is found whenever one exists, and integers are preferred only among allowed values.',
     H, 'for all bounds, strictness and finite sets of forbidden values',
     'rounding inside open intervals and long runs of forbidden values are corner cases over all rationals',
     ['src/lra/Linear_arithmetic.cpp', 'src/lra/Linear_arithmetic.h', 'src/lra/Bounds.h'],
     [('bounds of the variable', 'lower, upper, forbidden values', 'src/lra/Bounds.h')], [('decision value search', 'src/lra/Linear_arithmetic.cpp')], ['decided value'], claim=False)
prop('C14', 'The variable priority queue is a heap of the pending variables',
     'The queue always holds each pending variable exactly once, top is a variable with the highest priority among those held, and membership tests are exact. Inserting, removing the top and changing a priority keep this for every sequence of operations.',
     H, 'for all sequences of queue operations and all priorities',
     'heap repair is only exercised by particular shapes and orders',
     ['src/variable_order/Variable_priority_queue.cpp', 'src/variable_order/Variable_priority_queue.h'],
     [('heap and position tables', 'heap array, position of each variable', 'src/variable_order/Variable_priority_queue.h')], [('sift up and down', 'src/variable_order/Variable_priority_queue.cpp')], ['top, membership, size'], claim=False)
prop('C15', 'Branching picks an unassigned variable whenever there is one',
     'Each variable ordering strategy returns a variable that has no value, of a type it is responsible for, and returns none only when every variable it is responsible for is assigned. This holds after any history of decisions, propagations, conflicts, restarts and new variables.',
     H, 'for all histories of solver events',
     'a variable lost from the queue makes the solver answer sat too early, only after particular backtracks',
     ['src/variable_order/Evsids.cpp', 'src/variable_order/Generalized_vsids.cpp', 'src/variable_order/First_unassigned.cpp', 'src/variable_order/Combined_order.h'],
     [('variables waiting to be decided', 'superset of the unassigned variables', 'src/variable_order/Evsids.h')], [('pick and backtrack refill', 'src/variable_order/Evsids.cpp')], ['picked variable'], claim=False)
prop('C16', 'Every component sees every solver event exactly once',
     'Each event of the search (start, new variables, decision, propagation, conflict, learned clause, conflict resolved, backtrack, restart) is delivered to every registered component exactly once, with the arguments it was raised with, in registration order. Combining several theories or orderings into one delivers each event to each of them, and propagation and deciding consult each theory.',
     H, 'for all sets of registered components and all events',
     'a missing or crossed event only shows as a rare stale state in one component',
     ['src/Event_dispatcher.h', 'src/Event_listener.h', 'src/Theory_combination.cpp', 'src/variable_order/Combined_order.h'],
     [('listener list', 'registered components in order', 'src/Event_dispatcher.h')], [('event forwarding', 'src/Event_dispatcher.h')], ['calls received by components'], claim=False)
prop('C17', 'Restart policies follow their schedule',
     'The Luby policy restarts after numbers of conflicts that follow the Luby sequence times its multiplier, the no-restart policy never restarts, and the glucose policy restarts exactly when its fast average exceeds its slow average by the configured margin after the minimum number of conflicts. A restart resets the conflict count.',
     H, 'for all positions in the sequence and all sequences of conflicts',
     'the sequence is unbounded; a sampled prefix does not settle the rest',
     ['src/Restart.h'],
     [('conflict counters', 'conflicts since the last restart', 'src/Restart.h')], [('Luby recurrence', 'src/Restart.h')], ['should-restart answers'], claim=False)
prop('C18', 'Term construction and simplification preserve meaning',
     'A term built by any constructor of the term manager (connectives, equality, if-then-else, comparison, arithmetic) has the same value as the operation applied to its arguments, under every assignment of the free symbols. Simplifications, negation by sign and shared constants never change that value.',
     I, 'for all argument terms and all assignments',
     'each simplification is conditional on argument shapes, and argument combinations are unbounded',
     ['src/terms/Term_manager.cpp', 'src/terms/Terms.cpp'],
     [('term table', 'kind and arguments of each term', 'src/terms/Terms.h')], [('simplifying constructors', 'src/terms/Term_manager.cpp')], ['the term returned'], claim=False)
prop('C19', 'Equal terms are shared, different terms never are',
     'Two requests for a term with the same kind, type and arguments return the same term; requests that differ return different terms. The properties of a term (kind, type, arguments) never change once it has been built.',
     H, 'for all sequences of term constructions',
     'collisions in the hash table need particular hashes; sharing must hold for all',
     ['src/terms/Term_hash_table.cpp', 'src/terms/Term_hash_table.h', 'src/terms/Terms.cpp'],
     [('hash table', 'terms by structure', 'src/terms/Term_hash_table.h')], [('hash consing', 'src/terms/Term_hash_table.cpp')], ['term identity'], claim=False)
prop('C20', 'Polynomial manipulation preserves the polynomial',
     'Adding, subtracting, negating, scaling and normalizing linear polynomials gives the polynomial with the mathematically expected coefficient for every variable, each variable at most once and no zero coefficient after normalization. Converting between terms and polynomials keeps the value.',
     I, 'for all polynomials',
     'merging is over arbitrary many variables and cancelling coefficients',
     ['src/utils/Linear_polynomial.cpp', 'src/utils/Linear_polynomial.h', 'src/terms/Arithmetic_polynomial.h'],
     [('monomial list', 'variable and coefficient pairs', 'src/utils/Linear_polynomial.h')], [('sorted merge', 'src/utils/Linear_polynomial.cpp')], ['coefficients'], claim=False)
prop('C21', 'Numerals and decimals are read exactly',
     'A numeral, decimal or quotient of numerals in the input denotes exactly that rational number, whatever its length, sign and number of digits.',
     I, 'for all digit strings',
     'length is unbounded and rounding shows only for long inputs',
     ['src/terms/Term_manager.cpp', 'src/lra/Long_fraction.cpp'],
     [('digits', 'integer and fractional part', 'src/terms/Term_manager.cpp')], [('string to rational', 'src/lra/Long_fraction.cpp')], ['constant value'], claim=False)
prop('C22', 'Local and defined names mean their definitions',
     'A name bound by let denotes its value exactly in the body, with parallel binding and shadowing, and the outer meaning returns afterwards. Applying a defined function means its body with the parameters replaced by the arguments.',
     I, 'for all nestings of bindings and all definitions',
     'scoping errors need nesting and shadowing that tests do not enumerate',
     ['src/parser/Parser_context.cpp', 'src/parser/Smt2_term_parser.cpp', 'src/terms/Term_rewriter.h'],
     [('scopes', 'stack of bindings per name', 'src/parser/Parser_context.h')], [('simultaneous substitution', 'src/terms/Term_rewriter.h')], ['the term denoted'], claim=False)
prop('C23', 'Uninterpreted functions are functions',
     'When all variables are assigned and no conflict is reported, two applications of the same function to equal argument values have the same value. A conflict clause reported for function applications is a valid congruence lemma that is false under the assignment.',
     H, 'for all sets of applications and all orders of assignment',
     'congruence must hold over all pairs of applications and all assignment orders',
     ['src/uf/Uninterpreted_functions.cpp', 'src/uf/Uninterpreted_functions.h'],
     [('application table', 'argument values and value of each application', 'src/uf/Uninterpreted_functions.h')], [('value hashing', 'src/uf/Uninterpreted_functions.cpp')], ['conflicts and final assignment'], claim=False)
prop('C24', 'Clausal translation is equisatisfiable',
     'The clauses produced for an asserted formula are satisfied, for every assignment of its atoms that satisfies it, by some values of the added variables, and by none for an assignment that falsifies it.',
     I, 'for all formulas',
     'formulas are unbounded and each connective and polarity must be right',
     ['src/parser/Solver_wrapper.cpp'],
     [('term to literal table', 'literal of each subterm', 'src/parser/Solver_wrapper.cpp')], [('Tseitin translation', 'src/parser/Solver_wrapper.cpp')], ['clause database'], claim=False)
prop('C25', 'The search loop learns, backtracks and stops correctly',
     'After a conflict above level zero, the learned clauses are added to the database, the search returns to the level computed, and the values they force are assigned with the learned clause as reason. Unsat is answered only after a conflict at level zero or an empty learned clause, and sat only when no theory reports a conflict and no variable is left to decide.',
     H, 'for all problems and all runs of the search',
     'the path that fails is one particular conflict among millions',
     ['src/Solver.cpp', 'src/Solver.h'],
     [('clause database', 'asserted and learned clauses', 'src/Database.h')], [('conflict-driven search loop', 'src/Solver.cpp')], ['answer, database and trail'], claim=False)
CL = {'C23', 'C24', 'C22', 'C21', 'C20', 'C19', 'C18', 'C12', 'C08', 'C06', 'C01', 'C02', 'C03', 'C04', 'C05', 'C07', 'C09', 'C10', 'C11', 'C13', 'C14', 'C15', 'C16', 'C17', 'C25'}
CLAIMED |= CL
for x in CL: NA.pop(x, None)
