From 372353d0f434a1ebe3a6ddddc2d73caa101f2f7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:51 +0000
Subject: [PATCH 01/12] fix: reduce negative numerators correctly when
 constructing a fraction

The numerator was divided by an unsigned common factor, which converts a negative
numerator to a large unsigned number.
---
 src/lra/Long_fraction.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lra/Long_fraction.h b/src/lra/Long_fraction.h
index 6025818..9460093 100644
--- a/src/lra/Long_fraction.h
+++ b/src/lra/Long_fraction.h
@@ -650,7 +650,7 @@ inline Long_fraction::Long_fraction(word n, uword d) : state{State::WORD_VALID}
     } else {
         uword common = gcd<uword>(absVal(n), d);
         if (common > 1) {
-            num = n / common;
+            num = static_cast<word>(n / static_cast<lword>(common));
             den = d / common;
         } else {
             num = n;
-- 
2.43.0


From e4012d30f6173e8de0b3a4e5898a2ccce3ef2501 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:51 +0000
Subject: [PATCH 02/12] fix: compute the reciprocal of every non-zero rational
 exactly

inv() used the word part unconditionally, although it may be invalid or out of range
for the swapped fraction. Use the overflow checked inverse() instead.
---
 src/lra/Long_fraction.h | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/src/lra/Long_fraction.h b/src/lra/Long_fraction.h
index 9460093..c44c084 100644
--- a/src/lra/Long_fraction.h
+++ b/src/lra/Long_fraction.h
@@ -419,11 +419,7 @@ public:
     }
 
     inline Long_fraction inv() const {
-        if (sign() >= 0) {
-            return {static_cast<word>(den), static_cast<uword>(num)};
-        } else {
-            return {static_cast<word>(-den), static_cast<uword>(-num)};
-        }
+        return inverse();
     }
 };
 
-- 
2.43.0


From ed6ca676189a758a8222c17ee2e244d731394f23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:32 +0000
Subject: [PATCH 03/12] fix: give the remainder of a negative dividend the sign
 of the divisor

---
 src/lra/Long_fraction.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/lra/Long_fraction.h b/src/lra/Long_fraction.h
index c44c084..89ea634 100644
--- a/src/lra/Long_fraction.h
+++ b/src/lra/Long_fraction.h
@@ -409,8 +409,9 @@ public:
     Long_fraction operator%(const Long_fraction& d) {
         assert(isInteger() && d.isInteger());
         if (wordPartValid() && d.wordPartValid()) {
-            uword w = absVal(num % d.num);  // Largest value is absVal(INT_MAX % INT_MIN) = INT_MAX
-            return (word)(d.num > 0 ? w : -w); // No overflow since 0 <= w <= INT_MAX
+            lword w = lword(num) % d.num; // Computed in lword: WORD_MIN % -1 overflows in word
+            if (w != 0 && (w < 0) != (d.num < 0)) w += d.num;
+            return (word)w; // No overflow since |w| < |d.num|
         }
         Long_fraction r = (*this) / d;
         r = r.floor();
-- 
2.43.0


From fc9d4bdb2f159894f77813279eaebecb0e289a20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:44 +0000
Subject: [PATCH 04/12] fix: forward the conflict-resolved event of
 Combined_order as itself

Combined_order::on_conflict_resolved delivered the event to its
components as on_learned_clause.
---
 src/variable_order/Combined_order.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/variable_order/Combined_order.h b/src/variable_order/Combined_order.h
index c493c08..63d1905 100644
--- a/src/variable_order/Combined_order.h
+++ b/src/variable_order/Combined_order.h
@@ -100,7 +100,7 @@ public:
     {
         for (auto& heuristic : heuristics)
         {
-            heuristic->on_learned_clause(db, trail, other);
+            heuristic->on_conflict_resolved(db, trail, other);
         }
     }
 
-- 
2.43.0


From 84d995ab35eb36b1cdb923307007f3ea837a926f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:53 +0000
Subject: [PATCH 05/12] fix: bounds do not imply an equality or a disequality
 of unassigned variables

---
 src/lra/Bounds.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/lra/Bounds.cpp b/src/lra/Bounds.cpp
index 222b14d..a0e9f13 100644
--- a/src/lra/Bounds.cpp
+++ b/src/lra/Bounds.cpp
@@ -230,7 +230,8 @@ bool Bounds::is_implied(Models const& models, Constraint const& cons)
                 bound_ptr = bounds[*var_it].lower_bound(models);
             }
 
-            if (!bound_ptr)
+            // a bound of a variable implies neither an equality nor its negation
+            if (!bound_ptr || cons.pred() == Order_predicate::eq)
             {
                 return false;
             }
-- 
2.43.0


From 1e1dd413fb869c24c4755c4db75bfbc9d56279c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:53 +0000
Subject: [PATCH 06/12] fix: do not push an effectively decided variable twice

---
 src/variable_order/Generalized_vsids.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/variable_order/Generalized_vsids.cpp b/src/variable_order/Generalized_vsids.cpp
index df10383..1485d1a 100644
--- a/src/variable_order/Generalized_vsids.cpp
+++ b/src/variable_order/Generalized_vsids.cpp
@@ -82,7 +82,10 @@ std::optional<Variable> Generalized_vsids::pick_effectively_decided(Trail& trail
     for (int var_ord : lra->effectively_decided())
     {
         Variable var{var_ord, Variable::rational};
-        effectively_decided.push(var, score(var));
+        if (!effectively_decided.contains(var))
+        {
+            effectively_decided.push(var, score(var));
+        }
     }
 
     // decide effectively decided variables first
-- 
2.43.0


From f7d8b76125889c970f8edcbfd87c01aac7cbe598 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:38 +0000
Subject: [PATCH 07/12] fix: scaling a product back to coefficient one gives
 the variable itself

(* 2 (* (/ 1 2) x)) was built as the product 1*x, a second representation of x,
so (= x (* 2 (* (/ 1 2) x))) hit the assertion that the difference of two
different terms is not the zero polynomial.
---
 src/terms/Term_manager.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/terms/Term_manager.cpp b/src/terms/Term_manager.cpp
index 293e60a..cdb75bd 100644
--- a/src/terms/Term_manager.cpp
+++ b/src/terms/Term_manager.cpp
@@ -648,7 +648,12 @@ term_t Term_manager::mk_arithmetic_times(std::span<term_t> args)
     case Kind::ARITH_PRODUCT: {
         term_t var = term_table->var_of_product(poly_term);
         auto const& coeff = term_table->coeff_of_product(poly_term);
-        return term_table->arithmetic_product(coeff * val, var);
+        Rational new_coeff = coeff * val;
+        if (new_coeff == 1) // (1/c) * (c * x) -> x
+        {
+            return var;
+        }
+        return term_table->arithmetic_product(new_coeff, var);
     }
     case Kind::ARITH_POLY:
     {
-- 
2.43.0


From 139c7b0301bd4a0969f03652747a0106ac06743c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:08 +0000
Subject: [PATCH 08/12] fix: substitution visits subterms, keeps negations and
 function symbols

---
 src/terms/Term_rewriter.h | 25 ++++++++++++++++++-------
 1 file changed, 18 insertions(+), 7 deletions(-)

diff --git a/src/terms/Term_rewriter.h b/src/terms/Term_rewriter.h
index 930d1d3..be3555e 100644
--- a/src/terms/Term_rewriter.h
+++ b/src/terms/Term_rewriter.h
@@ -30,7 +30,8 @@ public:
         std::vector<term_t> aux_args;
         auto is_processed = [&processed](term_t term) { return processed.find(term) != processed.end(); };
 
-        toProcess.emplace_back(root);
+        // terms are processed by their positive handle, negations are applied where they occur
+        toProcess.emplace_back(positive_term(root));
         while (not toProcess.empty())
         {
             auto & current_entry = toProcess.back();
@@ -39,20 +40,24 @@ public:
             auto children = tm.get_args(current_term);
             if (current_entry.next_child < children.size())
             {
-                term_t next_child = children[current_entry.next_child];
+                term_t next_child = positive_term(children[current_entry.next_child]);
                 ++current_entry.next_child;
-                if (is_processed(next_child)) { toProcess.emplace_back(next_child); }
+                if (not is_processed(next_child)) { toProcess.emplace_back(next_child); }
                 continue;
             }
             // If we are here, we have already processed all children
             assert(substitutions.count(current_term) == 0);
             bool needs_change = false;
+            if (tm.get_kind(current_term) == Kind::APP_TERM)
+            {
+                aux_args.push_back(tm.get_fnc_symbol(current_term));
+            }
             for (term_t child : children)
             {
-                auto it = substitutions.find(child);
+                auto it = substitutions.find(positive_term(child));
                 bool child_changed = it != substitutions.end();
                 needs_change |= child_changed;
-                term_t newChild = child_changed ? it->second : child;
+                term_t newChild = child_changed ? with_polarity_of(it->second, child) : child;
                 assert(tm.get_type(child) == tm.get_type(newChild));
                 aux_args.push_back(newChild);
             }
@@ -67,8 +72,14 @@ public:
             toProcess.pop_back();
         }
 
-        auto it = substitutions.find(root);
-        return it == substitutions.end() ? root : it->second;
+        auto it = substitutions.find(positive_term(root));
+        return it == substitutions.end() ? root : with_polarity_of(it->second, root);
+    }
+
+private:
+    static term_t with_polarity_of(term_t term, term_t occurrence)
+    {
+        return is_negated(occurrence) ? opposite_term(term) : term;
     }
 };
 
-- 
2.43.0


From 65086a3f6ca22898058ca64b6f6685c1786b571b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:33 +0000
Subject: [PATCH 09/12] fix: clausal translation of negated boolean
 applications

---
 src/parser/Solver_wrapper.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/parser/Solver_wrapper.cpp b/src/parser/Solver_wrapper.cpp
index 08a1f76..725fef8 100644
--- a/src/parser/Solver_wrapper.cpp
+++ b/src/parser/Solver_wrapper.cpp
@@ -223,6 +223,7 @@ void Internalizer_config::visit(term_t t)
         return;
     }
     case terms::Kind::APP_TERM: {
+        t = term_manager.positive_term(t);
         terms::type_t term_type = term_manager.get_type(t);
         Variable::Type var_type;
         switch (term_type) {
-- 
2.43.0


From a71acde434f7a3bffe10f2da6a0142faeff3be2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:10 +0000
Subject: [PATCH 10/12] fix: uninterpreted functions respect negated boolean
 arguments

---
 src/uf/Uninterpreted_functions.cpp | 45 ++++++++++++++++++++++++++----
 src/uf/Uninterpreted_functions.h   |  7 +++++
 2 files changed, 47 insertions(+), 5 deletions(-)

diff --git a/src/uf/Uninterpreted_functions.cpp b/src/uf/Uninterpreted_functions.cpp
index 83008c5..c7e257b 100644
--- a/src/uf/Uninterpreted_functions.cpp
+++ b/src/uf/Uninterpreted_functions.cpp
@@ -74,11 +74,10 @@ std::optional<Variable> Uninterpreted_functions::term_to_var(terms::term_t t) {
         break;
     }
     case terms::types::bool_type: {
-        auto key_equal = [=](std::pair<terms::term_t, Literal> p) { return p.first == t; };
-        auto found = std::ranges::find_if(bool_vars, key_equal);
-        if (found != bool_vars.end())
+        std::optional<Literal> maybe_lit = term_to_literal(t);
+        if (maybe_lit.has_value())
         {
-            return found->second.var();
+            return maybe_lit.value().var();
         }
         break;
     }
@@ -87,6 +86,19 @@ std::optional<Variable> Uninterpreted_functions::term_to_var(terms::term_t t) {
     return std::nullopt;
 }
 
+std::optional<Literal> Uninterpreted_functions::term_to_literal(terms::term_t t) {
+    assert(term_manager.get_type(t) == terms::types::bool_type);
+    // only positive terms are mapped
+    terms::term_t positive_term = term_manager.positive_term(t);
+    auto key_equal = [=](std::pair<terms::term_t, Literal> p) { return p.first == positive_term; };
+    auto found = std::ranges::find_if(bool_vars, key_equal);
+    if (found == bool_vars.end())
+    {
+        return std::nullopt;
+    }
+    return term_manager.is_negated(t) ? ~found->second : found->second;
+}
+
 std::vector<Variable> Uninterpreted_functions::vars_to_watch(terms::term_t t) {
     std::vector<Variable> result;
 
@@ -168,7 +180,7 @@ Uninterpreted_functions::Term_evaluation Uninterpreted_functions::evaluate(const
         case terms::types::bool_type: {
             Model<bool> const& b_model = trail.model<bool>(Variable::boolean);
             bool bool_model_value = b_model.value(maybe_var.value().ord());
-            result.value = bool_model_value;
+            result.value = bool_model_value != term_to_literal(t).value().is_negation();
             break;
         }
         }
@@ -270,6 +282,29 @@ utils::Linear_polynomial Uninterpreted_functions::term_to_poly(terms::term_t t)
 void Uninterpreted_functions::assert_equality(terms::term_t t, terms::term_t u, Trail& trail, Clause& result_clause, bool make_equal) {
     assert(term_manager.get_type(t) == term_manager.get_type(u));
     switch(term_manager.get_type(t)) {
+    case terms::types::bool_type: {
+        if (t == u) {
+            return;
+        }
+
+        // both terms are assigned, the lemma excludes their current values
+        for (terms::term_t term : {t, u}) {
+            std::optional<Literal> maybe_lit = term_to_literal(term);
+            if (!maybe_lit.has_value()) { // a constant
+                continue;
+            }
+
+            Literal lit = maybe_lit.value();
+            if (std::get<bool>(evaluate(term, trail).value)) {
+                lit.negate();
+            }
+
+            if (std::ranges::find(result_clause, lit) == result_clause.end()) {
+                result_clause.push_back(lit);
+            }
+        }
+        break;
+    }
     case terms::types::real_type:
         // polynomial p == (t - u)
         utils::Linear_polynomial p = term_to_poly(t);
diff --git a/src/uf/Uninterpreted_functions.h b/src/uf/Uninterpreted_functions.h
index 5b604f9..b73a448 100644
--- a/src/uf/Uninterpreted_functions.h
+++ b/src/uf/Uninterpreted_functions.h
@@ -145,6 +145,13 @@ private:
      */
     std::vector<Variable> vars_to_watch(terms::term_t t);
 
+    /** Get the literal mapped to a boolean term @p t, or to its negation
+     *
+     * @param t boolean term
+     * @return literal which is true iff @p t is true, or none if no literal is mapped to @p t
+     */
+    std::optional<Literal> term_to_literal(terms::term_t t);
+
     /** Check if there is a Variable directly mapped to @p t
      *
      * @param t term to check
-- 
2.43.0


From d490e5f9918d060d718dff890e9b918b7f52cc76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:43 +0000
Subject: [PATCH 11/12] fix: clausal translation of the constant false below a
 function

---
 src/parser/Solver_wrapper.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/Solver_wrapper.cpp b/src/parser/Solver_wrapper.cpp
index 725fef8..b667bd0 100644
--- a/src/parser/Solver_wrapper.cpp
+++ b/src/parser/Solver_wrapper.cpp
@@ -326,7 +326,7 @@ void Internalizer_config::visit(term_t t)
 
     case terms::Kind::CONSTANT_TERM:
     {
-        if (t != terms::true_term)
+        if (term_manager.positive_term(t) != terms::true_term)
         {
             throw std::logic_error("Unhandled internalize case!");
         }
-- 
2.43.0


From 8523cc03f55d381a139f7d47e2a347fdad990f72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:31:44 +0000
Subject: [PATCH 12/12] fix: congruence literals are propagated at the level of
 their own variables

---
 src/uf/Uninterpreted_functions.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/uf/Uninterpreted_functions.cpp b/src/uf/Uninterpreted_functions.cpp
index c7e257b..6e35543 100644
--- a/src/uf/Uninterpreted_functions.cpp
+++ b/src/uf/Uninterpreted_functions.cpp
@@ -340,7 +340,12 @@ void Uninterpreted_functions::assert_equality(terms::term_t t, terms::term_t u,
             Term_evaluation u_eval = evaluate(u, trail);
             assert(are_equal == (t_eval.value == u_eval.value));
 
-            int propagation_level = std::max<int>(t_eval.decision_level, u_eval.decision_level);
+            // variables which occur in both terms can cancel out, only the rest decides the literal
+            int propagation_level = 0;
+            for (int var_ord : p.vars) {
+                auto level = trail.decision_level(Variable{var_ord, Variable::rational});
+                propagation_level = std::max<int>(propagation_level, level.value());
+            }
             trail.propagate(lit.var(), nullptr, propagation_level);
             trail_model.set_value(lit.var().ord(), are_equal);
         }
-- 
2.43.0

