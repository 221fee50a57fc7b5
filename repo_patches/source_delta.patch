From fa8b5846de9d0e04c1f240ca1613adb5e84dfe46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:28:16 +0000
Subject: [PATCH 01/41] fix: keep the fractional part in
 Expression::fixed_term_value

---
 printemps/model_component/expression.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/printemps/model_component/expression.h b/printemps/model_component/expression.h
index f3eae0a..c7316d3 100644
--- a/printemps/model_component/expression.h
+++ b/printemps/model_component/expression.h
@@ -392,7 +392,7 @@ class Expression : public multi_array::AbstractMultiArrayElement {
 
     /*************************************************************************/
     inline T_Expression fixed_term_value(void) {
-        int fixed_term_value = 0;
+        T_Expression fixed_term_value = 0;
         for (const auto &sensitivity : m_sensitivities) {
             if (sensitivity.first->is_fixed()) {
                 fixed_term_value +=
-- 
2.43.0


From 7b8f29d8195b49477ca357bbd792fee187b6c85e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:28:16 +0000
Subject: [PATCH 02/41] fix: keep the constant when an expression is assigned
 from an expression proxy

---
 printemps/model_component/expression.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/printemps/model_component/expression.h b/printemps/model_component/expression.h
index c7316d3..bfb9e12 100644
--- a/printemps/model_component/expression.h
+++ b/printemps/model_component/expression.h
@@ -500,8 +500,9 @@ class Expression : public multi_array::AbstractMultiArrayElement {
     template <template <class, class> class T_ExpressionLike>
     inline Expression<T_Variable, T_Expression> &operator=(
         const T_ExpressionLike<T_Variable, T_Expression> &a_EXPRESSION_LIKE) {
-        m_sensitivities  = a_EXPRESSION_LIKE.to_expression().sensitivities();
-        m_constant_value = 0;
+        const auto EXPRESSION = a_EXPRESSION_LIKE.to_expression();
+        m_sensitivities       = EXPRESSION.sensitivities();
+        m_constant_value      = EXPRESSION.constant_value();
         return *this;
     }
 
-- 
2.43.0


From 0329b4e011c0e8e17defa9d80605502781ce496f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:05:11 +0000
Subject: [PATCH 03/41] fix: refresh coefficient properties of a constraint
 when its structure is analysed again

---
 printemps/model_component/constraint.h | 33 +++++++++++++++++---------
 1 file changed, 22 insertions(+), 11 deletions(-)

diff --git a/printemps/model_component/constraint.h b/printemps/model_component/constraint.h
index 4238381..f626734 100644
--- a/printemps/model_component/constraint.h
+++ b/printemps/model_component/constraint.h
@@ -223,17 +223,11 @@ class Constraint : public multi_array::AbstractMultiArrayElement {
     }
 
     /*************************************************************************/
-    inline void setup(const Expression<T_Variable, T_Expression> &a_EXPRESSION,
-                      const ConstraintSense                       a_SENSE) {
-        m_expression       = a_EXPRESSION;
-        m_sense            = a_SENSE;
-        m_constraint_value = 0;
-        m_violation_value  = 0;
-        m_margin_value     = 0;
-        m_positive_part    = 0;
-        m_negative_part    = 0;
-        m_is_enabled       = true;
-
+    inline void setup_coefficient_properties(void) {
+        /**
+         * NOTE: This method must be called again when the coefficients of the
+         * expression or the senses of its variables have been changed.
+         */
         m_is_integer    = true;
         auto is_integer = [](const T_Expression a_VALUE) {
             return fabs(a_VALUE - floor(a_VALUE)) < constant::EPSILON_10;
@@ -272,6 +266,21 @@ class Constraint : public multi_array::AbstractMultiArrayElement {
                 break;
             }
         }
+    }
+
+    /*************************************************************************/
+    inline void setup(const Expression<T_Variable, T_Expression> &a_EXPRESSION,
+                      const ConstraintSense                       a_SENSE) {
+        m_expression       = a_EXPRESSION;
+        m_sense            = a_SENSE;
+        m_constraint_value = 0;
+        m_violation_value  = 0;
+        m_margin_value     = 0;
+        m_positive_part    = 0;
+        m_negative_part    = 0;
+        m_is_enabled       = true;
+
+        this->setup_coefficient_properties();
 
         this->clear_constraint_type();
 
@@ -302,6 +311,8 @@ class Constraint : public multi_array::AbstractMultiArrayElement {
     /*************************************************************************/
     inline void setup_constraint_type(void) {
         this->clear_constraint_type();
+        this->setup_coefficient_properties();
+
         /// Singleton
         if (m_expression.sensitivities().size() == 1) {
             m_is_singleton = true;
-- 
2.43.0


From 68dcb3b9b7a302e375a67b63d62fabe9f525e736 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:06:55 +0000
Subject: [PATCH 04/41] fix: drop repeated related constraints even when
 constraint names coincide

Constraints may share a name; sorting by the name alone left the same
constraint in several non-adjacent places, std::unique kept them, and the
incremental update applied a move to that constraint more than once.
---
 printemps/model_component/variable.h | 6 +++++-
 printemps/neighborhood/move.h        | 6 +++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/printemps/model_component/variable.h b/printemps/model_component/variable.h
index d3ec5eb..b26c510 100644
--- a/printemps/model_component/variable.h
+++ b/printemps/model_component/variable.h
@@ -507,7 +507,11 @@ class Variable : public multi_array::AbstractMultiArrayElement {
         std::stable_sort(m_extension->related_constraint_ptrs.begin(),
                          m_extension->related_constraint_ptrs.end(),
                          [](const auto &a_FIRST, const auto &a_SECOND) {
-                             return a_FIRST->name() < a_SECOND->name();
+                             /// The names are not always unique.
+                             if (a_FIRST->name() != a_SECOND->name()) {
+                                 return a_FIRST->name() < a_SECOND->name();
+                             }
+                             return a_FIRST < a_SECOND;
                          });
 
         m_extension->related_constraint_ptrs.erase(
diff --git a/printemps/neighborhood/move.h b/printemps/neighborhood/move.h
index 79f6c10..b1ed23d 100644
--- a/printemps/neighborhood/move.h
+++ b/printemps/neighborhood/move.h
@@ -247,7 +247,11 @@ struct Move {
         std::stable_sort(this->related_constraint_ptrs.begin(),
                          this->related_constraint_ptrs.end(),
                          [](const auto &a_FIRST, const auto &a_SECOND) {
-                             return a_FIRST->name() < a_SECOND->name();
+                             /// The names are not always unique.
+                             if (a_FIRST->name() != a_SECOND->name()) {
+                                 return a_FIRST->name() < a_SECOND->name();
+                             }
+                             return a_FIRST < a_SECOND;
                          });
 
         this->related_constraint_ptrs.erase(
-- 
2.43.0


From afc7b90757152c8ff76fe062913f2fd94e758c17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:13:25 +0000
Subject: [PATCH 05/41] fix: record the chosen variable when the initial values
 of a selection are corrected

The correction of initial values set exactly one variable of a selection to
one but recorded it as the selected one only when nothing had to be corrected.
---
 printemps/preprocess/verifier.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/printemps/preprocess/verifier.h b/printemps/preprocess/verifier.h
index 09486e7..36cd346 100644
--- a/printemps/preprocess/verifier.h
+++ b/printemps/preprocess/verifier.h
@@ -186,6 +186,7 @@ class Verifier {
                 }
 
                 selected_variable_ptr->set_value_if_mutable(1);
+                selected_variable_ptr->select();
 
                 for (auto &&sensitivity :
                      selected_variable_ptr->constraint_sensitivities()) {
@@ -260,6 +261,7 @@ class Verifier {
                 }
 
                 selected_variable_ptr->set_value_if_mutable(1);
+                selected_variable_ptr->select();
 
                 for (auto &&sensitivity :
                      selected_variable_ptr->constraint_sensitivities()) {
@@ -326,6 +328,7 @@ class Verifier {
                 };
 
                 selected_variable_ptr->set_value_if_mutable(1);
+                selected_variable_ptr->select();
                 this->print_correction(selected_variable_ptr->name(), 0, 1,
                                        a_IS_ENABLED_PRINT);
 
-- 
2.43.0


From 5154d2cb1f27be0bcf5f7a0c225d0af2f1858849 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:19:38 +0000
Subject: [PATCH 06/41] fix: respect the signs of the coefficients in constant
 sum and difference moves

For -x - y + c = 0 and -x + y + c = 0 the generated moves used the constant
with the wrong sign and violated the relation they come from.
---
 .../constant_difference_integers_move_generator.h          | 7 ++++++-
 .../neighborhood/constant_sum_integers_move_generator.h    | 7 ++++++-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/printemps/neighborhood/constant_difference_integers_move_generator.h b/printemps/neighborhood/constant_difference_integers_move_generator.h
index 1e91955..642c5cc 100644
--- a/printemps/neighborhood/constant_difference_integers_move_generator.h
+++ b/printemps/neighborhood/constant_difference_integers_move_generator.h
@@ -79,8 +79,13 @@ class ConstantDifferenceIntegersMoveGenerator
 
             move.sort_and_unique_related_constraint_ptrs();
 
+            /**
+             * The sensitivities are 1 or -1. The constant value is normalized
+             * so that the sensitivity of the first variable is 1.
+             */
             constant_values[i] =
-                constraint_ptrs[i]->expression().constant_value();
+                constraint_ptrs[i]->expression().constant_value() /
+                binomials[i].sensitivity_first;
 
             this->m_moves[2 * i + 1] = move;
         }
diff --git a/printemps/neighborhood/constant_sum_integers_move_generator.h b/printemps/neighborhood/constant_sum_integers_move_generator.h
index f783b7c..768fe47 100644
--- a/printemps/neighborhood/constant_sum_integers_move_generator.h
+++ b/printemps/neighborhood/constant_sum_integers_move_generator.h
@@ -79,8 +79,13 @@ class ConstantSumIntegersMoveGenerator
 
             move.sort_and_unique_related_constraint_ptrs();
 
+            /**
+             * The sensitivities are 1 or -1. The constant value is normalized
+             * so that the sensitivity of the first variable is 1.
+             */
             constant_values[i] =
-                constraint_ptrs[i]->expression().constant_value();
+                constraint_ptrs[i]->expression().constant_value() /
+                binomials[i].sensitivity_first;
 
             this->m_moves[2 * i + 1] = move;
         }
-- 
2.43.0


From 159ac1d98b34d9f258c99f2007d731edcdab6b68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:19:38 +0000
Subject: [PATCH 07/41] fix: do not offer selection moves which alter a fixed
 variable

---
 printemps/neighborhood/selection_move_generator.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/printemps/neighborhood/selection_move_generator.h b/printemps/neighborhood/selection_move_generator.h
index ad30173..871e7eb 100644
--- a/printemps/neighborhood/selection_move_generator.h
+++ b/printemps/neighborhood/selection_move_generator.h
@@ -109,6 +109,11 @@ class SelectionMoveGenerator
                         continue;
                     }
 
+                    if ((*a_moves_ptr)[i].has_fixed_variable()) {
+                        (*a_flags)[i] = 0;
+                        continue;
+                    }
+
                     if (a_ACCEPT_ALL) {
                         /** nothing to do */
                     } else {
-- 
2.43.0


From 296eb7e3e3da414ea69b9e768acd6abeaf217ff7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:19:38 +0000
Subject: [PATCH 08/41] fix: fix the variables which have only one admissible
 value at setup

Without presolve, a binary variable bounded to [0, 0] or [1, 1] was flipped
outside its bounds by the neighborhood operators.
---
 printemps/model/model.h | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/printemps/model/model.h b/printemps/model/model.h
index a473399..3239622 100644
--- a/printemps/model/model.h
+++ b/printemps/model/model.h
@@ -654,6 +654,13 @@ class Model {
          */
         this->setup_unique_names();
 
+        /**
+         * Fix the variables which have only one admissible value, since the
+         * neighborhood operators assume that a mutable binary variable can take
+         * both 0 and 1.
+         */
+        this->fix_variables_with_single_value();
+
         /**
          * Initial structure analysis.
          */
@@ -855,6 +862,18 @@ class Model {
         m_problem_size_reducer.set_is_preprocess(false);
     }
 
+    /*************************************************************************/
+    inline void fix_variables_with_single_value(void) {
+        for (auto &&proxy : m_variable_proxies) {
+            for (auto &&variable : proxy.flat_indexed_variables()) {
+                if (!variable.is_fixed() &&
+                    variable.lower_bound() == variable.upper_bound()) {
+                    variable.fix_by(variable.lower_bound());
+                }
+            }
+        }
+    }
+
     /*************************************************************************/
     inline void setup_structure(void) {
         this->categorize_variables();
-- 
2.43.0


From 5db44ed89df775cb97953427e02872f0b4c500d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:20:03 +0000
Subject: [PATCH 09/41] fix: exclude the variables fixed by the GF(2) solver
 from the neighborhoods

---
 printemps/model/model.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/printemps/model/model.h b/printemps/model/model.h
index 3239622..a346cc5 100644
--- a/printemps/model/model.h
+++ b/printemps/model/model.h
@@ -805,10 +805,12 @@ class Model {
             const auto IS_SOLVED = gf2_solver.solve(a_IS_ENABLED_PRINT);
 
             /**
-             * Update fixed variables.
+             * Update fixed variables, and exclude them from the neighborhood
+             * generators.
              */
             if (IS_SOLVED) {
                 this->categorize_variables();
+                this->setup_neighborhood(a_OPTION, a_IS_ENABLED_PRINT);
             }
         }
 
-- 
2.43.0


From 558beb45fea0e9f308cc2f3f29f9d776e4bdb3e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:21:50 +0000
Subject: [PATCH 10/41] fix: label x + y = 2 z as trinomial exclusive NOR only
 with a zero constant

---
 printemps/model_component/constraint.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/printemps/model_component/constraint.h b/printemps/model_component/constraint.h
index f626734..00648ef 100644
--- a/printemps/model_component/constraint.h
+++ b/printemps/model_component/constraint.h
@@ -489,6 +489,7 @@ class Constraint : public multi_array::AbstractMultiArrayElement {
 
         /// Trinomial XNOR
         if (m_expression.sensitivities().size() == 3 &&
+            m_expression.constant_value() == 0 &&
             m_sense == ConstraintSense::Equal) {
             bool is_valid = true;
             for (const auto &sensitivity : m_expression.sensitivities()) {
-- 
2.43.0


From fe7fce5fb83f2ec30ccc1438e38b74170622a26a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:22:31 +0000
Subject: [PATCH 11/41] fix: compare the magnitudes of real coefficients
 without truncating them to integers

abs() resolved to the integer overload, so a coefficient of 1.5 passed as 1
and the constraint was labelled as a flow, a soft selection or a GF(2) one.
---
 printemps/model_component/constraint.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/printemps/model_component/constraint.h b/printemps/model_component/constraint.h
index 00648ef..5684810 100644
--- a/printemps/model_component/constraint.h
+++ b/printemps/model_component/constraint.h
@@ -605,7 +605,7 @@ class Constraint : public multi_array::AbstractMultiArrayElement {
 
                 bool is_plus_or_minus_one_coefficient = true;
                 for (const auto &sensitivity : m_expression.sensitivities()) {
-                    if (abs(sensitivity.second) != 1) {
+                    if (std::fabs(sensitivity.second) != 1) {
                         is_plus_or_minus_one_coefficient = false;
                         break;
                     }
@@ -827,7 +827,7 @@ class Constraint : public multi_array::AbstractMultiArrayElement {
             T_Expression                        key_variable_coefficient = 0;
 
             auto constant_value = m_expression.constant_value();
-            if (constant_value != 0 && abs(constant_value) != 1) {
+            if (constant_value != 0 && std::fabs(constant_value) != 1) {
                 is_valid = false;
             }
 
@@ -847,12 +847,12 @@ class Constraint : public multi_array::AbstractMultiArrayElement {
 
                     if ((variable_ptr->sense() == VariableSense::Integer ||
                          variable_ptr->sense() == VariableSense::Binary) &&
-                        abs(coefficient) == 2) {
+                        std::fabs(coefficient) == 2) {
                         key_variable_ptr         = variable_ptr;
                         key_variable_coefficient = coefficient;
                         number_of_integer_variables_coefficient_two++;
                     } else if (variable_ptr->sense() != VariableSense::Binary ||
-                               abs(coefficient) != 1) {
+                               std::fabs(coefficient) != 1) {
                         is_valid = false;
                         break;
                     }
-- 
2.43.0


From 6d0c452a987d3e8bac8c49db4875fde98f73859c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:26:22 +0000
Subject: [PATCH 12/41] fix: keep an independent variable within its bounds
 when it is fixed by presolve

---
 printemps/preprocess/problem_size_reducer.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/printemps/preprocess/problem_size_reducer.h b/printemps/preprocess/problem_size_reducer.h
index 134ff7b..20654d0 100644
--- a/printemps/preprocess/problem_size_reducer.h
+++ b/printemps/preprocess/problem_size_reducer.h
@@ -92,13 +92,16 @@ class ProblemSizeReducer {
 
         const auto SENSITIVITY = a_variable_ptr->objective_sensitivity();
         if (fabs(SENSITIVITY) < constant::EPSILON_10) {
+            const T_Variable FIX_VALUE = std::min(
+                std::max(T_Variable(0), a_variable_ptr->lower_bound()),
+                a_variable_ptr->upper_bound());
             utility::print_message(
                 "The value of the variable " + a_variable_ptr->name() +
-                    " was fixed at " + std::to_string(0) +
+                    " was fixed at " + std::to_string(FIX_VALUE) +
                     " because it does not have sensitivity to any "
                     "constraint or objective function.",
                 a_IS_ENABLED_PRINT);
-            a_variable_ptr->fix_by(0);
+            a_variable_ptr->fix_by(FIX_VALUE);
             return true;
         }
 
-- 
2.43.0


From 1b9a81e531f509a3dee4e4552ce0a7e586e9f513 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:26:22 +0000
Subject: [PATCH 13/41] fix: keep a singleton equality which no admissible
 value satisfies

---
 printemps/preprocess/problem_size_reducer.h | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/printemps/preprocess/problem_size_reducer.h b/printemps/preprocess/problem_size_reducer.h
index 20654d0..4b02687 100644
--- a/printemps/preprocess/problem_size_reducer.h
+++ b/printemps/preprocess/problem_size_reducer.h
@@ -299,8 +299,18 @@ class ProblemSizeReducer {
                 model_component::ConstraintSense::Equal) {
                 /**
                  * If the singleton constraint is defined by an equality as
-                 * ax+b=0, the value of the variable x will be fixed at -b/a.
+                 * ax+b=0, the value of the variable x will be fixed at -b/a. If
+                 * the variable cannot take the value, the constraint cannot be
+                 * satisfied and will be left as it is.
                  */
+                const auto FIX_VALUE = std::round(bound_temp);
+                if (std::fabs(FIX_VALUE - bound_temp) > constant::EPSILON_10 ||
+                    FIX_VALUE < variable_lower_bound ||
+                    FIX_VALUE > variable_upper_bound) {
+                    return std::make_pair(is_constraint_disabled,
+                                          is_variable_bound_updated);
+                }
+
                 utility::print_message(  //
                     "The constraint " + a_constraint_ptr->name() +
                         " was removed instead of fixing the value of the "
@@ -309,7 +319,7 @@ class ProblemSizeReducer {
                         std::to_string(bound_temp) + ".",
                     a_IS_ENABLED_PRINT);
 
-                variable_ptr->fix_by(bound_temp);
+                variable_ptr->fix_by(static_cast<T_Variable>(FIX_VALUE));
                 if (a_constraint_ptr->is_enabled()) {
                     a_constraint_ptr->disable();
                     is_constraint_disabled = true;
-- 
2.43.0


From 8a3a5c57ce9979bf925d1bb92e2426a1e4d25f96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:26:22 +0000
Subject: [PATCH 14/41] fix: keep a singleton inequality whose bound is not
 adopted by its variable

---
 printemps/preprocess/problem_size_reducer.h | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/printemps/preprocess/problem_size_reducer.h b/printemps/preprocess/problem_size_reducer.h
index 4b02687..cc5ad4a 100644
--- a/printemps/preprocess/problem_size_reducer.h
+++ b/printemps/preprocess/problem_size_reducer.h
@@ -360,11 +360,17 @@ class ProblemSizeReducer {
                     variable_ptr->set_bound(variable_lower_bound, bound_floor);
                     is_variable_bound_updated = true;
                     (*variable_bound_update_count_ptr)++;
-                } else {
+                } else if (bound_floor >= variable_upper_bound) {
                     utility::print_message(  //
                         "The redundant constraint " + a_constraint_ptr->name() +
                             " was removed.",
                         a_IS_ENABLED_PRINT);
+                } else {
+                    /**
+                     * The bound is too large to be adopted.
+                     */
+                    return std::make_pair(is_constraint_disabled,
+                                          is_variable_bound_updated);
                 }
                 if (a_constraint_ptr->is_enabled()) {
                     a_constraint_ptr->disable();
@@ -407,11 +413,17 @@ class ProblemSizeReducer {
                     variable_ptr->set_bound(bound_ceil, variable_upper_bound);
                     is_variable_bound_updated = true;
                     (*variable_bound_update_count_ptr)++;
-                } else {
+                } else if (bound_ceil <= variable_lower_bound) {
                     utility::print_message(  //
                         "The redundant constraint " + a_constraint_ptr->name() +
                             " was removed.",
                         a_IS_ENABLED_PRINT);
+                } else {
+                    /**
+                     * The bound is too large to be adopted.
+                     */
+                    return std::make_pair(is_constraint_disabled,
+                                          is_variable_bound_updated);
                 }
                 if (a_constraint_ptr->is_enabled()) {
                     a_constraint_ptr->disable();
-- 
2.43.0


From 480e44bac96b4ea3f049d764e07db30f5dfb6308 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:26:22 +0000
Subject: [PATCH 15/41] fix: round tightened bounds within tolerance and
 without integer overflow

---
 printemps/preprocess/problem_size_reducer.h | 100 ++++++++++++--------
 1 file changed, 60 insertions(+), 40 deletions(-)

diff --git a/printemps/preprocess/problem_size_reducer.h b/printemps/preprocess/problem_size_reducer.h
index cc5ad4a..de4b956 100644
--- a/printemps/preprocess/problem_size_reducer.h
+++ b/printemps/preprocess/problem_size_reducer.h
@@ -337,16 +337,17 @@ class ProblemSizeReducer {
                  * ax+b<=0 with a>0 (or ax+b>=0 with a<0), the lower bound of
                  * the variable will be tightened by floor(-b/a).
                  */
-                auto bound_floor =
-                    static_cast<T_Variable>(std::floor(bound_temp));
+                const double BOUND_FLOOR =
+                    std::floor(bound_temp + constant::EPSILON_10);
 
-                if (bound_floor < variable_upper_bound &&
-                    abs(bound_floor) < BOUND_LIMIT) {
+                if (BOUND_FLOOR < variable_upper_bound &&
+                    std::fabs(BOUND_FLOOR) < BOUND_LIMIT) {
                     if (a_constraint_ptr->name() == "") {
                         utility::print_message(
                             "The upper bound of the variable " +
                                 variable_ptr->name() + " was tightened by " +
-                                std::to_string(bound_floor) + ".",
+                                std::to_string(
+                                    static_cast<T_Variable>(BOUND_FLOOR)) + ".",
                             a_IS_ENABLED_PRINT);
                     } else {
                         utility::print_message(
@@ -354,13 +355,16 @@ class ProblemSizeReducer {
                                 " was removed instead of tightening the upper "
                                 "bound of the variable " +
                                 variable_ptr->name() + " by " +
-                                std::to_string(bound_floor) + ".",
+                                std::to_string(
+                                    static_cast<T_Variable>(BOUND_FLOOR)) + ".",
                             a_IS_ENABLED_PRINT);
                     }
-                    variable_ptr->set_bound(variable_lower_bound, bound_floor);
+                    variable_ptr->set_bound(
+                        variable_lower_bound,
+                        static_cast<T_Variable>(BOUND_FLOOR));
                     is_variable_bound_updated = true;
                     (*variable_bound_update_count_ptr)++;
-                } else if (bound_floor >= variable_upper_bound) {
+                } else if (BOUND_FLOOR >= variable_upper_bound) {
                     utility::print_message(  //
                         "The redundant constraint " + a_constraint_ptr->name() +
                             " was removed.",
@@ -390,16 +394,17 @@ class ProblemSizeReducer {
                  * ax+b>=0 with a>0 (or ax+b<=0 with a<0), the upper bound of
                  * the variable will be tightened by ceil(-b/a).
                  */
-                auto bound_ceil =
-                    static_cast<T_Variable>(std::ceil(bound_temp));
+                const double BOUND_CEIL =
+                    std::ceil(bound_temp - constant::EPSILON_10);
 
-                if (bound_ceil > variable_lower_bound &&
-                    abs(bound_ceil) < BOUND_LIMIT) {
+                if (BOUND_CEIL > variable_lower_bound &&
+                    std::fabs(BOUND_CEIL) < BOUND_LIMIT) {
                     if (a_constraint_ptr->name() == "") {
                         utility::print_message(  //
                             "The lower bound of the variable " +
                                 variable_ptr->name() + " was tightened by " +
-                                std::to_string(bound_ceil) + ".",
+                                std::to_string(
+                                    static_cast<T_Variable>(BOUND_CEIL)) + ".",
                             a_IS_ENABLED_PRINT);
                     } else {
                         utility::print_message(
@@ -407,13 +412,16 @@ class ProblemSizeReducer {
                                 " was removed instead of tightening the lower "
                                 "bound of the variable " +
                                 variable_ptr->name() + " by " +
-                                std::to_string(bound_ceil) + ".",
+                                std::to_string(
+                                    static_cast<T_Variable>(BOUND_CEIL)) + ".",
                             a_IS_ENABLED_PRINT);
                     }
-                    variable_ptr->set_bound(bound_ceil, variable_upper_bound);
+                    variable_ptr->set_bound(
+                        static_cast<T_Variable>(BOUND_CEIL),
+                        variable_upper_bound);
                     is_variable_bound_updated = true;
                     (*variable_bound_update_count_ptr)++;
-                } else if (bound_ceil <= variable_lower_bound) {
+                } else if (BOUND_CEIL <= variable_lower_bound) {
                     utility::print_message(  //
                         "The redundant constraint " + a_constraint_ptr->name() +
                             " was removed.",
@@ -452,16 +460,19 @@ class ProblemSizeReducer {
                 auto bound_temp = -(constraint_upper_bound -
                                     coefficient * variable_upper_bound) /
                                   coefficient;
-                auto bound_ceil =
-                    static_cast<T_Variable>(std::ceil(bound_temp));
-                if (bound_ceil > variable_lower_bound &&
-                    abs(bound_ceil) < BOUND_LIMIT) {
+                const double BOUND_CEIL =
+                    std::ceil(bound_temp - constant::EPSILON_10);
+                if (BOUND_CEIL > variable_lower_bound &&
+                    std::fabs(BOUND_CEIL) < BOUND_LIMIT) {
                     utility::print_message(  //
                         "The lower bound of the variable " +
                             variable_ptr->name() + " was tightened by " +
-                            std::to_string(bound_ceil) + ".",
+                            std::to_string(
+                                static_cast<T_Variable>(BOUND_CEIL)) + ".",
                         a_IS_ENABLED_PRINT);
-                    variable_ptr->set_bound(bound_ceil, variable_upper_bound);
+                    variable_ptr->set_bound(
+                        static_cast<T_Variable>(BOUND_CEIL),
+                        variable_upper_bound);
                     is_variable_bound_updated = true;
                     (*variable_bound_update_count_ptr)++;
                 }
@@ -470,16 +481,19 @@ class ProblemSizeReducer {
                 auto bound_temp = -(constraint_lower_bound -
                                     coefficient * variable_lower_bound) /
                                   coefficient;
-                auto bound_floor =
-                    static_cast<T_Variable>(std::floor(bound_temp));
-                if (bound_floor < variable_upper_bound &&
-                    abs(bound_floor) < BOUND_LIMIT) {
+                const double BOUND_FLOOR =
+                    std::floor(bound_temp + constant::EPSILON_10);
+                if (BOUND_FLOOR < variable_upper_bound &&
+                    std::fabs(BOUND_FLOOR) < BOUND_LIMIT) {
                     utility::print_message(  //
                         "The upper bound of the variable " +
                             variable_ptr->name() + " was tightened by " +
-                            std::to_string(bound_floor) + ".",
+                            std::to_string(
+                                static_cast<T_Variable>(BOUND_FLOOR)) + ".",
                         a_IS_ENABLED_PRINT);
-                    variable_ptr->set_bound(variable_lower_bound, bound_floor);
+                    variable_ptr->set_bound(
+                        variable_lower_bound,
+                        static_cast<T_Variable>(BOUND_FLOOR));
                     is_variable_bound_updated = true;
                     (*variable_bound_update_count_ptr)++;
                 }
@@ -498,16 +512,19 @@ class ProblemSizeReducer {
                 auto bound_temp = -(constraint_upper_bound -
                                     coefficient * variable_lower_bound) /
                                   coefficient;
-                auto bound_floor =
-                    static_cast<T_Variable>(std::floor(bound_temp));
-                if (bound_floor < variable_upper_bound &&
-                    abs(bound_floor) < BOUND_LIMIT) {
+                const double BOUND_FLOOR =
+                    std::floor(bound_temp + constant::EPSILON_10);
+                if (BOUND_FLOOR < variable_upper_bound &&
+                    std::fabs(BOUND_FLOOR) < BOUND_LIMIT) {
                     utility::print_message(  //
                         "The upper bound of the variable " +
                             variable_ptr->name() + " was tightened by " +
-                            std::to_string(bound_floor) + ".",
+                            std::to_string(
+                                static_cast<T_Variable>(BOUND_FLOOR)) + ".",
                         a_IS_ENABLED_PRINT);
-                    variable_ptr->set_bound(variable_lower_bound, bound_floor);
+                    variable_ptr->set_bound(
+                        variable_lower_bound,
+                        static_cast<T_Variable>(BOUND_FLOOR));
                     is_variable_bound_updated = true;
                     (*variable_bound_update_count_ptr)++;
                 }
@@ -516,16 +533,19 @@ class ProblemSizeReducer {
                 auto bound_temp = -(constraint_lower_bound -
                                     coefficient * variable_upper_bound) /
                                   coefficient;
-                auto bound_ceil =
-                    static_cast<T_Variable>(std::ceil(bound_temp));
-                if (bound_ceil > variable_lower_bound &&
-                    abs(bound_ceil) < BOUND_LIMIT) {
+                const double BOUND_CEIL =
+                    std::ceil(bound_temp - constant::EPSILON_10);
+                if (BOUND_CEIL > variable_lower_bound &&
+                    std::fabs(BOUND_CEIL) < BOUND_LIMIT) {
                     utility::print_message(  //
                         "The lower bound of the variable " +
                             variable_ptr->name() + " was tightened by " +
-                            std::to_string(bound_ceil) + ".",
+                            std::to_string(
+                                static_cast<T_Variable>(BOUND_CEIL)) + ".",
                         a_IS_ENABLED_PRINT);
-                    variable_ptr->set_bound(bound_ceil, variable_upper_bound);
+                    variable_ptr->set_bound(
+                        static_cast<T_Variable>(BOUND_CEIL),
+                        variable_upper_bound);
                     is_variable_bound_updated = true;
                     (*variable_bound_update_count_ptr)++;
                 }
-- 
2.43.0


From 3d1351e3023f0d5c4babced76f8ab17859bc17d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:26:22 +0000
Subject: [PATCH 16/41] fix: do not remove set variables which an optimal
 solution may choose together

---
 printemps/preprocess/problem_size_reducer.h | 26 +++++++++++++++++----
 1 file changed, 22 insertions(+), 4 deletions(-)

diff --git a/printemps/preprocess/problem_size_reducer.h b/printemps/preprocess/problem_size_reducer.h
index de4b956..9b79448 100644
--- a/printemps/preprocess/problem_size_reducer.h
+++ b/printemps/preprocess/problem_size_reducer.h
@@ -714,11 +714,29 @@ class ProblemSizeReducer {
                 }
 
                 /**
-                 * If the variable j is fixed at 0, the following procedure can
-                 * be skipped.
+                 * If the variable j is fixed, the following procedure can be
+                 * skipped.
                  */
-                if (variable_ptrs[j]->is_fixed() &&
-                    variable_ptrs[j]->value() == 0) {
+                if (variable_ptrs[j]->is_fixed()) {
+                    j++;
+                    continue;
+                }
+
+                /**
+                 * If the variable j appears only in set covering constraints
+                 * and improves the objective function, an optimal solution may
+                 * choose both of the variables i and j.
+                 */
+                if (std::all_of(
+                        variable_ptrs[j]->related_constraint_ptrs().begin(),
+                        variable_ptrs[j]->related_constraint_ptrs().end(),
+                        [](const auto &a_PTR) {
+                            return !a_PTR->is_enabled() ||
+                                   a_PTR->is_set_covering();
+                        }) &&
+                    variable_ptrs[j]->objective_sensitivity() *
+                            m_model_ptr->sign() <
+                        0) {
                     j++;
                     continue;
                 }
-- 
2.43.0


From f2c9cd51f1d484f74567b7bea5b1fcaeb97c9477 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:26:22 +0000
Subject: [PATCH 17/41] fix: do not unfix variables when redundant set
 constraints are removed

---
 printemps/preprocess/problem_size_reducer.h | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/printemps/preprocess/problem_size_reducer.h b/printemps/preprocess/problem_size_reducer.h
index 9b79448..9b2298a 100644
--- a/printemps/preprocess/problem_size_reducer.h
+++ b/printemps/preprocess/problem_size_reducer.h
@@ -1221,6 +1221,23 @@ class ProblemSizeReducer {
                     }
                 }
 
+                /**
+                 * If a variable to be fixed at 0 has been fixed at another
+                 * value, the constraints contradict each other and will be left
+                 * as they are.
+                 */
+                if (is_included &&
+                    std::any_of(variable_ptr_sets[i].begin(),
+                                variable_ptr_sets[i].end(),
+                                [&](const auto &a_PTR) {
+                                    return variable_ptr_sets[j].find(a_PTR) ==
+                                               variable_ptr_sets[j].end() &&
+                                           a_PTR->is_fixed() &&
+                                           a_PTR->value() != 0;
+                                })) {
+                    is_included = false;
+                }
+
                 if (is_included) {
                     constraint_ptrs[i]->disable();
                     utility::print_message(  //
-- 
2.43.0


From ca938a3000cf484b9491709d4a70f3cbabb3d265 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:27:24 +0000
Subject: [PATCH 18/41] fix: use the right side of an upper bound of the
 objective in update_variable_bounds

---
 printemps/model/model.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/printemps/model/model.h b/printemps/model/model.h
index a346cc5..cfa6ef9 100644
--- a/printemps/model/model.h
+++ b/printemps/model/model.h
@@ -1700,7 +1700,7 @@ class Model {
                                        const bool   a_IS_PRIMAL,
                                        const bool   a_IS_ENABLED_PRINT) {
         model_component::Constraint<T_Variable, T_Expression> constraint;
-        if (m_is_minimization && a_IS_PRIMAL) {
+        if (m_is_minimization == a_IS_PRIMAL) {
             constraint = m_objective.expression() <= a_OBJECTIVE;
         } else {
             constraint = m_objective.expression() >= a_OBJECTIVE;
-- 
2.43.0


From 8f4c22a9f52da7fbb3edea9f981a01bbc26397dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:27:24 +0000
Subject: [PATCH 19/41] fix: bound the variables by the objective in the user's
 direction of optimization

---
 .../solver/tabu_search/controller/tabu_search_controller.h     | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/printemps/solver/tabu_search/controller/tabu_search_controller.h b/printemps/solver/tabu_search/controller/tabu_search_controller.h
index b850364..4ac0ca3 100755
--- a/printemps/solver/tabu_search/controller/tabu_search_controller.h
+++ b/printemps/solver/tabu_search/controller/tabu_search_controller.h
@@ -958,7 +958,8 @@ class TabuSearchController
                 !state.previous_is_feasible_incumbent_updated) {
                 this->update_variable_bounds(
                     this->m_global_state_ptr->incumbent_holder
-                        .feasible_incumbent_objective(),
+                            .feasible_incumbent_objective() *
+                        this->m_model_ptr->sign(),
                     true,
                     this->m_option.output.verbose >= option::verbose::Outer);
             }
-- 
2.43.0


From 2f122bf7c0895692b4e040cd0480c7cac7de236d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:36:33 +0000
Subject: [PATCH 20/41] fix: define a dependent variable only by a constraint
 which forces integer values

---
 .../preprocess/dependent_variable_extractor.h | 28 +++++++++++++++++++
 1 file changed, 28 insertions(+)

diff --git a/printemps/preprocess/dependent_variable_extractor.h b/printemps/preprocess/dependent_variable_extractor.h
index 5667415..2066e13 100644
--- a/printemps/preprocess/dependent_variable_extractor.h
+++ b/printemps/preprocess/dependent_variable_extractor.h
@@ -36,6 +36,26 @@ class DependentVariableExtractor {
         m_model_ptr = nullptr;
     }
 
+    /*************************************************************************/
+    inline bool is_integer_definition(
+        model_component::Constraint<T_Variable, T_Expression>
+            *a_constraint_ptr) const {
+        const auto DEFINITION = a_constraint_ptr->expression().solve(
+            a_constraint_ptr->key_variable_ptr());
+
+        auto is_integer = [](const double a_VALUE) {
+            return std::fabs(a_VALUE - std::round(a_VALUE)) <=
+                   constant::EPSILON_10;
+        };
+
+        return is_integer(DEFINITION.constant_value()) &&
+               std::all_of(DEFINITION.sensitivities().begin(),
+                           DEFINITION.sensitivities().end(),
+                           [&](const auto &a_SENSITIVITY) {
+                               return is_integer(a_SENSITIVITY.second);
+                           });
+    }
+
     /*************************************************************************/
     inline int extract(const option::Option &a_OPTION,
                        const bool            a_IS_ENABLED_PRINT) {
@@ -217,6 +237,14 @@ class DependentVariableExtractor {
             auto key_variable_ptr = constraint_ptr->key_variable_ptr();
 
             if (flags[i] && key_variable_ptr_counts[key_variable_ptr] == 1) {
+                /**
+                 * The constraint cannot define the key variable if it does not
+                 * force an integer value.
+                 */
+                if (!this->is_integer_definition(constraint_ptr)) {
+                    continue;
+                }
+
                 utility::print_message(
                     "The variable " + key_variable_ptr->name() +
                         " in the constraint " + constraint_ptr->name() +
-- 
2.43.0


From 2e5a125d0ff7e2cf12e9c9d270f54c9c9269d781 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:36:33 +0000
Subject: [PATCH 21/41] fix: do not extract dependent variables whose
 definitions form a cycle

---
 .../preprocess/dependent_variable_extractor.h | 51 +++++++++++++++++++
 1 file changed, 51 insertions(+)

diff --git a/printemps/preprocess/dependent_variable_extractor.h b/printemps/preprocess/dependent_variable_extractor.h
index 2066e13..2ed8467 100644
--- a/printemps/preprocess/dependent_variable_extractor.h
+++ b/printemps/preprocess/dependent_variable_extractor.h
@@ -56,6 +56,44 @@ class DependentVariableExtractor {
                            });
     }
 
+    /*************************************************************************/
+    inline bool is_cyclic_definition(
+        model_component::Constraint<T_Variable, T_Expression>
+            *a_constraint_ptr,
+        const std::unordered_map<
+            model_component::Variable<T_Variable, T_Expression> *,
+            model_component::Constraint<T_Variable, T_Expression> *>
+            &a_DEFINITIONS) const {
+        const auto KEY_VARIABLE_PTR = a_constraint_ptr->key_variable_ptr();
+
+        std::vector<model_component::Constraint<T_Variable, T_Expression> *>
+            constraint_ptrs = {a_constraint_ptr};
+        std::unordered_set<
+            model_component::Variable<T_Variable, T_Expression> *>
+            visited_variable_ptrs = {KEY_VARIABLE_PTR};
+
+        while (!constraint_ptrs.empty()) {
+            auto constraint_ptr = constraint_ptrs.back();
+            constraint_ptrs.pop_back();
+
+            for (const auto &sensitivity :
+                 constraint_ptr->expression().sensitivities()) {
+                if (sensitivity.first == KEY_VARIABLE_PTR &&
+                    constraint_ptr != a_constraint_ptr) {
+                    return true;
+                }
+                if (!visited_variable_ptrs.insert(sensitivity.first).second) {
+                    continue;
+                }
+                if (auto iter = a_DEFINITIONS.find(sensitivity.first);
+                    iter != a_DEFINITIONS.end()) {
+                    constraint_ptrs.push_back(iter->second);
+                }
+            }
+        }
+        return false;
+    }
+
     /*************************************************************************/
     inline int extract(const option::Option &a_OPTION,
                        const bool            a_IS_ENABLED_PRINT) {
@@ -229,6 +267,11 @@ class DependentVariableExtractor {
         std::vector<model_component::Constraint<T_Variable, T_Expression>>
             additional_constraints;
 
+        std::unordered_map<
+            model_component::Variable<T_Variable, T_Expression> *,
+            model_component::Constraint<T_Variable, T_Expression> *>
+            definitions;
+
         for (auto i = 0; i < CONSTRAINTS_SIZE; i++) {
             auto constraint_ptr = constraint_ptrs[i];
             if (!constraint_ptr->is_enabled()) {
@@ -245,6 +288,14 @@ class DependentVariableExtractor {
                     continue;
                 }
 
+                /**
+                 * The definitions must not depend on each other cyclically.
+                 */
+                if (this->is_cyclic_definition(constraint_ptr, definitions)) {
+                    continue;
+                }
+                definitions[key_variable_ptr] = constraint_ptr;
+
                 utility::print_message(
                     "The variable " + key_variable_ptr->name() +
                         " in the constraint " + constraint_ptr->name() +
-- 
2.43.0


From 2a89823b0b31b9a4f52412db45681cdfe8dcfc92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:49:07 +0000
Subject: [PATCH 22/41] fix: ignore disabled constraints when redundant set
 constraints are removed

---
 printemps/preprocess/problem_size_reducer.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/printemps/preprocess/problem_size_reducer.h b/printemps/preprocess/problem_size_reducer.h
index 9b2298a..31d9164 100644
--- a/printemps/preprocess/problem_size_reducer.h
+++ b/printemps/preprocess/problem_size_reducer.h
@@ -1187,6 +1187,11 @@ class ProblemSizeReducer {
         constraint_ptrs.insert(constraint_ptrs.end(),
                                set_partitioning_constraint_ptrs.begin(),
                                set_partitioning_constraint_ptrs.end());
+        constraint_ptrs.erase(
+            std::remove_if(
+                constraint_ptrs.begin(), constraint_ptrs.end(),
+                [](const auto &a_PTR) { return !a_PTR->is_enabled(); }),
+            constraint_ptrs.end());
 
         int number_of_newly_disabled_constraints = 0;
         int number_of_newly_fixed_variables      = 0;
-- 
2.43.0


From f8c844ae3e657b0110dd61c704f3a30a5faf3a6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:54:46 +0000
Subject: [PATCH 23/41] fix: interpret the RANGES section of MPS files as the
 format defines

---
 printemps/mps/mps.h | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/printemps/mps/mps.h b/printemps/mps/mps.h
index ece5b5b..dc289ae 100644
--- a/printemps/mps/mps.h
+++ b/printemps/mps/mps.h
@@ -264,26 +264,30 @@ struct MPS {
                                 this->constraints[name_new].sense =
                                     MPSConstraintSense::Greater;
                                 this->constraints[name_new].rhs =
-                                    this->constraints[name].rhs + fabs(range);
+                                    this->constraints[name].rhs - fabs(range);
                                 break;
                             }
                             case MPSConstraintSense::Greater: {
                                 this->constraints[name_new].sense =
                                     MPSConstraintSense::Less;
                                 this->constraints[name_new].rhs =
-                                    this->constraints[name].rhs - fabs(range);
+                                    this->constraints[name].rhs + fabs(range);
                                 break;
                             }
                             case MPSConstraintSense::Equal: {
                                 if (range > 0) {
-                                    this->constraints[name_new].sense =
+                                    this->constraints[name].sense =
                                         MPSConstraintSense::Greater;
+                                    this->constraints[name_new].sense =
+                                        MPSConstraintSense::Less;
                                     this->constraints[name_new].rhs =
                                         this->constraints[name].rhs +
                                         fabs(range);
                                 } else {
-                                    this->constraints[name_new].sense =
+                                    this->constraints[name].sense =
                                         MPSConstraintSense::Less;
+                                    this->constraints[name_new].sense =
+                                        MPSConstraintSense::Greater;
                                     this->constraints[name_new].rhs =
                                         this->constraints[name].rhs -
                                         fabs(range);
-- 
2.43.0


From 8da23afd39c4988122bcf307d8b7ce0417439528 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:54:46 +0000
Subject: [PATCH 24/41] fix: round the bounds of MPS files inwards and limit
 them to the range of integers

---
 printemps/mps/mps.h | 25 +++++++++++++++++--------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/printemps/mps/mps.h b/printemps/mps/mps.h
index dc289ae..08a6c17 100644
--- a/printemps/mps/mps.h
+++ b/printemps/mps/mps.h
@@ -362,12 +362,21 @@ struct MPS {
                         }
                     } else if (ITEMS_SIZE == 4) {
                         double continuous_value = atof(items[3].c_str());
-                        int integer_value = static_cast<int>(continuous_value);
+                        auto   to_integer       = [](const double a_VALUE) {
+                            return static_cast<int>(std::min(
+                                std::max(a_VALUE, static_cast<double>(
+                                                      constant::INT_HALF_MIN)),
+                                static_cast<double>(constant::INT_HALF_MAX)));
+                        };
+                        const int INTEGER_FLOOR = to_integer(
+                            std::floor(continuous_value + constant::EPSILON_10));
+                        const int INTEGER_CEIL = to_integer(
+                            std::ceil(continuous_value - constant::EPSILON_10));
 
                         if (category == "LO") {
                             this->variables[name].is_bound_defined = true;
                             this->variables[name].integer_lower_bound =
-                                integer_value;
+                                INTEGER_CEIL;
                             this->variables[name].continuous_lower_bound =
                                 continuous_value;
                         } else if (category == "LI") {
@@ -375,13 +384,13 @@ struct MPS {
                                 MPSVariableSense::Integer;
                             this->variables[name].is_bound_defined = true;
                             this->variables[name].integer_lower_bound =
-                                integer_value;
+                                INTEGER_CEIL;
                             this->variables[name].continuous_lower_bound =
                                 continuous_value;
                         } else if (category == "UP") {
                             this->variables[name].is_bound_defined = true;
                             this->variables[name].integer_upper_bound =
-                                integer_value;
+                                INTEGER_FLOOR;
                             this->variables[name].continuous_upper_bound =
                                 continuous_value;
                         } else if (category == "UI") {
@@ -389,20 +398,20 @@ struct MPS {
                                 MPSVariableSense::Integer;
                             this->variables[name].is_bound_defined = true;
                             this->variables[name].integer_upper_bound =
-                                integer_value;
+                                INTEGER_FLOOR;
                             this->variables[name].continuous_upper_bound =
                                 continuous_value;
                         } else if (category == "FX") {
                             this->variables[name].is_bound_defined = true;
                             this->variables[name].is_fixed         = true;
                             this->variables[name].integer_fixed_value =
-                                integer_value;
+                                INTEGER_FLOOR;
                             this->variables[name].continuous_fixed_value =
                                 continuous_value;
                             this->variables[name].integer_lower_bound =
-                                integer_value;
+                                INTEGER_FLOOR;
                             this->variables[name].integer_upper_bound =
-                                integer_value;
+                                INTEGER_FLOOR;
                             this->variables[name].continuous_lower_bound =
                                 continuous_value;
                             this->variables[name].continuous_upper_bound =
-- 
2.43.0


From 28a4b07b26a383d90a84403cfa77b6229a7511a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:54:46 +0000
Subject: [PATCH 25/41] fix: keep the lower bound when a PL bound of an MPS
 file is read

---
 printemps/mps/mps.h | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/printemps/mps/mps.h b/printemps/mps/mps.h
index 08a6c17..fb4ab06 100644
--- a/printemps/mps/mps.h
+++ b/printemps/mps/mps.h
@@ -352,11 +352,9 @@ struct MPS {
                                 -HUGE_VAL;
                             this->variables[name].continuous_upper_bound = 0;
                         } else if (category == "PL") {
-                            this->variables[name].is_bound_defined    = true;
-                            this->variables[name].integer_lower_bound = 0;
+                            this->variables[name].is_bound_defined = true;
                             this->variables[name].integer_upper_bound =
                                 constant::INT_HALF_MAX;
-                            this->variables[name].continuous_lower_bound = 0;
                             this->variables[name].continuous_upper_bound =
                                 HUGE_VAL;
                         }
-- 
2.43.0


From 3fe9a2ccff0471557277e838b8804a6081bb6aac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:55:21 +0000
Subject: [PATCH 26/41] fix: read the constant term of the objective from the
 RHS section of MPS files

---
 printemps/model/model.h       | 1 +
 printemps/mps/mps.h           | 8 ++++++++
 printemps/mps/mps_objective.h | 2 ++
 3 files changed, 11 insertions(+)

diff --git a/printemps/model/model.h b/printemps/model/model.h
index cfa6ef9..a31bb94 100644
--- a/printemps/model/model.h
+++ b/printemps/model/model.h
@@ -3584,6 +3584,7 @@ class Model {
             objective_sensitivities[variable_ptrs[VARIABLE_NAME]] = COEFFICIENT;
         }
         objective.set_sensitivities(objective_sensitivities);
+        objective += a_MPS.objective.constant;
         this->minimize(objective);
     }
 
diff --git a/printemps/mps/mps.h b/printemps/mps/mps.h
index fb4ab06..5d89be8 100644
--- a/printemps/mps/mps.h
+++ b/printemps/mps/mps.h
@@ -234,6 +234,14 @@ struct MPS {
                         name       = items[2 * i + 1];
                         double rhs = atof(items[2 * i + 2].c_str());
 
+                        /**
+                         * The right-hand side of the objective row is the
+                         * negative of the constant term of the objective.
+                         */
+                        if (name == this->objective.name) {
+                            this->objective.constant = -rhs;
+                            continue;
+                        }
                         this->constraints[name].rhs = rhs;
                     }
                     break;
diff --git a/printemps/mps/mps_objective.h b/printemps/mps/mps_objective.h
index 8e319e3..d85fe9a 100644
--- a/printemps/mps/mps_objective.h
+++ b/printemps/mps/mps_objective.h
@@ -14,6 +14,7 @@ struct MPSObjective {
     MPSObjectiveSense                       sense;
     std::string                             name;
     std::unordered_map<std::string, double> sensitivities;
+    double                                  constant;
 
     /*************************************************************************/
     MPSObjective(void) {
@@ -25,6 +26,7 @@ struct MPSObjective {
         this->sense = MPSObjectiveSense::Minimize;
         this->name  = "";
         this->sensitivities.clear();
+        this->constant = 0.0;
     }
 };
 }  // namespace printemps::mps
-- 
2.43.0


From 6a71ad9195468eb8f03e32ac4fcbb16d79feba27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:55:21 +0000
Subject: [PATCH 27/41] fix: skip comment lines within the sections of MPS
 files

---
 printemps/mps/mps.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/printemps/mps/mps.h b/printemps/mps/mps.h
index 5d89be8..0525a65 100644
--- a/printemps/mps/mps.h
+++ b/printemps/mps/mps.h
@@ -102,7 +102,7 @@ struct MPS {
             }
             const int ITEMS_SIZE = items.size();
 
-            if (ITEMS_SIZE == 0) {
+            if (ITEMS_SIZE == 0 || line.front() == '*') {
                 continue;
             }
 
-- 
2.43.0


From 1a9316e0ecf6f525d7c159544bf049422a5a72dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:55:21 +0000
Subject: [PATCH 28/41] fix: take the first N row of MPS files as the objective
 and ignore the other free rows

---
 printemps/mps/mps.h | 23 ++++++++++++++++++++---
 1 file changed, 20 insertions(+), 3 deletions(-)

diff --git a/printemps/mps/mps.h b/printemps/mps/mps.h
index 0525a65..623461e 100644
--- a/printemps/mps/mps.h
+++ b/printemps/mps/mps.h
@@ -89,6 +89,8 @@ struct MPS {
         std::string              name_new;
         std::string              category;
 
+        std::unordered_set<std::string> free_row_names;
+
         /**
          * Parse the mps file.
          */
@@ -142,8 +144,16 @@ struct MPS {
                 }
                 case MPSReadMode::Rows: {
                     if (items.front() == "N") {
-                        name                 = items[1];
-                        this->objective.name = name;
+                        /**
+                         * The first N row is the objective, and the others are
+                         * free rows to be ignored.
+                         */
+                        name = items[1];
+                        if (this->objective.name.empty()) {
+                            this->objective.name = name;
+                        } else {
+                            free_row_names.insert(name);
+                        }
                     } else if (items.front() == "L") {
                         name = items[1];
                         this->constraints[name].sense =
@@ -194,7 +204,9 @@ struct MPS {
                         std::string expression_name = items[2 * i + 1];
                         double sensitivity = atof(items[2 * i + 2].c_str());
 
-                        if (fabs(sensitivity) > constant::EPSILON_10) {
+                        if (fabs(sensitivity) > constant::EPSILON_10 &&
+                            free_row_names.find(expression_name) ==
+                                free_row_names.end()) {
                             if (expression_name == this->objective.name) {
                                 this->objective.sensitivities[name] =
                                     sensitivity;
@@ -264,6 +276,11 @@ struct MPS {
                         double range = atof(items[2 * i + 2].c_str());
                         name_new     = name + "_range";
 
+                        if (free_row_names.find(name) !=
+                            free_row_names.end()) {
+                            continue;
+                        }
+
                         this->constraints[name_new].name = name_new;
                         this->constraints[name_new].sensitivities =
                             this->constraints[name].sensitivities;
-- 
2.43.0


From b6ad231d338aa9d0151cfe26e8d1c2f0ffe73826 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:55:21 +0000
Subject: [PATCH 29/41] fix: write the numbers of MPS files without losing
 digits

---
 printemps/model/model.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/printemps/model/model.h b/printemps/model/model.h
index a31bb94..ef8df5e 100644
--- a/printemps/model/model.h
+++ b/printemps/model/model.h
@@ -3591,6 +3591,7 @@ class Model {
     /*********************************************************************/
     void write_mps(const std::string &a_FILE_NAME) {
         std::ofstream ofs(a_FILE_NAME);
+        ofs << std::setprecision(std::numeric_limits<double>::max_digits10);
         /**
          * Determine unique name of variables and constraints.
          */
-- 
2.43.0


From b791d11d388a15a8138f0ad23117c11a86a1c990 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:55:21 +0000
Subject: [PATCH 30/41] fix: write the variables which appear nowhere to MPS
 files

---
 printemps/model/model.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/printemps/model/model.h b/printemps/model/model.h
index ef8df5e..76eece9 100644
--- a/printemps/model/model.h
+++ b/printemps/model/model.h
@@ -3664,6 +3664,11 @@ class Model {
                             << -variable.objective_sensitivity() << std::endl;
                     }
                 }
+                /// Declare the variable even if nothing refers to it.
+                else if (variable.constraint_sensitivities().empty()) {
+                    ofs << "    " << VARIABLE_NAME << "     obj    " << 0
+                        << std::endl;
+                }
                 /// Constraints
                 for (const auto &sensitivity :
                      variable.constraint_sensitivities()) {
-- 
2.43.0


From a5383620da4360e1fcbb0e78c7ae22aef9b91519 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:55:21 +0000
Subject: [PATCH 31/41] fix: write the infinite bounds of variables to MPS
 files

---
 printemps/model/model.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/printemps/model/model.h b/printemps/model/model.h
index 76eece9..f3064dd 100644
--- a/printemps/model/model.h
+++ b/printemps/model/model.h
@@ -3714,10 +3714,16 @@ class Model {
                                 << "    " << variable.lower_bound()
                                 << std::endl;
                         }
+                    } else {
+                        ofs << "    MI    bnd    " << VARIABLE_NAME
+                            << std::endl;
                     }
                     if (variable.upper_bound() != constant::INT_HALF_MAX) {
                         ofs << "    UP    bnd    " << VARIABLE_NAME << "    "
                             << variable.upper_bound() << std::endl;
+                    } else {
+                        ofs << "    PL    bnd    " << VARIABLE_NAME
+                            << std::endl;
                     }
                 }
             }
-- 
2.43.0


From 0d1751d63a4ee53f07aa6915922255eeaa59f520 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:55:21 +0000
Subject: [PATCH 32/41] fix: forget the objective coefficients of variables
 which left the objective

---
 printemps/model/model.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/printemps/model/model.h b/printemps/model/model.h
index f3064dd..f686227 100644
--- a/printemps/model/model.h
+++ b/printemps/model/model.h
@@ -990,6 +990,11 @@ class Model {
 
     /*************************************************************************/
     inline void setup_variable_objective_sensitivities(void) {
+        for (auto &&proxy : m_variable_proxies) {
+            for (auto &&variable : proxy.flat_indexed_variables()) {
+                variable.set_objective_sensitivity(0);
+            }
+        }
         for (auto &&sensitivity : m_objective.expression().sensitivities()) {
             sensitivity.first->set_objective_sensitivity(sensitivity.second);
         }
-- 
2.43.0


From 8f7c9ef9d6f5110c94150d6f34afe4a951832bfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:07:42 +0000
Subject: [PATCH 33/41] fix: subtract the weighted constraint values in the
 Lagrangian of a maximization

---
 printemps/model/model.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/printemps/model/model.h b/printemps/model/model.h
index f686227..8c51ea0 100644
--- a/printemps/model/model.h
+++ b/printemps/model/model.h
@@ -3056,6 +3056,7 @@ class Model {
             const int FLAT_INDEX  = constraint_ptr->flat_index();
 
             lagrangian +=
+                this->sign() *
                 a_LAGRANGE_MULTIPLIER_PROXIES[PROXY_INDEX].flat_indexed_values(
                     FLAT_INDEX) *
                 constraint_ptr->constraint_value();
-- 
2.43.0


From 8b35f7e0ae6f7f313cfccd87721c947014b8680a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:08:13 +0000
Subject: [PATCH 34/41] fix: keep the multipliers of disabled constraints at
 zero in the Lagrange dual search

---
 .../lagrange_dual/core/lagrange_dual_core_state_manager.h       | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/printemps/solver/lagrange_dual/core/lagrange_dual_core_state_manager.h b/printemps/solver/lagrange_dual/core/lagrange_dual_core_state_manager.h
index af0a9a8..bae2f89 100755
--- a/printemps/solver/lagrange_dual/core/lagrange_dual_core_state_manager.h
+++ b/printemps/solver/lagrange_dual/core/lagrange_dual_core_state_manager.h
@@ -187,7 +187,7 @@ class LagrangeDualCoreStateManager {
     /*************************************************************************/
     inline void update_dual(void) {
         auto& constraint_ptrs =
-            m_model_ptr->constraint_reference().constraint_ptrs;
+            m_model_ptr->constraint_reference().enabled_constraint_ptrs;
         const int CONSTRAINTS_SIZE = constraint_ptrs.size();
 
 #ifdef _OPENMP
-- 
2.43.0


From 70e5b461d959bc52e2cc7ae4085e3988b740263d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:13:07 +0000
Subject: [PATCH 35/41] fix: keep the position and the name of an array element
 when an expression is assigned to it

---
 .../multi_array/abstract_multi_array_element.h      | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/printemps/multi_array/abstract_multi_array_element.h b/printemps/multi_array/abstract_multi_array_element.h
index a97e922..53bcba8 100644
--- a/printemps/multi_array/abstract_multi_array_element.h
+++ b/printemps/multi_array/abstract_multi_array_element.h
@@ -26,6 +26,19 @@ class AbstractMultiArrayElement {
         this->initialize();
     }
 
+    /*************************************************************************/
+    /// Copy constructor
+    AbstractMultiArrayElement(const AbstractMultiArrayElement &) = default;
+
+    /*************************************************************************/
+    /// Copy assignment
+    AbstractMultiArrayElement &operator=(const AbstractMultiArrayElement &) {
+        /**
+         * An element keeps its own position and name on assignment.
+         */
+        return *this;
+    }
+
     /*************************************************************************/
     void initialize(void) {
         m_extension->proxy_index             = 0;
-- 
2.43.0


From e34ef0ab26232bbfbc7c18f4a68b11c26778d7f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:31:03 +0000
Subject: [PATCH 36/41] fix: copy the memory of a fixed size hash map and
 release it when it is set up again

---
 printemps/utility/fixed_size_hash_map.h | 59 ++++++++++++++++++++++---
 1 file changed, 53 insertions(+), 6 deletions(-)

diff --git a/printemps/utility/fixed_size_hash_map.h b/printemps/utility/fixed_size_hash_map.h
index ee93fd9..12e77dd 100644
--- a/printemps/utility/fixed_size_hash_map.h
+++ b/printemps/utility/fixed_size_hash_map.h
@@ -52,6 +52,40 @@ class FixedSizeHashMap {
         m_values[index]      = a_VALUE;
     }
 
+    /*************************************************************************/
+    inline void release(void) {
+        if (m_is_memory_allocated) {
+            delete[] m_is_occupied;
+            delete[] m_keys;
+            delete[] m_values;
+            m_is_memory_allocated = false;
+        }
+    }
+
+    /*************************************************************************/
+    inline void copy_from(const FixedSizeHashMap<T_Key, T_Value> &a_HASH_MAP) {
+        m_shift_size          = a_HASH_MAP.m_shift_size;
+        m_bucket_size         = a_HASH_MAP.m_bucket_size;
+        m_mask                = a_HASH_MAP.m_mask;
+        m_is_memory_allocated = a_HASH_MAP.m_is_memory_allocated;
+
+        m_keys        = nullptr;
+        m_values      = nullptr;
+        m_is_occupied = nullptr;
+
+        if (m_is_memory_allocated) {
+            m_keys        = new T_Key[m_bucket_size];
+            m_values      = new T_Value[m_bucket_size];
+            m_is_occupied = new bool[m_bucket_size];
+
+            for (std::uint_fast32_t i = 0; i < m_bucket_size; i++) {
+                m_keys[i]        = a_HASH_MAP.m_keys[i];
+                m_values[i]      = a_HASH_MAP.m_values[i];
+                m_is_occupied[i] = a_HASH_MAP.m_is_occupied[i];
+            }
+        }
+    }
+
    public:
     /*************************************************************************/
     FixedSizeHashMap(void) {
@@ -59,18 +93,30 @@ class FixedSizeHashMap {
     }
 
     /*************************************************************************/
-    virtual ~FixedSizeHashMap(void) {
-        if (m_is_memory_allocated) {
-            delete[] m_is_occupied;
-            delete[] m_keys;
-            delete[] m_values;
-            m_is_memory_allocated = false;
+    FixedSizeHashMap(const FixedSizeHashMap<T_Key, T_Value> &a_HASH_MAP) {
+        this->initialize();
+        this->copy_from(a_HASH_MAP);
+    }
+
+    /*************************************************************************/
+    FixedSizeHashMap<T_Key, T_Value> &operator=(
+        const FixedSizeHashMap<T_Key, T_Value> &a_HASH_MAP) {
+        if (this != &a_HASH_MAP) {
+            this->release();
+            this->copy_from(a_HASH_MAP);
         }
+        return *this;
+    }
+
+    /*************************************************************************/
+    virtual ~FixedSizeHashMap(void) {
+        this->release();
     }
 
     /*************************************************************************/
     FixedSizeHashMap(const std::unordered_map<T_Key, T_Value> &a_UNORDERED_MAP,
                      const std::uint_fast32_t                  a_KEY_SIZE) {
+        this->initialize();
         this->setup(a_UNORDERED_MAP, a_KEY_SIZE);
     }
 
@@ -101,6 +147,7 @@ class FixedSizeHashMap {
         m_bucket_size = bucket_size;
         m_mask        = m_bucket_size - 1;
 
+        this->release();
         m_keys                = new T_Key[m_bucket_size];
         m_values              = new T_Value[m_bucket_size];
         m_is_occupied         = new bool[m_bucket_size];
-- 
2.43.0


From 0a02e4e0f979274702b8d7dfcfdc8c2903abe8b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:31:12 +0000
Subject: [PATCH 37/41] fix: drop the former partners when an entry of a
 bidirectional map is inserted again

---
 printemps/utility/bidirectional_map.h | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/printemps/utility/bidirectional_map.h b/printemps/utility/bidirectional_map.h
index 3bf7ee6..54703f0 100644
--- a/printemps/utility/bidirectional_map.h
+++ b/printemps/utility/bidirectional_map.h
@@ -38,8 +38,20 @@ class BidirectionalMap {
 
     /*************************************************************************/
     inline void insert(const T1 &a_FIRST, const T2 &a_SECOND) {
-        m_forward[a_FIRST]  = a_SECOND;
-        m_reverse[a_SECOND] = a_FIRST;
+        /**
+         * Drop the former partners so that both directions stay inverse.
+         */
+        const T1 FIRST  = a_FIRST;
+        const T2 SECOND = a_SECOND;
+
+        if (m_forward.find(FIRST) != m_forward.end()) {
+            m_reverse.erase(m_forward.at(FIRST));
+        }
+        if (m_reverse.find(SECOND) != m_reverse.end()) {
+            m_forward.erase(m_reverse.at(SECOND));
+        }
+        m_forward[FIRST]  = SECOND;
+        m_reverse[SECOND] = FIRST;
     }
 
     /*************************************************************************/
-- 
2.43.0


From 1ff8d3255a9b1c92afb4a645e887616f0d492d95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:33:38 +0000
Subject: [PATCH 38/41] fix: respect the signs of the coefficients when the key
 variables of GF(2) equations are fixed

---
 printemps/preprocess/gf2_solver.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/printemps/preprocess/gf2_solver.h b/printemps/preprocess/gf2_solver.h
index a5ecc52..f705355 100755
--- a/printemps/preprocess/gf2_solver.h
+++ b/printemps/preprocess/gf2_solver.h
@@ -152,7 +152,7 @@ class GF2Solver {
             double value            = expression.constant_value();
             for (const auto &sensitivity : expression.sensitivities()) {
                 if (sensitivity.first != key_variable_ptr) {
-                    value += sensitivity.first->value();
+                    value += sensitivity.second * sensitivity.first->value();
                 }
             }
             double key_coefficient =
-- 
2.43.0


From ce6fcdee1e8956fc6cf17034b86af63645dd206b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:34:07 +0000
Subject: [PATCH 39/41] fix: do not solve GF(2) equations whose key variables
 appear in other equations or which have fixed variables

---
 printemps/preprocess/gf2_solver.h | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/printemps/preprocess/gf2_solver.h b/printemps/preprocess/gf2_solver.h
index f705355..e5208b7 100755
--- a/printemps/preprocess/gf2_solver.h
+++ b/printemps/preprocess/gf2_solver.h
@@ -83,6 +83,27 @@ class GF2Solver {
             return false;
         }
 
+        /**
+         * If a key variable of an equation appears as a binary variable of
+         * another one, or a variable has already been fixed, skip the following
+         * processes.
+         */
+        for (const auto &variable_ptr : key_variable_ptrs) {
+            if (binary_variable_ptrs.find(variable_ptr) !=
+                    binary_variable_ptrs.end() ||
+                variable_ptr->is_fixed()) {
+                utility::print_message("Failed.", a_IS_ENABLED_PRINT);
+                return false;
+            }
+        }
+
+        for (const auto &variable_ptr : binary_variable_ptrs) {
+            if (variable_ptr->is_fixed()) {
+                utility::print_message("Failed.", a_IS_ENABLED_PRINT);
+                return false;
+            }
+        }
+
         /**
          * Set up the bidirectional maps between variable pointers and indices.
          */
-- 
2.43.0


From dc27def2d13dd4a0bb72489d515d067732c04510 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:44:16 +0000
Subject: [PATCH 40/41] fix: allow sparse matrices without columns, such as
 those of models without constraints

---
 printemps/utility/sparse/sparse_matrix.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/printemps/utility/sparse/sparse_matrix.h b/printemps/utility/sparse/sparse_matrix.h
index fce8010..51b569a 100644
--- a/printemps/utility/sparse/sparse_matrix.h
+++ b/printemps/utility/sparse/sparse_matrix.h
@@ -91,7 +91,9 @@ struct SparseMatrix {
             c_temp[this->column_indices[i]] += VALUE;
             norm_infty = std::max(norm_infty, VALUE);
         }
-        this->norm_one   = *std::max_element(c_temp.begin(), c_temp.end());
+        this->norm_one =
+            c_temp.empty() ? 0.0
+                           : *std::max_element(c_temp.begin(), c_temp.end());
         this->norm_infty = norm_infty;
     }
 
-- 
2.43.0


From 32d06b05e35974cc704e075e8f224a36db9ae41b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:44:16 +0000
Subject: [PATCH 41/41] fix: do not combine local search moves which alter a
 common variable

---
 .../local_search/core/local_search_core.h     | 20 +++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/printemps/solver/local_search/core/local_search_core.h b/printemps/solver/local_search/core/local_search_core.h
index aec54ab..3e2a3f5 100755
--- a/printemps/solver/local_search/core/local_search_core.h
+++ b/printemps/solver/local_search/core/local_search_core.h
@@ -470,6 +470,9 @@ class LocalSearchCore {
         std::unordered_set<
             model_component::Constraint<T_Variable, T_Expression>*>
                                                      constraint_ptrs;
+        std::unordered_set<
+            model_component::Variable<T_Variable, T_Expression>*>
+                                                     altered_variable_ptrs;
         neighborhood::Move<T_Variable, T_Expression> move;
         int number_of_performed_moves = 0;
 
@@ -589,6 +592,7 @@ class LocalSearchCore {
 
             move.alterations.reserve(m_model_ptr->number_of_variables());
             constraint_ptrs.clear();
+            altered_variable_ptrs.clear();
             number_of_performed_moves = 0;
             move.initialize();
             for (auto i = 0; i < NUMBER_OF_MOVES; i++) {
@@ -620,10 +624,26 @@ class LocalSearchCore {
                     }
                 }
 
+                /**
+                 * Moves which alter a common variable cannot be combined. This
+                 * includes the selection moves for a common selection.
+                 */
+                for (const auto& alteration : move_ptr->alterations) {
+                    if (altered_variable_ptrs.find(alteration.first) !=
+                        altered_variable_ptrs.end()) {
+                        has_intersection = true;
+                        break;
+                    }
+                }
+
                 if (has_intersection) {
                     continue;
                 }
 
+                for (const auto& alteration : move_ptr->alterations) {
+                    altered_variable_ptrs.insert(alteration.first);
+                }
+
                 move.alterations.insert(move.alterations.end(),
                                         move_ptr->alterations.begin(),
                                         move_ptr->alterations.end());
-- 
2.43.0

