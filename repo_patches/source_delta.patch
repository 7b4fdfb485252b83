From 0fe95ad947fa30d1bbb39a0120f40cd40678b008 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:19 +0000
Subject: [PATCH 01/21] fix: pow(pow(x, y), c) with a non-constant inner
 exponent aborted

---
 .../dreal/symbolic/symbolic_expression.cc            | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/third_party/com_github_robotlocomotion_drake/dreal/symbolic/symbolic_expression.cc b/third_party/com_github_robotlocomotion_drake/dreal/symbolic/symbolic_expression.cc
index 94ccd8f..ba68ff0 100644
--- a/third_party/com_github_robotlocomotion_drake/dreal/symbolic/symbolic_expression.cc
+++ b/third_party/com_github_robotlocomotion_drake/dreal/symbolic/symbolic_expression.cc
@@ -729,11 +729,13 @@ Expression pow(const Expression& e1, const Expression& e2) {
     //
     // only if both of exponent and e2 are integers.
     const Expression& exponent{get_second_argument(e1)};
-    const double v1{get_constant_value(exponent)};
-    const double v2{get_constant_value(e2)};
-    if (is_integer(v1) && is_integer(v2)) {
-      const Expression& base{get_first_argument(e1)};
-      return Expression{new ExpressionPow(base, v1 * v2)};
+    if (is_constant(exponent)) {
+      const double v1{get_constant_value(exponent)};
+      const double v2{get_constant_value(e2)};
+      if (is_integer(v1) && is_integer(v2)) {
+        const Expression& base{get_first_argument(e1)};
+        return Expression{new ExpressionPow(base, v1 * v2)};
+      }
     }
   }
   return Expression{new ExpressionPow(e1, e2)};
-- 
2.43.0


From fa709f26a41be0d714ef7889517923fabbaf1e3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:19 +0000
Subject: [PATCH 02/21] fix: products merged pow(pow(x, 2), 0.5) into x, which
 is wrong for negative x

---
 .../dreal/symbolic/symbolic_expression_cell.cc                  | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/third_party/com_github_robotlocomotion_drake/dreal/symbolic/symbolic_expression_cell.cc b/third_party/com_github_robotlocomotion_drake/dreal/symbolic/symbolic_expression_cell.cc
index 3b4dfd3..782c9d8 100644
--- a/third_party/com_github_robotlocomotion_drake/dreal/symbolic/symbolic_expression_cell.cc
+++ b/third_party/com_github_robotlocomotion_drake/dreal/symbolic/symbolic_expression_cell.cc
@@ -1039,7 +1039,7 @@ ExpressionMulFactory& ExpressionMulFactory::AddTerm(
     const Expression& e2{get_second_argument(base)};
     if (is_constant(e2)) {
       const double e2_value{get_constant_value(e2)};
-      if (is_integer(e2_value)) {
+      if (is_integer(e2_value) && is_integer(get_constant_value(exponent))) {
         // If base = pow(e1, e2) and both of e2 and exponent are
         // integers, then add (e1, e2 * exponent).
         //
-- 
2.43.0


From 713044ce0ad8204175b7b0604f0245ff6388fdee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:20 +0000
Subject: [PATCH 03/21] fix: the derivative of a product was NaN where one of
 its factors is zero

---
 .../dreal/symbolic/symbolic_expression_cell.cc | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/third_party/com_github_robotlocomotion_drake/dreal/symbolic/symbolic_expression_cell.cc b/third_party/com_github_robotlocomotion_drake/dreal/symbolic/symbolic_expression_cell.cc
index 782c9d8..51f2002 100644
--- a/third_party/com_github_robotlocomotion_drake/dreal/symbolic/symbolic_expression_cell.cc
+++ b/third_party/com_github_robotlocomotion_drake/dreal/symbolic/symbolic_expression_cell.cc
@@ -899,20 +899,22 @@ Expression DifferentiatePow(const Expression& f, const Expression& g,
 
 Expression ExpressionMul::Differentiate(const Variable& x) const {
   // ∂/∂x (c   * f_1^g_1  * f_2^g_2        * ... * f_n^g_n
-  //= c * [expr * (∂/∂x f_1^g_1) / f_1^g_1 +
-  //       expr * (∂/∂x f_2^g_2) / f_2^g_2 +
-  //                      ...              +
-  //       expr * (∂/∂x f_n^g_n) / f_n^g_n]
+  //= c * [expr_1 * (∂/∂x f_1^g_1) +
+  //       expr_2 * (∂/∂x f_2^g_2) +
+  //                      ...      +
+  //       expr_n * (∂/∂x f_n^g_n)]
   //
-  // where expr = (f_1^g_1 * f_2^g_2 * ... * f_n^g_n).
+  // where expr_i is the product of f_j^g_j for all j != i. Note that we do not
+  // divide the whole product by f_i^g_i, since f_i can be zero.
   const map<Expression, Expression>& m{base_to_exponent_map_};
   Expression ret{Expression::Zero()};
-  const Expression expr{
-      ExpressionMulFactory{1.0, base_to_exponent_map_}.GetExpression()};
   for (const auto& term : m) {
     const Expression& base{term.first};
     const Expression& exponent{term.second};
-    ret += expr * DifferentiatePow(base, exponent, x) * pow(base, -exponent);
+    map<Expression, Expression> others{m};
+    others.erase(base);
+    ret += ExpressionMulFactory{1.0, std::move(others)}.GetExpression() *
+           DifferentiatePow(base, exponent, x);
   }
   return constant_ * ret;
 }
-- 
2.43.0


From a4bf13a6b51bc31a6653dd4cb4482e4341763796 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:20 +0000
Subject: [PATCH 04/21] fix: Expand returned quotients by a constant that it
 expands further, and aborted on them

---
 .../dreal/symbolic/symbolic_expression_cell.cc       | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/third_party/com_github_robotlocomotion_drake/dreal/symbolic/symbolic_expression_cell.cc b/third_party/com_github_robotlocomotion_drake/dreal/symbolic/symbolic_expression_cell.cc
index 51f2002..e2b990b 100644
--- a/third_party/com_github_robotlocomotion_drake/dreal/symbolic/symbolic_expression_cell.cc
+++ b/third_party/com_github_robotlocomotion_drake/dreal/symbolic/symbolic_expression_cell.cc
@@ -170,14 +170,15 @@ Expression ExpandMultiplication(const Expression& e1, const Expression& e2) {
       // precondition.
       const Expression& e2_1{get_first_argument(e2)};
       const Expression& e2_2{get_second_argument(e2)};
-      return ExpandMultiplication(e1_1, e2_1) /
-             ExpandMultiplication(e1_2, e2_2);
+      return (ExpandMultiplication(e1_1, e2_1) /
+              ExpandMultiplication(e1_2, e2_2))
+          .Expand();
     }
     //    ((e1_1 / e1_2) * e2).Expand()
     // => (e1_1 * e2).Expand() / e2.
     //
     // Note that e1_1, e1_2, and e_2 are already expanded by the precondition.
-    return ExpandMultiplication(e1_1, e2) / e1_2;
+    return (ExpandMultiplication(e1_1, e2) / e1_2).Expand();
   }
   if (is_division(e2)) {
     //    (e1 * (e2_1 / e2_2)).Expand()
@@ -186,7 +187,7 @@ Expression ExpandMultiplication(const Expression& e1, const Expression& e2) {
     // Note that e1, e2_1, and e2_2 are already expanded by the precondition.
     const Expression& e2_1{get_first_argument(e2)};
     const Expression& e2_2{get_second_argument(e2)};
-    return ExpandMultiplication(e1, e2_1) / e2_2;
+    return (ExpandMultiplication(e1, e2_1) / e2_2).Expand();
   }
   return e1 * e2;
 }
@@ -1123,7 +1124,8 @@ class DivExpandVisitor {
     ExpressionAddFactory factory(constant / n, {});
     for (const pair<const Expression, double>& p :
          get_expr_to_coeff_map_in_addition(e)) {
-      factory.AddExpression(p.second / n * p.first);
+      // Note that p.first is already expanded.
+      factory.AddExpression(ExpandMultiplication(p.first, p.second / n));
     }
     return factory.GetExpression();
   }
-- 
2.43.0


From 07d60c9d9c98046d119932991d9e2aecbfa731f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:30 +0000
Subject: [PATCH 05/21] fix: delta-strengthening changed the condition of
 if-then-else, so the result could be weaker than the formula

---
 dreal/symbolic/symbolic.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/dreal/symbolic/symbolic.cc b/dreal/symbolic/symbolic.cc
index e1339eb..bbcb2c4 100644
--- a/dreal/symbolic/symbolic.cc
+++ b/dreal/symbolic/symbolic.cc
@@ -265,7 +265,9 @@ class DeltaStrengthenVisitor {
                Visit(get_second_argument(e), delta));
   }
   Expression VisitIfThenElse(const Expression& e, const double delta) const {
-    return if_then_else(Visit(get_conditional_formula(e), delta),
+    // Keeps the conditional formula as it is: it selects a value, and
+    // strengthening it neither strengthens nor weakens the enclosing formula.
+    return if_then_else(get_conditional_formula(e),
                         Visit(get_then_expression(e), delta),
                         Visit(get_else_expression(e), delta));
   }
-- 
2.43.0


From 35dccffc7dbeca48753de9ce3655181f13408769 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:30 +0000
Subject: [PATCH 06/21] fix: is_cnf aborted on the negation of a conjunction or
 disjunction

---
 dreal/symbolic/symbolic.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dreal/symbolic/symbolic.cc b/dreal/symbolic/symbolic.cc
index bbcb2c4..e8b6019 100644
--- a/dreal/symbolic/symbolic.cc
+++ b/dreal/symbolic/symbolic.cc
@@ -129,7 +129,7 @@ bool is_cnf(const Formula& f) {
   if (is_atomic(f)) {
     return true;
   }
-  if (is_disjunction(f)) {
+  if (is_disjunction(f) || is_negation(f)) {
     return is_clause(f);
   }
   if (is_conjunction(f)) {
-- 
2.43.0


From 6e4c127e32dbe8e287b272f6a594b5b212929f53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:43 +0000
Subject: [PATCH 07/21] fix: substitution dropped the arguments of an
 uninterpreted function that it does not map

---
 .../dreal/symbolic/symbolic_expression_cell.cc                | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/third_party/com_github_robotlocomotion_drake/dreal/symbolic/symbolic_expression_cell.cc b/third_party/com_github_robotlocomotion_drake/dreal/symbolic/symbolic_expression_cell.cc
index e2b990b..cd355ff 100644
--- a/third_party/com_github_robotlocomotion_drake/dreal/symbolic/symbolic_expression_cell.cc
+++ b/third_party/com_github_robotlocomotion_drake/dreal/symbolic/symbolic_expression_cell.cc
@@ -2143,10 +2143,14 @@ Expression ExpressionUninterpretedFunction::Substitute(
     if (var.get_type() == Variable::Type::BOOLEAN) {
       if (formula_subst.count(var) > 0) {
         new_vars += formula_subst.at(var).GetFreeVariables();
+      } else {
+        new_vars.insert(var);
       }
     } else {
       if (expr_subst.count(var) > 0) {
         new_vars += expr_subst.at(var).GetVariables();
+      } else {
+        new_vars.insert(var);
       }
     }
   }
-- 
2.43.0


From 205581a480909c070f24d4ec0ac7aa1886348aed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:31 +0000
Subject: [PATCH 08/21] fix: the order of interval constants disagreed with
 their equality

---
 .../dreal/symbolic/symbolic_expression_cell.cc        | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/third_party/com_github_robotlocomotion_drake/dreal/symbolic/symbolic_expression_cell.cc b/third_party/com_github_robotlocomotion_drake/dreal/symbolic/symbolic_expression_cell.cc
index cd355ff..56b0e33 100644
--- a/third_party/com_github_robotlocomotion_drake/dreal/symbolic/symbolic_expression_cell.cc
+++ b/third_party/com_github_robotlocomotion_drake/dreal/symbolic/symbolic_expression_cell.cc
@@ -448,8 +448,15 @@ bool ExpressionRealConstant::EqualTo(const ExpressionCell& e) const {
 bool ExpressionRealConstant::Less(const ExpressionCell& e) const {
   // Expression::Less guarantees the following assertion.
   assert(get_kind() == e.get_kind());
-  return get_value() <
-         static_cast<const ExpressionRealConstant&>(e).get_value();
+  const auto& r = static_cast<const ExpressionRealConstant&>(e);
+  // This compares the same fields as ExpressionRealConstant::EqualTo.
+  if (lb_ != r.lb_) {
+    return lb_ < r.lb_;
+  }
+  if (ub_ != r.ub_) {
+    return ub_ < r.ub_;
+  }
+  return !use_lb_as_representative_ && r.use_lb_as_representative_;
 }
 
 double ExpressionRealConstant::Evaluate(const Environment&) const {
-- 
2.43.0


From 215c8de894897e42d7f90f521c6c9c1aa9f4c398 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:39 +0000
Subject: [PATCH 09/21] fix: products kept a power of constants as a factor,
 e.g. 2^x * 2^(1-x), and later aborted on it

---
 .../dreal/symbolic/symbolic_expression_cell.cc               | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/third_party/com_github_robotlocomotion_drake/dreal/symbolic/symbolic_expression_cell.cc b/third_party/com_github_robotlocomotion_drake/dreal/symbolic/symbolic_expression_cell.cc
index 56b0e33..e03340d 100644
--- a/third_party/com_github_robotlocomotion_drake/dreal/symbolic/symbolic_expression_cell.cc
+++ b/third_party/com_github_robotlocomotion_drake/dreal/symbolic/symbolic_expression_cell.cc
@@ -1073,6 +1073,11 @@ ExpressionMulFactory& ExpressionMulFactory::AddTerm(
       // TODO(soonho-tri): The following operation is not sound since it can
       // cancels `base` which might include 0/0 problems.
       base_to_exponent_map_.erase(it);
+    } else if (is_constant(base) && is_constant(this_exponent)) {
+      // Fold it into the constant. Example: 2^x * 2^(1 - x) => 2
+      const Expression folded{pow(base, this_exponent)};
+      base_to_exponent_map_.erase(it);
+      return AddExpression(folded);
     }
   } else {
     // Product is not found in base_to_exponent_map_. Add the entry (base,
-- 
2.43.0


From 2a8298c692bf3ee758e3ebc0a3eca6a26af475fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:47 +0000
Subject: [PATCH 10/21] fix: e += e and e *= e lost the second operand when e
 was the only owner

---
 .../dreal/symbolic/symbolic_expression.cc                   | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/third_party/com_github_robotlocomotion_drake/dreal/symbolic/symbolic_expression.cc b/third_party/com_github_robotlocomotion_drake/dreal/symbolic/symbolic_expression.cc
index ba68ff0..e980470 100644
--- a/third_party/com_github_robotlocomotion_drake/dreal/symbolic/symbolic_expression.cc
+++ b/third_party/com_github_robotlocomotion_drake/dreal/symbolic/symbolic_expression.cc
@@ -345,7 +345,8 @@ Expression& operator+=(Expression& lhs, const Expression& rhs) {
   // ExpressionAddFactory which holds intermediate terms and does
   // simplifications internally.
   if (is_addition(lhs)) {
-    if (lhs.ptr_->use_count() == 1) {
+    // Note: `e += e` needs the map after it would be moved.
+    if (lhs.ptr_->use_count() == 1 && &lhs != &rhs) {
       return lhs =
                  ExpressionAddFactory{
                      get_constant_in_addition(lhs),
@@ -578,7 +579,8 @@ Expression& operator*=(Expression& lhs, const Expression& rhs) {
   ExpressionMulFactory mul_factory{};
   if (is_multiplication(lhs)) {
     // (e_1 * ... * e_n) * rhs
-    if (lhs.ptr_->use_count() == 1) {
+    // Note: `e *= e` needs the map after it would be moved.
+    if (lhs.ptr_->use_count() == 1 && &lhs != &rhs) {
       return lhs =
                  ExpressionMulFactory{
                      get_constant_in_multiplication(lhs),
-- 
2.43.0


From 79ef766d9c6813766ee9231fb8e5347d78cb75fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:43 +0000
Subject: [PATCH 11/21] fix: the Tseitin transformation of a quantified formula
 could give a non-clause

---
 dreal/util/tseitin_cnfizer.cc | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/dreal/util/tseitin_cnfizer.cc b/dreal/util/tseitin_cnfizer.cc
index 0bb8263..5142671 100644
--- a/dreal/util/tseitin_cnfizer.cc
+++ b/dreal/util/tseitin_cnfizer.cc
@@ -133,12 +133,15 @@ Formula TseitinCnfizer::VisitForall(const Formula& f) {
   const set<Formula> clauses{
       get_clauses(naive_cnfizer_.Convert(quantified_formula))};
   const set<Formula> new_clauses{
-      ::dreal::map(clauses, [&quantified_variables](const Formula& clause) {
+      ::dreal::map(clauses, [this, &quantified_variables](
+                                const Formula& clause) {
         DREAL_ASSERT(is_clause(clause));
         if (HaveIntersection(clause.GetFreeVariables(), quantified_variables)) {
           return forall(quantified_variables, clause);
         } else {
-          return clause;
+          // The result is an operand of `map_`'s definitions, which need
+          // literals. Visit introduces a variable if it is a disjunction.
+          return Visit(clause);
         }
       })};
 
-- 
2.43.0


From 70803a6c9e8a69719f25dca83ae4f9fe1010207a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:03 +0000
Subject: [PATCH 12/21] fix: erasing a set of variables from itself was
 undefined and could crash

---
 .../dreal/symbolic/symbolic_variables.cc                    | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/third_party/com_github_robotlocomotion_drake/dreal/symbolic/symbolic_variables.cc b/third_party/com_github_robotlocomotion_drake/dreal/symbolic/symbolic_variables.cc
index 78a47c3..3f7dc69 100644
--- a/third_party/com_github_robotlocomotion_drake/dreal/symbolic/symbolic_variables.cc
+++ b/third_party/com_github_robotlocomotion_drake/dreal/symbolic/symbolic_variables.cc
@@ -40,6 +40,12 @@ string Variables::to_string() const {
 
 Variables::size_type Variables::erase(const Variables& vars) {
   size_type num_of_erased_elements{0};
+  if (&vars == this) {
+    // The loop below would traverse the set that it changes.
+    num_of_erased_elements = size();
+    vars_.clear();
+    return num_of_erased_elements;
+  }
   for (const Variable& var : vars) {
     num_of_erased_elements += erase(var);
   }
-- 
2.43.0


From f8101796973bf755ca9db3224b6aad708f6cb0a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:08 +0000
Subject: [PATCH 13/21] fix: print the constants of sums and products with full
 precision and leave the stream's precision alone

---
 .../dreal/symbolic/symbolic_expression_cell.cc            | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/third_party/com_github_robotlocomotion_drake/dreal/symbolic/symbolic_expression_cell.cc b/third_party/com_github_robotlocomotion_drake/dreal/symbolic/symbolic_expression_cell.cc
index e03340d..cccc8cd 100644
--- a/third_party/com_github_robotlocomotion_drake/dreal/symbolic/symbolic_expression_cell.cc
+++ b/third_party/com_github_robotlocomotion_drake/dreal/symbolic/symbolic_expression_cell.cc
@@ -637,7 +637,7 @@ ostream& ExpressionAdd::Display(ostream& os) const {
   bool print_plus{false};
   os << "(";
   if (constant_ != 0.0) {
-    os << setprecision(numeric_limits<double>::max_digits10) << constant_;
+    os << Expression{constant_};
     print_plus = true;
   }
   for (const auto& p : expr_to_coeff_map_) {
@@ -658,13 +658,13 @@ ostream& ExpressionAdd::DisplayTerm(ostream& os, const bool print_plus,
     }
     // Do not print "1 * t"
     if (coeff != 1.0) {
-      os << coeff << " * ";
+      os << Expression{coeff} << " * ";
     }
   } else {
     // Instead of printing "+ (- E)", just print "- E".
     os << " - ";
     if (coeff != -1.0) {
-      os << (-coeff) << " * ";
+      os << Expression{-coeff} << " * ";
     }
   }
   os << term;
@@ -932,7 +932,7 @@ ostream& ExpressionMul::Display(ostream& os) const {
   bool print_mul{false};
   os << "(";
   if (constant_ != 1.0) {
-    os << setprecision(numeric_limits<double>::max_digits10) << constant_;
+    os << Expression{constant_};
     print_mul = true;
   }
   for (const auto& p : base_to_exponent_map_) {
-- 
2.43.0


From 264b631bcebd97f6cd329027512253cdccaacfa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:31 +0000
Subject: [PATCH 14/21] fix: x < c with a negative bound kept the point c in
 the box

---
 dreal/solver/filter_assertion.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dreal/solver/filter_assertion.cc b/dreal/solver/filter_assertion.cc
index ef38999..48930c0 100644
--- a/dreal/solver/filter_assertion.cc
+++ b/dreal/solver/filter_assertion.cc
@@ -132,8 +132,8 @@ FilterAssertionResult UpdateStrictUpperBound(const Variable& var,
                                              const double v, Box* const box) {
   switch (var.get_type()) {
     case Variable::Type::CONTINUOUS:
-      return UpdateUpperBound(var, nextafter(v, numeric_limits<double>::min()),
-                              box);
+      return UpdateUpperBound(
+          var, nextafter(v, numeric_limits<double>::lowest()), box);
     case Variable::Type::INTEGER:
     case Variable::Type::BINARY:
       UpdateUpperBound(var, v, box);
-- 
2.43.0


From aef0eda5368f549b3f52a8119282328b38acbf72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:17 +0000
Subject: [PATCH 15/21] fix: cached contractors were applied to boxes over
 other variables

---
 dreal/solver/theory_solver.cc | 11 +++++++++++
 dreal/solver/theory_solver.h  |  4 ++++
 2 files changed, 15 insertions(+)

diff --git a/dreal/solver/theory_solver.cc b/dreal/solver/theory_solver.cc
index 7d8212d..4fea8f6 100644
--- a/dreal/solver/theory_solver.cc
+++ b/dreal/solver/theory_solver.cc
@@ -15,7 +15,9 @@
 */
 #include "dreal/solver/theory_solver.h"
 
+#include <algorithm>
 #include <atomic>
+#include <functional>
 #include <iostream>
 #include <limits>
 #include <memory>
@@ -37,6 +39,7 @@
 namespace dreal {
 
 using std::cout;
+using std::equal;
 using std::make_unique;
 using std::numeric_limits;
 using std::set;
@@ -144,6 +147,14 @@ optional<Contractor> TheorySolver::BuildContractor(
   if (assertions.empty()) {
     return make_contractor_integer(box, config_);
   }
+  // The cached contractors are of no use if the variables of the box have
+  // changed (by declaring a variable, or by push/pop).
+  if (!equal(contractor_cache_variables_.begin(),
+             contractor_cache_variables_.end(), box.variables().begin(),
+             box.variables().end(), std::equal_to<Variable>{})) {
+    contractor_cache_.clear();
+    contractor_cache_variables_ = box.variables();
+  }
   DREAL_LOG_TRACE("TheorySolver::BuildContractor: Filtering Assertions\n{}",
                   box);
   vector<Contractor> ctcs;
diff --git a/dreal/solver/theory_solver.h b/dreal/solver/theory_solver.h
index e7249a7..e40eee9 100644
--- a/dreal/solver/theory_solver.h
+++ b/dreal/solver/theory_solver.h
@@ -62,7 +62,11 @@ class TheorySolver {
   std::unique_ptr<Icp> icp_;
   Box model_;
   std::set<Formula> explanation_;
+  // Contractors refer to the variables of a box by their indices. The
+  // contractors in `contractor_cache_` are for boxes over
+  // `contractor_cache_variables_`.
   std::unordered_map<Formula, Contractor> contractor_cache_;
+  std::vector<Variable> contractor_cache_variables_;
   std::unordered_map<Formula, FormulaEvaluator> formula_evaluator_cache_;
 };
 
-- 
2.43.0


From 63766593e8f6f4ec4deaa5d404f8616ac3630276 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:17 +0000
Subject: [PATCH 16/21] fix: a model could include an auxiliary variable after
 a declaration was popped

---
 dreal/solver/context_impl.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/dreal/solver/context_impl.cc b/dreal/solver/context_impl.cc
index 2a780f6..dfbfd4d 100644
--- a/dreal/solver/context_impl.cc
+++ b/dreal/solver/context_impl.cc
@@ -35,6 +35,7 @@
 
 namespace dreal {
 
+using std::all_of;
 using std::find_if;
 using std::isfinite;
 using std::ostringstream;
@@ -419,7 +420,8 @@ void Context::Impl::SetOption(const string& key, const string& val) {
 }
 
 Box Context::Impl::ExtractModel(const Box& box) const {
-  if (static_cast<int>(model_variables_.size()) == box.size()) {
+  if (all_of(box.variables().begin(), box.variables().end(),
+             [this](const Variable& v) { return is_model_variable(v); })) {
     // Every variable is a model variable. Simply return the @p box.
     return box;
   }
-- 
2.43.0


From 05e4711b1a68c466d3fdd89b87e068f9d4ac2317 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:31 +0000
Subject: [PATCH 17/21] fix: integer variables without a theory atom got models
 outside their domains

---
 dreal/solver/context_impl.cc | 25 ++++++++++++++++++++++++-
 1 file changed, 24 insertions(+), 1 deletion(-)

diff --git a/dreal/solver/context_impl.cc b/dreal/solver/context_impl.cc
index dfbfd4d..a6dce40 100644
--- a/dreal/solver/context_impl.cc
+++ b/dreal/solver/context_impl.cc
@@ -68,13 +68,32 @@ void Tighten(Box* box, const double delta) {
         } break;
         case Variable::Type::INTEGER: {
           const double mid{interval.mid()};
-          interval = static_cast<int>(mid);
+          interval = std::trunc(mid);
         } break;
       }
     }
   }
 }
 
+// Rounds the domains of integer variables in @p box inward, that is, [0.5, 2.5]
+// becomes [1, 2]. It makes @p box empty if a domain includes no integer.
+void RoundIntegerDomains(Box* box) {
+  for (int i = 0; i < box->size(); ++i) {
+    const Variable::Type type{box->variable(i).get_type()};
+    if (type != Variable::Type::INTEGER && type != Variable::Type::BINARY) {
+      continue;
+    }
+    auto& interval = (*box)[i];
+    const double lb{std::ceil(interval.lb())};
+    const double ub{std::floor(interval.ub())};
+    if (lb > ub) {
+      box->set_empty();
+      return;
+    }
+    interval = Box::Interval{lb, ub};
+  }
+}
+
 bool ParseBooleanOption(const string& key, const string& val) {
   if (val == "true") {
     return true;
@@ -133,6 +152,10 @@ optional<Box> Context::Impl::CheckSatCore(const ScopedVector<Formula>& stack,
   if (box.empty()) {
     return {};
   }
+  RoundIntegerDomains(&box);
+  if (box.empty()) {
+    return {};
+  }
   // If false ∈ stack, it's UNSAT.
   for (const auto& f : stack.get_vector()) {
     if (is_false(f)) {
-- 
2.43.0


From 9bf0a002187e448ab9c14142b0b9b49a9e470fa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:31 +0000
Subject: [PATCH 18/21] fix: ScopedVector::operator< was not an order and read
 beyond the shorter vector

---
 dreal/util/scoped_vector.h | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/dreal/util/scoped_vector.h b/dreal/util/scoped_vector.h
index 4b3b747..408e7d2 100644
--- a/dreal/util/scoped_vector.h
+++ b/dreal/util/scoped_vector.h
@@ -102,12 +102,7 @@ class ScopedVector {
   reference operator[](size_type n) { return vector_[n]; }
   const_reference operator[](size_type n) const { return vector_[n]; }
   bool operator<(ScopedVector<T> const& v) const {
-    for (size_t i = 0; i < vector_.size(); i++) {
-      if (vector_[i] < v.vector_[i]) {
-        return true;
-      }
-    }
-    return false;
+    return vector_ < v.vector_;
   }
   vector get_reverse() const {
     vector tmp = vector_;
-- 
2.43.0


From ca568d8251ad52f8eee5ed80522e8ca98c4c602c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:31 +0000
Subject: [PATCH 19/21] fix: a decimal literal with a plus sign was rejected

---
 dreal/util/string_to_interval.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dreal/util/string_to_interval.cc b/dreal/util/string_to_interval.cc
index 12a9845..cc256fc 100644
--- a/dreal/util/string_to_interval.cc
+++ b/dreal/util/string_to_interval.cc
@@ -28,6 +28,8 @@ Box::Interval StringToInterval(const string& s) {
   double lb{};
   if (s[0] == '-') {
     lb = -stod(s.substr(1));
+  } else if (s[0] == '+') {
+    lb = -stod("-" + s.substr(1));
   } else {
     lb = -stod("-" + s);
   }
-- 
2.43.0


From 126362aa5684b66377cb0857901af72cc642d87c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:31 +0000
Subject: [PATCH 20/21] fix: a quantified variable that occurs only in its
 domain was left free

---
 dreal/smt2/parser.yy | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/dreal/smt2/parser.yy b/dreal/smt2/parser.yy
index b3f8d5a..a9dc2b8 100644
--- a/dreal/smt2/parser.yy
+++ b/dreal/smt2/parser.yy
@@ -365,11 +365,12 @@ term:           TK_TRUE { $$ = Formula::True(); }
 	    const Variables& vars = $5.first;
             const Formula& domain = $5.second;
 	    const Formula body = Smt2Driver::EliminateBooleanVariables(vars, $7.formula());
-	    const Variables quantified_variables = intersect(vars, body.GetFreeVariables());
-	    if (quantified_variables.empty()) {
+	    if (intersect(vars, body.GetFreeVariables()).empty()) {
 	        $$ = body;
 	    } else {
-                $$ = forall(quantified_variables, imply(domain, body));
+	        const Formula matrix = imply(domain, body);
+	        // The domain may constrain a variable which does not occur in the body.
+                $$ = forall(intersect(vars, matrix.GetFreeVariables()), matrix);
 	    }
         }
         |       '(' TK_LET enter_scope let_binding_list term exit_scope ')' {
-- 
2.43.0


From 93dd7fa45dd17c4edf92ec6070466a31a500722a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:31 +0000
Subject: [PATCH 21/21] fix: let below a quantifier or in a function definition
 left its variable to the context

---
 dreal/smt2/driver.h  | 19 +++++++++++++++++++
 dreal/smt2/parser.yy | 25 ++++++++++++++++++++++---
 2 files changed, 41 insertions(+), 3 deletions(-)

diff --git a/dreal/smt2/driver.h b/dreal/smt2/driver.h
index 3bce3be..7dc6d38 100644
--- a/dreal/smt2/driver.h
+++ b/dreal/smt2/driver.h
@@ -137,6 +137,22 @@ class Smt2Driver {
     scope_.pop();
   }
 
+  /// Enters the scope of quantified variables or parameters.
+  void PushBinder() {
+    PushScope();
+    ++binder_depth_;
+  }
+
+  /// Leaves the scope of quantified variables or parameters.
+  void PopBinder() {
+    --binder_depth_;
+    PopScope();
+  }
+
+  /// Returns true if the parser is in the scope of quantified variables or
+  /// parameters.
+  bool in_binder() const { return binder_depth_ > 0; }
+
   Term LookupFunction(const std::string& name,
                       const std::vector<Term>& arguments);
 
@@ -177,6 +193,9 @@ class Smt2Driver {
   /** Scoped map from a string to a corresponding Variable. */
   ScopedUnorderedMap<std::string, FunctionDefinition> function_definition_map_;
 
+  /// Number of enclosing quantifiers and function definitions.
+  int binder_depth_{0};
+
   /// Sequential value concatenated to names to make them unique.
   int64_t nextUniqueId_{};
 
diff --git a/dreal/smt2/parser.yy b/dreal/smt2/parser.yy
index a9dc2b8..a82fa30 100644
--- a/dreal/smt2/parser.yy
+++ b/dreal/smt2/parser.yy
@@ -101,6 +101,7 @@
 %type <std::pair<Variables, Formula>>             variable_sort_list
 %type <std::vector<std::pair<std::string, Term>>> var_binding_list
 %type <std::pair<std::string, Term>>              var_binding
+%type <std::vector<std::pair<Variable, Term>>>    let_binding_list
 
 %type <Variable>              name_sort
 %type <std::vector<Variable>> name_sort_list
@@ -173,7 +174,7 @@ command_declare_fun:
         ;
 
 command_define_fun:
-                '(' TK_DEFINE_FUN SYMBOL enter_scope '(' name_sort_list ')' sort term exit_scope ')' {
+                '(' TK_DEFINE_FUN SYMBOL enter_binder '(' name_sort_list ')' sort term exit_binder ')' {
                     if ($6.empty()) {
                         // No parameters - treat as variable, just like declare-fun.
                         const Variable v{driver.DeclareVariable($3, $8)};
@@ -361,7 +362,7 @@ term:           TK_TRUE { $$ = Formula::True(); }
                 YYABORT;
             }
         }
-        |       '(' TK_FORALL enter_scope '(' variable_sort_list ')' term exit_scope ')' {
+        |       '(' TK_FORALL enter_binder '(' variable_sort_list ')' term exit_binder ')' {
 	    const Variables& vars = $5.first;
             const Formula& domain = $5.second;
 	    const Formula body = Smt2Driver::EliminateBooleanVariables(vars, $7.formula());
@@ -375,6 +376,9 @@ term:           TK_TRUE { $$ = Formula::True(); }
         }
         |       '(' TK_LET enter_scope let_binding_list term exit_scope ')' {
             $$ = $5;
+            for (const auto& binding : $4) {
+                $$ = $$.Substitute(binding.first, binding.second);
+            }
         }
         |       DOUBLE {
             const Box::Interval i{StringToInterval($1)};
@@ -490,13 +494,18 @@ term:           TK_TRUE { $$ = Formula::True(); }
 
 let_binding_list: '(' var_binding_list ')' {
             // Locals must be bound simultaneously.
+            $$ = std::vector<std::pair<Variable, Term>>{};
             for (auto& binding : $2) {
                 const std::string& name{ binding.first };
                 const Term& term{ binding.second };
                 const bool is_formula = term.type() == Term::Type::FORMULA;
                 const Sort sort = is_formula ? Sort::Bool : Sort::Real;
                 const Variable v{ driver.DeclareLocalVariable(name, sort) };
-                if (is_formula) {
+                if (driver.in_binder()) {
+                    // The term may refer to a quantified variable or to a
+                    // parameter, so it cannot be asserted.
+                    $$.emplace_back(v, term);
+                } else if (is_formula) {
                     const Formula fv{v};
                     const Formula& ft{ term.formula() };
                     driver.mutable_context().Assert((fv && ft) || (!fv && !ft));
@@ -517,6 +526,16 @@ exit_scope: /* */ {
         }
         ;
 
+enter_binder: /* */ {
+            driver.PushBinder();
+        }
+        ;
+
+exit_binder: /* */ {
+            driver.PopBinder();
+        }
+        ;
+
 name_sort: '(' SYMBOL sort ')' {
             $$ = Variable{driver.DeclareLocalVariable($2, $3)};
         }
-- 
2.43.0

