From b2f30790fb2259cc632db796d17f27383584ea0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:05 +0000
Subject: [PATCH 01/14] fix: do not move the terms out of an operand combined
 with itself

operator+= and operator*= move the map of terms out of a uniquely referenced
left operand, also when the right operand is the same object, which is then
read as an empty sum (or product).
---
 .../dreal/symbolic/symbolic_expression.cc                | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/third_party/com_github_robotlocomotion_drake/dreal/symbolic/symbolic_expression.cc b/third_party/com_github_robotlocomotion_drake/dreal/symbolic/symbolic_expression.cc
index 94ccd8f..feaf761 100644
--- a/third_party/com_github_robotlocomotion_drake/dreal/symbolic/symbolic_expression.cc
+++ b/third_party/com_github_robotlocomotion_drake/dreal/symbolic/symbolic_expression.cc
@@ -345,7 +345,9 @@ Expression& operator+=(Expression& lhs, const Expression& rhs) {
   // ExpressionAddFactory which holds intermediate terms and does
   // simplifications internally.
   if (is_addition(lhs)) {
-    if (lhs.ptr_->use_count() == 1) {
+    // Note: `lhs` and `rhs` may be the same object (i.e. `e += e`), and the
+    // terms cannot be moved out of `lhs` in that case.
+    if (&lhs != &rhs && lhs.ptr_->use_count() == 1) {
       return lhs =
                  ExpressionAddFactory{
                      get_constant_in_addition(lhs),
@@ -578,7 +580,10 @@ Expression& operator*=(Expression& lhs, const Expression& rhs) {
   ExpressionMulFactory mul_factory{};
   if (is_multiplication(lhs)) {
     // (e_1 * ... * e_n) * rhs
-    if (lhs.ptr_->use_count() == 1) {
+    //
+    // Note: `lhs` and `rhs` may be the same object (i.e. `e *= e`), and the
+    // factors cannot be moved out of `lhs` in that case.
+    if (&lhs != &rhs && lhs.ptr_->use_count() == 1) {
       return lhs =
                  ExpressionMulFactory{
                      get_constant_in_multiplication(lhs),
-- 
2.43.0


From 216599d483222c86561da59c62b89cbd98ebd4a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:05 +0000
Subject: [PATCH 02/14] fix: merge nested powers in a product only for integer
 exponents

pow(pow(x, 2), 0.5) is |x|, not x. The comment on the simplification already
asks for both exponents to be integers.
---
 .../dreal/symbolic/symbolic_expression_cell.cc                  | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/third_party/com_github_robotlocomotion_drake/dreal/symbolic/symbolic_expression_cell.cc b/third_party/com_github_robotlocomotion_drake/dreal/symbolic/symbolic_expression_cell.cc
index 3b4dfd3..782c9d8 100644
--- a/third_party/com_github_robotlocomotion_drake/dreal/symbolic/symbolic_expression_cell.cc
+++ b/third_party/com_github_robotlocomotion_drake/dreal/symbolic/symbolic_expression_cell.cc
@@ -1039,7 +1039,7 @@ ExpressionMulFactory& ExpressionMulFactory::AddTerm(
     const Expression& e2{get_second_argument(base)};
     if (is_constant(e2)) {
       const double e2_value{get_constant_value(e2)};
-      if (is_integer(e2_value)) {
+      if (is_integer(e2_value) && is_integer(get_constant_value(exponent))) {
         // If base = pow(e1, e2) and both of e2 and exponent are
         // integers, then add (e1, e2 * exponent).
         //
-- 
2.43.0


From 2e64a4b97107396718b1d221a714ce8b0b65e163 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:05 +0000
Subject: [PATCH 03/14] fix: check that the inner exponent is a constant in pow

pow(pow(x, y), c) asked for the constant value of y, which is not one.
---
 .../dreal/symbolic/symbolic_expression.cc                       | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/third_party/com_github_robotlocomotion_drake/dreal/symbolic/symbolic_expression.cc b/third_party/com_github_robotlocomotion_drake/dreal/symbolic/symbolic_expression.cc
index feaf761..d09b4cd 100644
--- a/third_party/com_github_robotlocomotion_drake/dreal/symbolic/symbolic_expression.cc
+++ b/third_party/com_github_robotlocomotion_drake/dreal/symbolic/symbolic_expression.cc
@@ -729,7 +729,7 @@ Expression pow(const Expression& e1, const Expression& e2) {
       return e1;
     }
   }
-  if (is_pow(e1) && is_constant(e2)) {
+  if (is_pow(e1) && is_constant(get_second_argument(e1)) && is_constant(e2)) {
     // pow(base, exponent) ^ e2 => pow(base, exponent * e2)
     //
     // only if both of exponent and e2 are integers.
-- 
2.43.0


From 040a36da7ef5fba23ae0afa7e6f6732c77e19763 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:05 +0000
Subject: [PATCH 04/14] fix: order real constants by the components that
 EqualTo compares

Two real constants with the same representative value but different bounds
were neither equal nor ordered.
---
 .../dreal/symbolic/symbolic_expression_cell.cc        | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/third_party/com_github_robotlocomotion_drake/dreal/symbolic/symbolic_expression_cell.cc b/third_party/com_github_robotlocomotion_drake/dreal/symbolic/symbolic_expression_cell.cc
index 782c9d8..f006998 100644
--- a/third_party/com_github_robotlocomotion_drake/dreal/symbolic/symbolic_expression_cell.cc
+++ b/third_party/com_github_robotlocomotion_drake/dreal/symbolic/symbolic_expression_cell.cc
@@ -447,8 +447,15 @@ bool ExpressionRealConstant::EqualTo(const ExpressionCell& e) const {
 bool ExpressionRealConstant::Less(const ExpressionCell& e) const {
   // Expression::Less guarantees the following assertion.
   assert(get_kind() == e.get_kind());
-  return get_value() <
-         static_cast<const ExpressionRealConstant&>(e).get_value();
+  const auto& r = static_cast<const ExpressionRealConstant&>(e);
+  // Compare the same components as EqualTo.
+  if (lb_ != r.lb_) {
+    return lb_ < r.lb_;
+  }
+  if (ub_ != r.ub_) {
+    return ub_ < r.ub_;
+  }
+  return use_lb_as_representative_ < r.use_lb_as_representative_;
 }
 
 double ExpressionRealConstant::Evaluate(const Environment&) const {
-- 
2.43.0


From ef096e1952e6bd6341896a3c0751b6f51f6fe39d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:26 +0000
Subject: [PATCH 05/14] fix: keep unsubstituted arguments of an uninterpreted
 function

Substitute dropped the arguments that the substitution does not mention, so
that the result no longer depended on them.
---
 .../dreal/symbolic/symbolic_expression_cell.cc                | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/third_party/com_github_robotlocomotion_drake/dreal/symbolic/symbolic_expression_cell.cc b/third_party/com_github_robotlocomotion_drake/dreal/symbolic/symbolic_expression_cell.cc
index f006998..9bc5949 100644
--- a/third_party/com_github_robotlocomotion_drake/dreal/symbolic/symbolic_expression_cell.cc
+++ b/third_party/com_github_robotlocomotion_drake/dreal/symbolic/symbolic_expression_cell.cc
@@ -2146,10 +2146,14 @@ Expression ExpressionUninterpretedFunction::Substitute(
     if (var.get_type() == Variable::Type::BOOLEAN) {
       if (formula_subst.count(var) > 0) {
         new_vars += formula_subst.at(var).GetFreeVariables();
+      } else {
+        new_vars += var;
       }
     } else {
       if (expr_subst.count(var) > 0) {
         new_vars += expr_subst.at(var).GetVariables();
+      } else {
+        new_vars += var;
       }
     }
   }
-- 
2.43.0


From 2f07ef751d5b48ef044051549fd279f5f31d3884 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:39 +0000
Subject: [PATCH 06/14] fix: clause encoding of connectives that collapse and
 of nested quantifiers

A conjunction or disjunction can collapse into a constant or a literal once
its operands are transformed (e.g. when a quantified operand is trivially
true); Cnfize aborted on those. A quantified formula that consists of a single
disjunction was spliced into the definitions of its parents, which produced
formulas that are not clauses; it now gets an auxiliary variable.
---
 dreal/util/tseitin_cnfizer.cc | 38 ++++++++++++++++++++++-------------
 1 file changed, 24 insertions(+), 14 deletions(-)

diff --git a/dreal/util/tseitin_cnfizer.cc b/dreal/util/tseitin_cnfizer.cc
index 0bb8263..b202f77 100644
--- a/dreal/util/tseitin_cnfizer.cc
+++ b/dreal/util/tseitin_cnfizer.cc
@@ -74,6 +74,7 @@ void CnfizeConjunction(const Variable& b, const Formula& f,
                        vector<Formula>* clauses);
 void CnfizeDisjunction(const Variable& b, const Formula& f,
                        vector<Formula>* clauses);
+void AddIff(const Formula& f1, const Formula& f2, vector<Formula>* clauses);
 }  // namespace
 
 // The main function of the TseitinCnfizer:
@@ -143,13 +144,26 @@ Formula TseitinCnfizer::VisitForall(const Formula& f) {
       })};
 
   DREAL_ASSERT(!new_clauses.empty());
-  if (new_clauses.size() == 1) {
-    return *(new_clauses.begin());
+  // A clause with more than one literal gets a Boolean variable so that it can
+  // be negated in the definitions that refer to it.
+  static size_t id{0};
+  set<Formula> literals;
+  for (const Formula& clause : new_clauses) {
+    if (is_disjunction(clause)) {
+      const Variable bvar{string("forall") + to_string(id++),
+                          Variable::Type::BOOLEAN};
+      map_.emplace(bvar, clause);
+      literals.insert(Formula{bvar});
+    } else {
+      literals.insert(clause);
+    }
+  }
+  if (literals.size() == 1) {
+    return *(literals.begin());
   } else {
-    static size_t id{0};
     const Variable bvar{string("forall") + to_string(id++),
                         Variable::Type::BOOLEAN};
-    map_.emplace(bvar, make_conjunction(new_clauses));
+    map_.emplace(bvar, make_conjunction(literals));
     return Formula{bvar};
   }
 }
@@ -196,25 +210,21 @@ namespace {
 void Cnfize(const Variable& b, const Formula& f, vector<Formula>* clauses) {
   switch (f.get_kind()) {
     case FormulaKind::False:
-      DREAL_UNREACHABLE();
+      clauses->push_back(!b);
+      return;
     case FormulaKind::True:
-      DREAL_UNREACHABLE();
+      clauses->push_back(Formula{b});
+      return;
     case FormulaKind::Var:
-      DREAL_UNREACHABLE();
     case FormulaKind::Eq:
-      DREAL_UNREACHABLE();
     case FormulaKind::Neq:
-      DREAL_UNREACHABLE();
     case FormulaKind::Gt:
-      DREAL_UNREACHABLE();
     case FormulaKind::Geq:
-      DREAL_UNREACHABLE();
     case FormulaKind::Lt:
-      DREAL_UNREACHABLE();
     case FormulaKind::Leq:
-      DREAL_UNREACHABLE();
     case FormulaKind::Forall:
-      DREAL_UNREACHABLE();
+      // A connective can collapse into one of its transformed operands.
+      return AddIff(Formula{b}, f, clauses);
     case FormulaKind::And:
       return CnfizeConjunction(b, f, clauses);
     case FormulaKind::Or:
-- 
2.43.0


From 3514706bf2ad63768e30213552745bbf3c779e5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:10 +0000
Subject: [PATCH 07/14] fix: recognise negated quantified formulas as literals
 in clauses

is_clause rejected a disjunction with a negated quantified formula, although
that formula alone is a clause, so get_clauses failed on the output of
NaiveCnfizer; is_cnf aborted on every negation that is not atomic.
---
 dreal/symbolic/symbolic.cc | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/dreal/symbolic/symbolic.cc b/dreal/symbolic/symbolic.cc
index e1339eb..079f506 100644
--- a/dreal/symbolic/symbolic.cc
+++ b/dreal/symbolic/symbolic.cc
@@ -103,9 +103,11 @@ bool is_clause(const Formula& f) {
   }
   if (is_disjunction(f)) {
     const auto& operands = get_operands(f);
-    const bool result{
-        all_of(operands.cbegin(), operands.cend(),
-               [](const Formula& formula) { return is_atomic(formula); })};
+    const bool result{all_of(
+        operands.cbegin(), operands.cend(), [](const Formula& formula) {
+          return is_atomic(formula) ||
+                 (is_negation(formula) && is_atomic(get_operand(formula)));
+        })};
     return result;
   }
   DREAL_UNREACHABLE();
@@ -129,6 +131,9 @@ bool is_cnf(const Formula& f) {
   if (is_atomic(f)) {
     return true;
   }
+  if (is_negation(f)) {
+    return is_clause(f);
+  }
   if (is_disjunction(f)) {
     return is_clause(f);
   }
-- 
2.43.0


From e31e288256d341e38e9c5d26be0787edccf3387a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:10 +0000
Subject: [PATCH 08/14] fix: compare scoped vectors lexicographically

operator< was no ordering and read past the end of a shorter right operand.
---
 dreal/util/scoped_vector.h | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/dreal/util/scoped_vector.h b/dreal/util/scoped_vector.h
index 4b3b747..408e7d2 100644
--- a/dreal/util/scoped_vector.h
+++ b/dreal/util/scoped_vector.h
@@ -102,12 +102,7 @@ class ScopedVector {
   reference operator[](size_type n) { return vector_[n]; }
   const_reference operator[](size_type n) const { return vector_[n]; }
   bool operator<(ScopedVector<T> const& v) const {
-    for (size_t i = 0; i < vector_.size(); i++) {
-      if (vector_[i] < v.vector_[i]) {
-        return true;
-      }
-    }
-    return false;
+    return vector_ < v.vector_;
   }
   vector get_reverse() const {
     vector tmp = vector_;
-- 
2.43.0


From 6bba60d796639349bca6f90cb623f516551d2280 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:20 +0000
Subject: [PATCH 09/14] fix: check the domain of powers that are factors of a
 product

x * pow(y, 0.5) evaluated to NaN for a negative y, whereas pow(y, 0.5) alone
reports an error.
---
 .../dreal/symbolic/symbolic_expression_cell.cc               | 5 ++++-
 .../dreal/symbolic/symbolic_expression_cell.h                | 1 +
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/third_party/com_github_robotlocomotion_drake/dreal/symbolic/symbolic_expression_cell.cc b/third_party/com_github_robotlocomotion_drake/dreal/symbolic/symbolic_expression_cell.cc
index 9bc5949..e4aa5d5 100644
--- a/third_party/com_github_robotlocomotion_drake/dreal/symbolic/symbolic_expression_cell.cc
+++ b/third_party/com_github_robotlocomotion_drake/dreal/symbolic/symbolic_expression_cell.cc
@@ -852,7 +852,10 @@ double ExpressionMul::Evaluate(const Environment& env) const {
   return accumulate(
       base_to_exponent_map_.begin(), base_to_exponent_map_.end(), constant_,
       [&env](const double init, const pair<const Expression, Expression>& p) {
-        return init * std::pow(p.first.Evaluate(env), p.second.Evaluate(env));
+        const double base{p.first.Evaluate(env)};
+        const double exponent{p.second.Evaluate(env)};
+        ExpressionPow::check_domain(base, exponent);
+        return init * std::pow(base, exponent);
       });
 }
 
diff --git a/third_party/com_github_robotlocomotion_drake/dreal/symbolic/symbolic_expression_cell.h b/third_party/com_github_robotlocomotion_drake/dreal/symbolic/symbolic_expression_cell.h
index 72b6c64..658b992 100644
--- a/third_party/com_github_robotlocomotion_drake/dreal/symbolic/symbolic_expression_cell.h
+++ b/third_party/com_github_robotlocomotion_drake/dreal/symbolic/symbolic_expression_cell.h
@@ -623,6 +623,7 @@ class ExpressionPow : public BinaryExpressionCell {
   std::ostream& Display(std::ostream& os) const override;
 
   friend Expression pow(const Expression& e1, const Expression& e2);
+  friend class ExpressionMul;  // ExpressionMul::Evaluate uses check_domain.
 
  private:
   /* Throws std::domain_error if v1 is finite negative and v2 is finite
-- 
2.43.0


From 54bcbe235d19f4325de1e74f73e0dbab9c1a52bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:07 +0000
Subject: [PATCH 10/14] fix: Expand does not abort on results that are not
 fixed points

The preconditions of the expansion helpers were asserted as e.EqualTo(e.Expand()),
which their callers do not establish: building an expanded expression can
simplify it into one that Expand() rewrites again, so that Expand() aborted on
products and powers of such expressions.
---
 .../dreal/symbolic/symbolic_expression_cell.cc        | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/third_party/com_github_robotlocomotion_drake/dreal/symbolic/symbolic_expression_cell.cc b/third_party/com_github_robotlocomotion_drake/dreal/symbolic/symbolic_expression_cell.cc
index e4aa5d5..ffb0140 100644
--- a/third_party/com_github_robotlocomotion_drake/dreal/symbolic/symbolic_expression_cell.cc
+++ b/third_party/com_github_robotlocomotion_drake/dreal/symbolic/symbolic_expression_cell.cc
@@ -132,9 +132,11 @@ Expression ExpandMultiplication(const Expression& e1, const Expression& e2,
 // already expanded.
 Expression ExpandMultiplication(const Expression& e1, const Expression& e2) {
   // Precondition: e1 and e2 are already expanded.
-  assert(e1.EqualTo(e1.Expand()));
-  assert(e2.EqualTo(e2.Expand()));
-
+  //
+  // Note: this does not imply that e1.EqualTo(e1.Expand()) holds because the
+  // simplifications that take place while an expanded expression is built can
+  // bring back an expression that Expand() rewrites (e.g. a division that
+  // turns into a division by a constant).
   if (is_addition(e1)) {
     //   (c0 + c1 * e_{1,1} + ... + c_n * e_{1, n}) * e2
     // = c0 * e2 + c1 * e_{1,1} * e2 + ... + c_n * e_{1,n} * e2
@@ -199,7 +201,6 @@ Expression ExpandMultiplication(const Expression& e1, const Expression& e2,
 // Helper function expanding pow(base, n). It assumes that base is expanded.
 Expression ExpandPow(const Expression& base, const int n) {
   // Precondition: base is already expanded.
-  assert(base.EqualTo(base.Expand()));
   assert(n >= 1);
   if (n == 1) {
     return base;
@@ -217,8 +218,6 @@ Expression ExpandPow(const Expression& base, const int n) {
 // and exponent are already expanded.
 Expression ExpandPow(const Expression& base, const Expression& exponent) {
   // Precondition: base and exponent are already expanded.
-  assert(base.EqualTo(base.Expand()));
-  assert(exponent.EqualTo(exponent.Expand()));
   // Expand if
   //     1) base is an addition expression and
   //     2) exponent is a positive integer.
-- 
2.43.0


From 7cd78f26b845f396b43b014106d1e9bb444edd59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:37 +0000
Subject: [PATCH 11/14] fix: evaluate equalities without variables numerically
 in an empty environment

---
 .../dreal/symbolic/symbolic_formula_cell.cc                   | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/third_party/com_github_robotlocomotion_drake/dreal/symbolic/symbolic_formula_cell.cc b/third_party/com_github_robotlocomotion_drake/dreal/symbolic/symbolic_formula_cell.cc
index 3ec85b7..47dce4b 100644
--- a/third_party/com_github_robotlocomotion_drake/dreal/symbolic/symbolic_formula_cell.cc
+++ b/third_party/com_github_robotlocomotion_drake/dreal/symbolic/symbolic_formula_cell.cc
@@ -245,10 +245,6 @@ namespace {
 bool CheckStructuralEqualityUptoPartialEvaluation(const Expression& e1,
                                                   const Expression& e2,
                                                   const Environment& env) {
-  // Trivial case where env = ∅.
-  if (env.empty()) {
-    return e1.EqualTo(e2);
-  }
   // Since `Expression::Evaluate` is faster than `Expression::EvaluatePartial`,
   // we use:
   //  - `Expression::Evaluate`        if if (vars(e₁) ∪ vars(e₂) ⊆ dom(env).
-- 
2.43.0


From d909b4dfa34a6899bf76efeb1f806203925b4ad5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:26 +0000
Subject: [PATCH 12/14] fix: remove a variable set from itself without
 iterating over it

---
 .../dreal/symbolic/symbolic_variables.cc                     | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/third_party/com_github_robotlocomotion_drake/dreal/symbolic/symbolic_variables.cc b/third_party/com_github_robotlocomotion_drake/dreal/symbolic/symbolic_variables.cc
index 78a47c3..22b079b 100644
--- a/third_party/com_github_robotlocomotion_drake/dreal/symbolic/symbolic_variables.cc
+++ b/third_party/com_github_robotlocomotion_drake/dreal/symbolic/symbolic_variables.cc
@@ -39,6 +39,11 @@ string Variables::to_string() const {
 }
 
 Variables::size_type Variables::erase(const Variables& vars) {
+  if (this == &vars) {
+    const size_type old_size{size()};
+    vars_.clear();
+    return old_size;
+  }
   size_type num_of_erased_elements{0};
   for (const Variable& var : vars) {
     num_of_erased_elements += erase(var);
-- 
2.43.0


From 3a68b77998866ee1d7b06569286581f9284ae1e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:37 +0000
Subject: [PATCH 13/14] fix: fold a constant factor that results from merging
 powers

Merging 2^x * 2^(1 - x) in a product left the constant 2^1 among its factors,
and an assertion failed when that product was multiplied or added again.
---
 .../dreal/symbolic/symbolic_expression_cell.cc               | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/third_party/com_github_robotlocomotion_drake/dreal/symbolic/symbolic_expression_cell.cc b/third_party/com_github_robotlocomotion_drake/dreal/symbolic/symbolic_expression_cell.cc
index ffb0140..598bdbe 100644
--- a/third_party/com_github_robotlocomotion_drake/dreal/symbolic/symbolic_expression_cell.cc
+++ b/third_party/com_github_robotlocomotion_drake/dreal/symbolic/symbolic_expression_cell.cc
@@ -1072,6 +1072,11 @@ ExpressionMulFactory& ExpressionMulFactory::AddTerm(
       // TODO(soonho-tri): The following operation is not sound since it can
       // cancels `base` which might include 0/0 problems.
       base_to_exponent_map_.erase(it);
+    } else if (is_constant(base) && is_constant(this_exponent)) {
+      // If it ends up with a constant (e.g. 2^x * 2^(1 - x) => 2), fold it.
+      const double v{get_constant_value(pow(base, this_exponent))};
+      base_to_exponent_map_.erase(it);
+      return AddConstant(v);
     }
   } else {
     // Product is not found in base_to_exponent_map_. Add the entry (base,
-- 
2.43.0


From 40e259286f8c17244783ce33b74cb14625fc106e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:30 +0000
Subject: [PATCH 14/14] fix: move a strict upper bound down also if it is not
 positive

---
 dreal/solver/filter_assertion.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dreal/solver/filter_assertion.cc b/dreal/solver/filter_assertion.cc
index ef38999..48930c0 100644
--- a/dreal/solver/filter_assertion.cc
+++ b/dreal/solver/filter_assertion.cc
@@ -132,8 +132,8 @@ FilterAssertionResult UpdateStrictUpperBound(const Variable& var,
                                              const double v, Box* const box) {
   switch (var.get_type()) {
     case Variable::Type::CONTINUOUS:
-      return UpdateUpperBound(var, nextafter(v, numeric_limits<double>::min()),
-                              box);
+      return UpdateUpperBound(
+          var, nextafter(v, numeric_limits<double>::lowest()), box);
     case Variable::Type::INTEGER:
     case Variable::Type::BINARY:
       UpdateUpperBound(var, v, box);
-- 
2.43.0

