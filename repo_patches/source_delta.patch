From 4b4db0d92093a89d3125e8267aa4f4b24a2374db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:23 +0000
Subject: [PATCH 01/16] fix: protect the WickTheorem timers from concurrent
 updates by worker threads

---
 wicked/diagrams/wick_theorem.cc                      | 11 ++++++++---
 wicked/diagrams/wick_theorem.h                       |  7 +++++++
 wicked/diagrams/wick_theorem_process_contractions.cc |  8 ++++----
 3 files changed, 19 insertions(+), 7 deletions(-)

diff --git a/wicked/diagrams/wick_theorem.cc b/wicked/diagrams/wick_theorem.cc
index 34ddaee..6b09293 100644
--- a/wicked/diagrams/wick_theorem.cc
+++ b/wicked/diagrams/wick_theorem.cc
@@ -30,6 +30,11 @@ const std::map<std::string, double> &WickTheorem::timers() const {
   return timers_;
 }
 
+void WickTheorem::add_time(const std::string &label, double seconds) {
+  std::lock_guard<std::mutex> lock(timers_mutex_);
+  timers_[label] += seconds;
+}
+
 Expression WickTheorem::contract(scalar_t factor, const OperatorProduct &ops,
                                  const int minrank, const int maxrank) {
   ncontractions_ = 0;
@@ -45,12 +50,12 @@ Expression WickTheorem::contract(scalar_t factor, const OperatorProduct &ops,
   // Step 1. Generate elementary contractions
   timer t1;
   elementary_contractions_ = generate_elementary_contractions(ops);
-  timers_["step 1"] += t1.get();
+  add_time("step 1", t1.get());
 
   // Step 2. Generate allowed composite contractions
   timer t2;
   generate_composite_contractions(ops, minrank, maxrank);
-  timers_["step 2"] += t2.get();
+  add_time("step 2", t2.get());
 
   // Step 3. Process contractions
   timer t3;
@@ -58,7 +63,7 @@ Expression WickTheorem::contract(scalar_t factor, const OperatorProduct &ops,
       single_threaded_
           ? process_contractions(factor, ops, minrank, maxrank)
           : process_contractions_threads(factor, ops, minrank, maxrank);
-  timers_["step 3"] += t3.get();
+  add_time("step 3", t3.get());
   return result;
 }
 
diff --git a/wicked/diagrams/wick_theorem.h b/wicked/diagrams/wick_theorem.h
index e941cb3..ce4be40 100644
--- a/wicked/diagrams/wick_theorem.h
+++ b/wicked/diagrams/wick_theorem.h
@@ -1,5 +1,6 @@
 #pragma once
 
+#include <mutex>
 #include <optional>
 #include <string>
 #include <vector>
@@ -57,6 +58,9 @@ private:
 
   std::map<std::string, double> timers_;
 
+  /// Protects timers_, which is updated concurrently by the worker threads
+  std::mutex timers_mutex_;
+
   /// The number of contractions found
   int ncontractions_ = 0;
 
@@ -71,6 +75,9 @@ private:
 
   bool single_threaded_ = false;
 
+  /// Add a time (in seconds) to one of the timers
+  void add_time(const std::string &label, double seconds);
+
   //
   // Functions for step 1. of the Wick's theorem algorithm
   // implemented in wich_theorem_elementary_contractions.cc
diff --git a/wicked/diagrams/wick_theorem_process_contractions.cc b/wicked/diagrams/wick_theorem_process_contractions.cc
index cf8e7d9..f1e5ac6 100644
--- a/wicked/diagrams/wick_theorem_process_contractions.cc
+++ b/wicked/diagrams/wick_theorem_process_contractions.cc
@@ -82,12 +82,12 @@ Expression WickTheorem::process_contractions(scalar_t factor,
           do_canonicalize_graph_
               ? canonicalize_contraction_graph(ops, contraction)
               : std::make_tuple(ops, contraction, scalar_t(1));
-      timers_["canonicalize_contraction_graph"] += tc.get();
+      add_time("canonicalize_contraction_graph", tc.get());
 
       timer te;
       std::pair<SymbolicTerm, scalar_t> term_factor =
           evaluate_contraction(best_ops, best_contractions, factor * sign);
-      timers_["evaluate_contraction"] += te.get();
+      add_time("evaluate_contraction", te.get());
 
       SymbolicTerm &term = term_factor.first;
       scalar_t canonicalize_factor = term.canonicalize();
@@ -169,12 +169,12 @@ Expression WickTheorem::process_single_contraction(
         do_canonicalize_graph_
             ? canonicalize_contraction_graph(ops, contraction)
             : std::make_tuple(ops, contraction, scalar_t(1));
-    timers_["canonicalize_contraction_graph"] += tc.get();
+    add_time("canonicalize_contraction_graph", tc.get());
 
     timer te;
     std::pair<SymbolicTerm, scalar_t> term_factor =
         evaluate_contraction(best_ops, best_contractions, factor * sign);
-    timers_["evaluate_contraction"] += te.get();
+    add_time("evaluate_contraction", te.get());
 
     SymbolicTerm &term = term_factor.first;
     scalar_t canonicalize_factor = term.canonicalize();
-- 
2.43.0


From 90532c5480e7d55cd645b7aeed058d7d7c8d7d9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:23 +0000
Subject: [PATCH 02/16] fix: divide by the factorial of the multiplicity of
 repeated contractions

A contraction repeated n times was divided by n instead of n!, so results
with an elementary contraction appearing three or more times were wrong.
---
 wicked/diagrams/wick_theorem_process_contractions.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wicked/diagrams/wick_theorem_process_contractions.cc b/wicked/diagrams/wick_theorem_process_contractions.cc
index f1e5ac6..6c174f0 100644
--- a/wicked/diagrams/wick_theorem_process_contractions.cc
+++ b/wicked/diagrams/wick_theorem_process_contractions.cc
@@ -548,7 +548,7 @@ WickTheorem::combinatorial_factor(const OperatorProduct &ops,
     contraction_count[contraction] += 1;
   }
   for (const auto &kv : contraction_count) {
-    factor /= binomial(kv.second, 1);
+    factor /= factorial(kv.second);
   }
   return factor;
 }
-- 
2.43.0


From 45e40d0595e588796687b633be64825204b7b3b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:38 +0000
Subject: [PATCH 03/16] fix: leave the orbital space table unchanged when
 add_space fails

add_space registered the label and the indices before it had validated its
arguments, so a failed call left a label that maps to an undefined space.
---
 wicked/helpers/orbital_space.cc | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/wicked/helpers/orbital_space.cc b/wicked/helpers/orbital_space.cc
index 10a4cfa..7190a5b 100644
--- a/wicked/helpers/orbital_space.cc
+++ b/wicked/helpers/orbital_space.cc
@@ -82,22 +82,29 @@ void OrbitalSpaceInfo::add_space(char label, FieldType field_type,
   }
 
   size_t pos = space_info_.size();
-  label_to_pos_[label] = pos;
+
+  // prepare the new tables and store them only once nothing else can fail, so
+  // that an error leaves this object unchanged
+  auto new_label_to_pos = label_to_pos_;
+  auto new_indices_to_pos = indices_to_pos_;
+  new_label_to_pos[label] = pos;
   for (auto &index : indices) {
-    if (indices_to_pos_.count(index)) {
+    if (new_indices_to_pos.count(index)) {
       throw std::runtime_error(
           "add_space: Index \"" + index +
           "\" is already assigned to another space. Use another index.");
     } else {
-      indices_to_pos_[index] = pos;
+      new_indices_to_pos[index] = pos;
     }
   }
   std::vector<int> elementary_spaces_int;
   for (char e : elementary_spaces) {
-    elementary_spaces_int.push_back(label_to_space(e));
+    elementary_spaces_int.push_back(e == label ? pos : label_to_space(e));
   }
   space_info_.push_back(OrbitalSpace(label, field_type, space_type, indices,
                                      elementary_spaces_int));
+  label_to_pos_.swap(new_label_to_pos);
+  indices_to_pos_.swap(new_indices_to_pos);
 }
 
 std::string OrbitalSpaceInfo::str() const {
-- 
2.43.0


From f7c31f0d0ecb29459b44d4fe93af8595cc8cf3b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:54 +0000
Subject: [PATCH 04/16] fix: time the contractions with a monotonic clock

high_resolution_clock is the wall clock with libstdc++, so a clock step
during a contraction produced negative or arbitrary timers.
---
 wicked/helpers/timer.hpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/wicked/helpers/timer.hpp b/wicked/helpers/timer.hpp
index 95eee21..77ed74b 100644
--- a/wicked/helpers/timer.hpp
+++ b/wicked/helpers/timer.hpp
@@ -5,7 +5,7 @@
 /**
  * @brief A timer class to track the elapsed time
  *
- * This class is based on std::chrono::high_resolution_clock and should be used
+ * This class is based on std::chrono::steady_clock and should be used
  * to time functions. The timer is set at creation and the time difference can
  * be obtained with the get() function. The reset() function can be used to
  * reset the timer.
@@ -13,19 +13,19 @@
 class timer {
 public:
   /// constructor. Creates and starts the timer object
-  timer() : start_(std::chrono::high_resolution_clock::now()) {}
+  timer() : start_(std::chrono::steady_clock::now()) {}
 
   /// reset the timer
-  void reset() { start_ = std::chrono::high_resolution_clock::now(); }
+  void reset() { start_ = std::chrono::steady_clock::now(); }
 
   /// return the elapsed time in seconds
   double get() {
-    auto duration = std::chrono::high_resolution_clock::now() - start_;
+    auto duration = std::chrono::steady_clock::now() - start_;
     return std::chrono::duration_cast<std::chrono::duration<double>>(duration)
         .count();
   }
 
 private:
   /// stores the time when this object is created
-  std::chrono::high_resolution_clock::time_point start_;
+  std::chrono::steady_clock::time_point start_;
 };
-- 
2.43.0


From 6127825db89765207870f63667f73084f55cfcd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:54 +0000
Subject: [PATCH 05/16] fix: do not lose terms if storing the result of
 canonicalize or *= fails

The new terms were copy-assigned over the old ones, so running out of memory
half way through the copy left the expression with some terms missing.
---
 wicked/algebra/expression.cc           | 2 +-
 wicked/diagrams/operator_expression.cc | 2 +-
 wicked/helpers/algebra.hpp             | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/wicked/algebra/expression.cc b/wicked/algebra/expression.cc
index 71d8316..bb6833b 100644
--- a/wicked/algebra/expression.cc
+++ b/wicked/algebra/expression.cc
@@ -61,7 +61,7 @@ Expression &Expression::canonicalize() {
     factor *= v;
     add_to_map(canonical_terms, term, factor);
   }
-  terms_ = canonical_terms;
+  terms_ = std::move(canonical_terms);
   return *this;
 }
 
diff --git a/wicked/diagrams/operator_expression.cc b/wicked/diagrams/operator_expression.cc
index 62996fa..7a000c8 100644
--- a/wicked/diagrams/operator_expression.cc
+++ b/wicked/diagrams/operator_expression.cc
@@ -27,7 +27,7 @@ void OperatorExpression::canonicalize() {
     const auto sign = newprod.canonicalize();
     add_to_map(canonical, newprod, sign * scalar);
   }
-  terms_ = canonical;
+  terms_ = std::move(canonical);
 }
 
 std::string OperatorExpression::str() const {
diff --git a/wicked/helpers/algebra.hpp b/wicked/helpers/algebra.hpp
index 4c137cf..80f317b 100644
--- a/wicked/helpers/algebra.hpp
+++ b/wicked/helpers/algebra.hpp
@@ -117,7 +117,7 @@ public:
         result.add(e * er, c * cr);
       }
     }
-    terms_ = result.terms_;
+    terms_ = std::move(result.terms_);
     return *this;
   }
 
-- 
2.43.0


From c7f4582fddfba7bbedf6ad907fa1ca489a79064b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:37 +0000
Subject: [PATCH 06/16] fix: raise an error instead of accessing orbital spaces
 out of bounds

Objects kept across reset_space(), indices that refer to an undefined space
and more than eight spaces read and wrote outside of the space tables.
---
 wicked/algebra/index.cc         |  2 +-
 wicked/algebra/symbolic_term.cc |  2 +-
 wicked/algebra/tensor.cc        |  4 ++--
 wicked/diagrams/graph_matrix.cc | 20 ++++++++++----------
 wicked/helpers/orbital_space.cc |  8 ++++----
 5 files changed, 18 insertions(+), 18 deletions(-)

diff --git a/wicked/algebra/index.cc b/wicked/algebra/index.cc
index 5b1f31e..285d35f 100644
--- a/wicked/algebra/index.cc
+++ b/wicked/algebra/index.cc
@@ -106,7 +106,7 @@ index_map_t remap(const std::vector<Index> &idx_vec1,
 std::vector<int> num_indices_per_space(const std::vector<Index> &indices) {
   std::vector<int> counter(orbital_subspaces->num_spaces());
   for (const auto &index : indices) {
-    counter[index.space()] += 1;
+    counter.at(index.space()) += 1;
   }
   return counter;
 }
diff --git a/wicked/algebra/symbolic_term.cc b/wicked/algebra/symbolic_term.cc
index 5d7addd..ff51cc5 100644
--- a/wicked/algebra/symbolic_term.cc
+++ b/wicked/algebra/symbolic_term.cc
@@ -183,7 +183,7 @@ scalar_t SymbolicTerm::canonicalize() {
 
   // a. Assign indices to free operators
   for (const auto &sqop : operators_) {
-    tens_index_count[sqop.index().space()] += 1;
+    tens_index_count.at(sqop.index().space()) += 1;
     is_operator_index[sqop.index()] = true;
   }
 
diff --git a/wicked/algebra/tensor.cc b/wicked/algebra/tensor.cc
index 29f83f9..14e4470 100644
--- a/wicked/algebra/tensor.cc
+++ b/wicked/algebra/tensor.cc
@@ -16,10 +16,10 @@ std::vector<std::pair<int, int>> Tensor::signature() const {
   std::vector<std::pair<int, int>> result(orbital_subspaces->num_spaces(),
                                           std::pair(0, 0));
   for (const Index &idx : upper_) {
-    result[idx.space()].first += 1;
+    result.at(idx.space()).first += 1;
   }
   for (const Index &idx : lower_) {
-    result[idx.space()].second += 1;
+    result.at(idx.space()).second += 1;
   }
   return result;
 }
diff --git a/wicked/diagrams/graph_matrix.cc b/wicked/diagrams/graph_matrix.cc
index 3a15a96..ced9254 100644
--- a/wicked/diagrams/graph_matrix.cc
+++ b/wicked/diagrams/graph_matrix.cc
@@ -12,7 +12,7 @@ GraphMatrix::GraphMatrix() {}
 GraphMatrix::GraphMatrix(const std::vector<int> &cre,
                          const std::vector<int> &ann) {
   for (int i = 0; i < orbital_subspaces->num_spaces(); i++) {
-    elements_[i] = std::make_pair(cre[i], ann[i]);
+    elements_.at(i) = std::make_pair(cre.at(i), ann.at(i));
   }
 }
 
@@ -21,19 +21,19 @@ const GraphMatrix::graph_matrix_t &GraphMatrix::elements() const {
 }
 
 const std::pair<int, int> &GraphMatrix::elements(int space) const {
-  return elements_[space];
+  return elements_.at(space);
 }
 
-int GraphMatrix::cre(int space) const { return elements_[space].first; }
+int GraphMatrix::cre(int space) const { return elements_.at(space).first; }
 
-int GraphMatrix::ann(int space) const { return elements_[space].second; }
+int GraphMatrix::ann(int space) const { return elements_.at(space).second; }
 
 void GraphMatrix::set_cre(int space, int value) {
-  elements_[space].first = value;
+  elements_.at(space).first = value;
 }
 
 void GraphMatrix::set_ann(int space, int value) {
-  elements_[space].second = value;
+  elements_.at(space).second = value;
 }
 
 int GraphMatrix::num_ops(int space) const { return cre(space) + ann(space); }
@@ -60,16 +60,16 @@ bool GraphMatrix::operator!=(GraphMatrix const &other) const {
 
 GraphMatrix &GraphMatrix::operator+=(const GraphMatrix &rhs) {
   for (int s = 0; s < orbital_subspaces->num_spaces(); ++s) {
-    elements_[s].first += rhs.elements_[s].first;
-    elements_[s].second += rhs.elements_[s].second;
+    elements_.at(s).first += rhs.elements_.at(s).first;
+    elements_.at(s).second += rhs.elements_.at(s).second;
   }
   return *this;
 }
 
 GraphMatrix &GraphMatrix::operator-=(const GraphMatrix &rhs) {
   for (int s = 0; s < orbital_subspaces->num_spaces(); ++s) {
-    elements_[s].first -= rhs.elements_[s].first;
-    elements_[s].second -= rhs.elements_[s].second;
+    elements_.at(s).first -= rhs.elements_.at(s).first;
+    elements_.at(s).second -= rhs.elements_.at(s).second;
   }
   return *this;
 }
diff --git a/wicked/helpers/orbital_space.cc b/wicked/helpers/orbital_space.cc
index 7190a5b..d067c2d 100644
--- a/wicked/helpers/orbital_space.cc
+++ b/wicked/helpers/orbital_space.cc
@@ -126,7 +126,7 @@ std::map<std::string, std::vector<std::string>> OrbitalSpaceInfo::to_dict() cons
   return d;
 }
 
-char OrbitalSpaceInfo::label(int pos) const { return space_info_[pos].label(); }
+char OrbitalSpaceInfo::label(int pos) const { return space_info_.at(pos).label(); }
 
 const std::string OrbitalSpaceInfo::index_label(int pos, int idx) const {
   const std::vector<std::string> &index_labels = indices(pos);
@@ -137,11 +137,11 @@ const std::string OrbitalSpaceInfo::index_label(int pos, int idx) const {
 }
 
 SpaceType OrbitalSpaceInfo::space_type(int pos) const {
-  return space_info_[pos].space_type();
+  return space_info_.at(pos).space_type();
 }
 
 FieldType OrbitalSpaceInfo::field_type(int pos) const {
-  return space_info_[pos].field_type();
+  return space_info_.at(pos).field_type();
 }
 
 const std::string &OrbitalSpaceInfo::op_symbol(int pos) const {
@@ -149,7 +149,7 @@ const std::string &OrbitalSpaceInfo::op_symbol(int pos) const {
 }
 
 const std::vector<std::string> &OrbitalSpaceInfo::indices(int pos) const {
-  return space_info_[pos].indices();
+  return space_info_.at(pos).indices();
 }
 
 int OrbitalSpaceInfo::label_to_space(char label) const {
-- 
2.43.0


From a8913d33ce6d810745e052e6bef8fb58a53dd64a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:37 +0000
Subject: [PATCH 07/16] fix: make OperatorExpression::add2 safe for self
 addition and failures

Adding an expression to itself with factor -1 erased the terms being iterated
over, and a failure half way left a partial sum.
---
 wicked/diagrams/operator_expression.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/wicked/diagrams/operator_expression.cc b/wicked/diagrams/operator_expression.cc
index 7a000c8..658427d 100644
--- a/wicked/diagrams/operator_expression.cc
+++ b/wicked/diagrams/operator_expression.cc
@@ -15,9 +15,12 @@ OperatorExpression::OperatorExpression(
 }
 
 void OperatorExpression::add2(const OperatorExpression &expr, scalar_t factor) {
+  // work on a copy because expr can be this object
+  opexpr_t sum(terms_);
   for (const auto &vec_dop_factor : expr.terms()) {
-    add(vec_dop_factor.first, factor * vec_dop_factor.second);
+    add_to_map(sum, vec_dop_factor.first, factor * vec_dop_factor.second);
   }
+  terms_ = std::move(sum);
 }
 
 void OperatorExpression::canonicalize() {
-- 
2.43.0


From d1baad60bae78f7eb31a7d6ec8d4d4422fc4104e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:24 +0000
Subject: [PATCH 08/16] fix: keep the terms of an iterated Expression valid
 when it changes

The iterator and the terms it returned pointed into the expression, so they
were left dangling by canonicalize() or by additions that cancel a term.
---
 wicked/api/expression_api.cc | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/wicked/api/expression_api.cc b/wicked/api/expression_api.cc
index 04f42e4..6cb6833 100644
--- a/wicked/api/expression_api.cc
+++ b/wicked/api/expression_api.cc
@@ -59,8 +59,15 @@ void export_Expression(py::module &m) {
           py::is_operator()) // Bind in-place addition with Term
       .def(
           "__iter__",
-          [](Expression &e) { return py::make_iterator(e.begin(), e.end()); },
-          py::keep_alive<0, 1>())
+          [](const Expression &e) {
+            // iterate over a copy of the terms, so that the iterator and the
+            // terms it returns stay valid if the expression changes
+            py::list terms;
+            for (const auto &[term, factor] : e.terms()) {
+              terms.append(py::make_tuple(term, factor));
+            }
+            return py::iter(terms);
+          })
       .def("dot", &Expression::dot, "rhs"_a)
       .def("norm", &Expression::norm)
       .def("latex", &Expression::latex, "sep"_a = " \\\\ \n")
-- 
2.43.0


From 0e1c9ffae4600bc03f6a931465df2d179aaaa089 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:04 +0000
Subject: [PATCH 09/16] fix: raise an error instead of truncating strings when
 memory runs out

String streams swallow allocation failures, so join() could return an
incomplete string (e.g., a printed expression with missing terms) and
split_indices() could drop indices. Build the strings directly.
---
 wicked/helpers/helpers.cc | 32 +++++++++++++++-----------------
 1 file changed, 15 insertions(+), 17 deletions(-)

diff --git a/wicked/helpers/helpers.cc b/wicked/helpers/helpers.cc
index 1c827a0..b1e4d4e 100644
--- a/wicked/helpers/helpers.cc
+++ b/wicked/helpers/helpers.cc
@@ -1,6 +1,4 @@
 #include <iostream>
-#include <iterator>
-#include <sstream>
 
 #include "helpers.h"
 
@@ -10,16 +8,15 @@ using std::string;
 
 std::string join(const std::vector<std::string> &strvec,
                  const std::string &sep) {
-  if (strvec.size() == 0)
-    return std::string();
-
-  std::ostringstream ss;
-
-  std::copy(strvec.begin(), strvec.end() - 1,
-            std::ostream_iterator<std::string>(ss, sep.c_str()));
-  ss << strvec.back();
-
-  return ss.str();
+  // no stream is used here, because streams ignore allocation failures and
+  // would return an incomplete string
+  std::string result;
+  for (size_t i = 0; i < strvec.size(); ++i) {
+    if (i > 0)
+      result += sep;
+    result += strvec[i];
+  }
+  return result;
 }
 
 // trim from start
@@ -72,13 +69,14 @@ std::vector<std::string> findall(const string &s, const std::regex &regex) {
 }
 
 std::vector<std::string> split_indices(const std::string &idx) {
-  std::istringstream f(idx);
-  std::string s;
   std::vector<std::string> v;
 
-  while (std::getline(f, s, ',')) {
-    std::string trimmed = trim(s);
-    v.push_back(trimmed);
+  size_t start = 0;
+  while (start < idx.size()) {
+    size_t end = std::min(idx.find(',', start), idx.size());
+    std::string s = idx.substr(start, end - start);
+    v.push_back(trim(s));
+    start = end + 1;
   }
 
   return v;
-- 
2.43.0


From 7b8b1fe6445f0a85b957bc5615fba79786f921b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:50 +0000
Subject: [PATCH 10/16] fix: do not change the field width of the shared
 std::cout in worker threads

---
 wicked/diagrams/wick_theorem_helpers.cc | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/wicked/diagrams/wick_theorem_helpers.cc b/wicked/diagrams/wick_theorem_helpers.cc
index 9e112ba..5e1b576 100644
--- a/wicked/diagrams/wick_theorem_helpers.cc
+++ b/wicked/diagrams/wick_theorem_helpers.cc
@@ -1,6 +1,5 @@
 #include <algorithm>
 #include <format>
-#include <iomanip>
 #include <iostream>
 #include <map>
 
@@ -33,7 +32,7 @@ void print_contraction_graph(const OperatorProduct &ops,
   cout << endl;
   cout << to_string(op_graph_matrix_vec) << endl;
   for (int o : ops_perm) {
-    cout << setw(2) << ops[o].label() << "    ";
+    cout << std::format("{:>2s}    ", ops[o].label());
   }
   cout << endl;
 }
-- 
2.43.0


From ba411e986be72f6271c5848f897e650513ead068 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:01 +0000
Subject: [PATCH 11/16] fix: create operators even if Python has no usable
 standard output

---
 wicked/api/operator_api.cc | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/wicked/api/operator_api.cc b/wicked/api/operator_api.cc
index 52f8c02..bcca6f2 100644
--- a/wicked/api/operator_api.cc
+++ b/wicked/api/operator_api.cc
@@ -1,4 +1,3 @@
-#include <pybind11/iostream.h>
 #include <pybind11/operators.h>
 #include <pybind11/pybind11.h>
 #include <pybind11/stl.h>
@@ -55,8 +54,6 @@ void export_OperatorExpression(py::module &m) {
       .def("canonicalize", &OperatorExpression::canonicalize);
   m.def("op", &make_diag_operator_expression, "label"_a, "components"_a,
         "unique"_a = false,
-        py::call_guard<py::scoped_ostream_redirect,
-                       py::scoped_estream_redirect>(),
         "Create a OperatorExpression object");
 
   m.def(
-- 
2.43.0


From a7680abce9ecd9d37c982d7e847689ba493788db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:33 +0000
Subject: [PATCH 12/16] fix: raise an error instead of crashing in
 Equation::compile

---
 wicked/algebra/equation.cc | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/wicked/algebra/equation.cc b/wicked/algebra/equation.cc
index b1f2d4f..0602e8f 100644
--- a/wicked/algebra/equation.cc
+++ b/wicked/algebra/equation.cc
@@ -56,6 +56,10 @@ std::string get_unique_index(const std::string &s,
   // is this index (something like "i" or "o2") in the map? If not, figure out
   // what it corresponds to.
   if (index_map.count(s) == 0) {
+    if (unused_indices.empty()) {
+      throw std::runtime_error("Equation::compile() - the equation has too many "
+                               "indices for an einsum string");
+    }
     // a character
     if (s.size() == 1) {
       if (std::find(unused_indices.begin(), unused_indices.end(), s) !=
@@ -101,6 +105,10 @@ std::string Equation::compile(const std::string &format) const {
 
   if (format == "einsum") {
     std::vector<std::string> str_vec;
+    if (lhs().tensors().empty()) {
+      throw std::runtime_error("Equation::compile() - the left-hand side of the "
+                               "equation has no tensor");
+    }
     const auto &lhs_tensor = lhs().tensors()[0];
 
     std::string lhs_tensor_label = lhs_tensor.label();
-- 
2.43.0


From e3834fbcdddef6ec4ff3e90cc859e9e1fe8097ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:09 +0000
Subject: [PATCH 13/16] fix: make addition and subtraction in place of
 expressions all-or-nothing

An allocation failure could leave a partial sum, and subtracting an
expression from itself erased the terms that were being iterated.
---
 wicked/helpers/algebra.hpp | 35 +++++++++++++++++++++++++++++------
 1 file changed, 29 insertions(+), 6 deletions(-)

diff --git a/wicked/helpers/algebra.hpp b/wicked/helpers/algebra.hpp
index 80f317b..e02baef 100644
--- a/wicked/helpers/algebra.hpp
+++ b/wicked/helpers/algebra.hpp
@@ -93,18 +93,14 @@ public:
   /// @brief Addition assignment operator
   /// @param rhs the term to add
   Algebra &operator+=(const Algebra &rhs) {
-    for (const auto &[e, c] : rhs.terms()) {
-      add(e, c);
-    }
+    add_scaled(rhs, F(1));
     return *this;
   }
 
   /// @brief Subtraction assignment operator
   /// @param rhs the term to subtract
   Algebra &operator-=(const Algebra &rhs) {
-    for (const auto &[e, c] : rhs.terms()) {
-      add(e, -c);
-    }
+    add_scaled(rhs, F(-1));
     return *this;
   }
 
@@ -148,4 +144,31 @@ public:
 
 protected:
   vecspace_t terms_;
+
+private:
+  /// @brief Add a multiple of rhs, which can be this object. If this fails the
+  /// object is left unchanged
+  void add_scaled(const Algebra &rhs, const F &factor) {
+    // first store the elements missing here, because allocations can fail
+    vecspace_t missing;
+    for (const auto &[e, c] : rhs.terms_) {
+      if (not contains(e)) {
+        add_to_map(missing, e, c * factor);
+      }
+    }
+    // then combine the elements in common, none of these operations can fail
+    for (auto it = rhs.terms_.begin(); it != rhs.terms_.end();) {
+      const auto &[e, c] = *it++; // this element can be erased below
+      auto search = terms_.find(e);
+      if (search != terms_.end() and c != 0) {
+        const F sum = search->second + c * factor;
+        if (sum == 0) {
+          terms_.erase(search);
+        } else {
+          search->second = sum;
+        }
+      }
+    }
+    terms_.merge(missing);
+  }
 };
-- 
2.43.0


From 5447f9ecad3f16732e401c5bd4bb595d0d04e0b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:04 +0000
Subject: [PATCH 14/16] fix: keep the denominator positive when dividing by a
 negative rational

---
 wicked/helpers/rational.cc | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/wicked/helpers/rational.cc b/wicked/helpers/rational.cc
index 4bb564d..49e4a61 100644
--- a/wicked/helpers/rational.cc
+++ b/wicked/helpers/rational.cc
@@ -63,9 +63,8 @@ rational &rational::operator*=(const rational &rhs) {
 }
 
 rational &rational::operator/=(const rational &rhs) {
-  numerator_ *= rhs.denominator();
-  denominator_ *= rhs.numerator();
-  reduce();
+  // the constructor enforces a positive denominator
+  *this = rational(numerator_ * rhs.denominator_, denominator_ * rhs.numerator_);
   return *this;
 }
 
-- 
2.43.0


From 4b3e816296e119f2485b2648160492469b536357 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:28 +0000
Subject: [PATCH 15/16] fix: write coefficients in generated code independently
 of the locale

---
 wicked/helpers/rational.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/wicked/helpers/rational.cc b/wicked/helpers/rational.cc
index 49e4a61..50c85a5 100644
--- a/wicked/helpers/rational.cc
+++ b/wicked/helpers/rational.cc
@@ -1,3 +1,4 @@
+#include <format>
 #include <numeric>
 #include <regex>
 
@@ -147,8 +148,9 @@ std::string rational::latex(bool first) const {
 }
 
 std::string rational::compile(const std::string &format) const {
-  return std::to_string(static_cast<double>(numerator_) /
-                        static_cast<double>(denominator_));
+  // std::format does not depend on the locale, unlike std::to_string
+  return std::format("{:f}", static_cast<double>(numerator_) /
+                                 static_cast<double>(denominator_));
 }
 
 rational operator+(rational lhs, const rational &rhs) {
-- 
2.43.0


From bc7a57cbae22bb747187284037f6ad02c7594224 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:59:37 +0000
Subject: [PATCH 16/16] fix: contractions of more than 100 elementary
 contractions wrote past a buffer

generate_contractions_backtrack keeps the current solution in a vector of 100
elements, which make_move indexed without a check.
---
 wicked/diagrams/wick_theorem_composite_contractions.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/wicked/diagrams/wick_theorem_composite_contractions.cc b/wicked/diagrams/wick_theorem_composite_contractions.cc
index 8e0159f..b36d981 100644
--- a/wicked/diagrams/wick_theorem_composite_contractions.cc
+++ b/wicked/diagrams/wick_theorem_composite_contractions.cc
@@ -131,7 +131,10 @@ void WickTheorem::make_move(
     std::vector<int> &a, int k, int c,
     const std::vector<ElementaryContraction> &el_contr_vec,
     std::vector<GraphMatrix> &free_graph_matrix_vec) {
-  // add this contraction to the solution
+  // add this contraction to the solution (make room for it if necessary)
+  if (a.size() < static_cast<size_t>(k)) {
+    a.resize(k, -1);
+  }
   a[k - 1] = c;
 
   // update the number of uncontracted operators
-- 
2.43.0

