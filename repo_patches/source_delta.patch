From 2220eb5b87dc41a6b1b4ac51b0c79dfcb1322eda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:35 +0000
Subject: [PATCH 01/75] fix: reset memoized hash of Product when it is
 canonicalized

A Product that contains non-tensor factors (nested Sum/Product) or only
scalars was mutated by canonicalization without invalidating its memoized
hash; comparing it afterwards failed the hash consistency assertion (and
terminated the process when that happened in a worker thread of a parallel
Sum canonicalization).
---
 SeQuant/core/expressions/expr.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/SeQuant/core/expressions/expr.cpp b/SeQuant/core/expressions/expr.cpp
index a8ce238..048ef0e 100644
--- a/SeQuant/core/expressions/expr.cpp
+++ b/SeQuant/core/expressions/expr.cpp
@@ -239,6 +239,8 @@ ExprPtr Product::canonicalize_impl(CanonicalizeOptions opts) {
       this->scalar_ *= std::static_pointer_cast<Constant>(bp)->value();
     }
   });
+  // factors may have been mutated and will be reordered below
+  this->reset_hash_value();
 
   if (Logger::instance().canonicalize) {
     std::wcout << "Product canonicalization(" << to_wstring(opts.method)
-- 
2.43.0


From e5c8ae6a60bfb849f1aeb69c4bfad00cb31b3776 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:44 +0000
Subject: [PATCH 02/75] fix: swap bra and ket of braket-symmetric tensors
 without column symmetry

TensorNetworkV3::canonicalize_graph skipped tensors without column symmetry
before it got to swapping their bra and ket bundles, so terms that differ only
by a bra<->ket swap of such a tensor were not brought to the same form and did
not cancel in a sum.
---
 SeQuant/core/tensor_network/v3.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/SeQuant/core/tensor_network/v3.cpp b/SeQuant/core/tensor_network/v3.cpp
index b33fa16..0c081df 100644
--- a/SeQuant/core/tensor_network/v3.cpp
+++ b/SeQuant/core/tensor_network/v3.cpp
@@ -370,10 +370,12 @@ ExprPtr TensorNetworkV3::canonicalize_graph(const NamedIndexSet &named_indices,
   for (std::size_t i = 0; i < tensors_.size(); ++i) {
     AbstractTensor &tensor = *tensors_[i];
 
-    if (column_symmetry(tensor) != ColumnSymmetry::Symm) continue;
     const auto asymm = symmetry(tensor) == Symmetry::Nonsymm;
 
-    if (asymm) {  // asymmetric tensor? order column slots only
+    if (column_symmetry(tensor) != ColumnSymmetry::Symm) {
+      // slots cannot be permuted within bra and ket, but {bra,ket} bundles can
+      // still be swapped, see below
+    } else if (asymm) {  // asymmetric tensor? order column slots only
 
       auto it = canonical_column_bundle_order.find(i);
       if (it == canonical_column_bundle_order.end()) continue;
-- 
2.43.0


From 08c388aa3cb3a4b61359bc9253132a286eaa6904 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:44 +0000
Subject: [PATCH 03/75] fix: canonicalize bare tensors in a Sum the same way as
 products

A Tensor summand was only subject to the per-tensor (rapid) canonicalization,
hence it kept its dummy labels and slot order and did not merge with identical
summands that have a prefactor, e.g. T{i2;i2,i1} - T{i3;i3,i1} was not
simplified to 0 if one of the terms was a Tensor and the other a Product.
---
 SeQuant/core/expressions/expr.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/SeQuant/core/expressions/expr.cpp b/SeQuant/core/expressions/expr.cpp
index 048ef0e..ec44126 100644
--- a/SeQuant/core/expressions/expr.cpp
+++ b/SeQuant/core/expressions/expr.cpp
@@ -453,6 +453,16 @@ ExprPtr Sum::canonicalize_impl(bool multipass, CanonicalizeOptions opts) {
       ExprPtr bp;
       if (rapid) {
         bp = summand->rapid_canonicalize(opts_copy);
+      } else if (summand.template is<AbstractTensor>()) {
+        // a bare tensor only supports rapid canonicalization; treat it as a
+        // (single-factor) product to get the same form as the products it may
+        // need to be combined with
+        Product product(ExprPtrList{summand});
+        bp = product.canonicalize(opts_copy);
+        SEQUANT_ASSERT(!bp && product.factors().size() == 1);
+        summand = product.scalar() == 1
+                      ? product.factor(0)
+                      : ex<Product>(product.scalar(), ExprPtrList{product.factor(0)});
       } else {
         bp = summand->canonicalize(opts_copy);
       }
-- 
2.43.0


From 4e7080e92ef64b7e893c1e04ea8f1d8117c86bfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:42 +0000
Subject: [PATCH 04/75] fix: Product::prepend of a Product preserves its factor
 order and scalar

---
 SeQuant/core/expressions/product.hpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/SeQuant/core/expressions/product.hpp b/SeQuant/core/expressions/product.hpp
index 8d9e1a6..3dd8d97 100644
--- a/SeQuant/core/expressions/product.hpp
+++ b/SeQuant/core/expressions/product.hpp
@@ -236,11 +236,12 @@ class Product : public Expr {
         reset_hash_value();
       }
     } else {  // factor is a product also  ... flatten recursively
-      const auto &factor_product = factor->as<Product>();
-      scalar_ *= factor_product.scalar_;
       if (flatten_tag != Flatten::No) {  // flatten, once or recursively
-        for (auto &&subfactor : factor_product)
-          this->prepend(1, subfactor,
+        const auto &factor_product = factor->as<Product>();
+        scalar_ *= factor_product.scalar_;
+        // prepend in reverse to preserve the order of subfactors
+        for (auto i = factor_product.factors_.size(); i != 0; --i)
+          this->prepend(1, factor_product.factors_[i - 1],
                         flatten_tag == Flatten::Once ? Flatten::No
                                                      : Flatten::Recursively);
       } else {
-- 
2.43.0


From 37aad4c792763f04f145cfe86170f7739d74dd7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:42 +0000
Subject: [PATCH 05/75] fix: reset memoized hash when a Constant or Variable is
 modified in place

---
 SeQuant/core/expressions/constant.hpp | 3 +++
 SeQuant/core/expressions/expr.cpp     | 5 ++++-
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/SeQuant/core/expressions/constant.hpp b/SeQuant/core/expressions/constant.hpp
index 9ae67a9..3b16f56 100644
--- a/SeQuant/core/expressions/constant.hpp
+++ b/SeQuant/core/expressions/constant.hpp
@@ -83,6 +83,7 @@ class Constant : public Expr {
   virtual Expr &operator*=(const Expr &that) override {
     if (that.is<Constant>()) {
       value_ *= that.as<Constant>().value();
+      reset_hash_value();
     } else {
       throw Exception("Constant::operator*=(that): not valid for that");
     }
@@ -92,6 +93,7 @@ class Constant : public Expr {
   virtual Expr &operator+=(const Expr &that) override {
     if (that.is<Constant>()) {
       value_ += that.as<Constant>().value();
+      reset_hash_value();
     } else {
       throw Exception("Constant::operator+=(that): not valid for that");
     }
@@ -101,6 +103,7 @@ class Constant : public Expr {
   virtual Expr &operator-=(const Expr &that) override {
     if (that.is<Constant>()) {
       value_ -= that.as<Constant>().value();
+      reset_hash_value();
     } else {
       throw Exception("Constant::operator-=(that): not valid for that");
     }
diff --git a/SeQuant/core/expressions/expr.cpp b/SeQuant/core/expressions/expr.cpp
index ec44126..723a1b8 100644
--- a/SeQuant/core/expressions/expr.cpp
+++ b/SeQuant/core/expressions/expr.cpp
@@ -201,7 +201,10 @@ void Variable::set_label(std::wstring label) {
   reset_hash_value();
 }
 
-void Variable::conjugate() { conjugated_ = !conjugated_; }
+void Variable::conjugate() {
+  conjugated_ = !conjugated_;
+  reset_hash_value();
+}
 
 bool Variable::conjugated() const { return conjugated_; }
 
-- 
2.43.0


From e7d546ba68e900d9cce219e18870234cfbd48990 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:42 +0000
Subject: [PATCH 06/75] fix: Sum move constructor skips no summand after
 erasing one

---
 SeQuant/core/expressions/sum.hpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/SeQuant/core/expressions/sum.hpp b/SeQuant/core/expressions/sum.hpp
index 4cfcda2..9216701 100644
--- a/SeQuant/core/expressions/sum.hpp
+++ b/SeQuant/core/expressions/sum.hpp
@@ -96,7 +96,7 @@ class Sum : public Expr {
   explicit Sum(summands_type &&summands, move_only_tag)
       : summands_(std::move(summands)) {
     std::size_t pos = 0;
-    for (auto it = summands_.begin(); it != summands_.end(); ++it) {
+    for (auto it = summands_.begin(); it != summands_.end();) {
       auto &summand = *it;
       bool do_erase = false;
       if (summand->is_zero()) {
@@ -114,11 +114,11 @@ class Sum : public Expr {
 
       // erase if needed
       if (do_erase) {
-        summands_.erase(it);
-        it = summands_.begin();
-        std::advance(it, pos);
-      } else
+        it = summands_.erase(it);
+      } else {
+        ++it;
         ++pos;
+      }
     }
   }
 
-- 
2.43.0


From d456d79cf145d43151fdf2ef73ac2bcd649f10c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:42 +0000
Subject: [PATCH 07/75] fix: HashingAccumulator adds constants instead of
 doubling one of them

---
 SeQuant/core/expressions/expr.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/SeQuant/core/expressions/expr.cpp b/SeQuant/core/expressions/expr.cpp
index 723a1b8..d22eb7e 100644
--- a/SeQuant/core/expressions/expr.cpp
+++ b/SeQuant/core/expressions/expr.cpp
@@ -531,6 +531,13 @@ HashingAccumulator &HashingAccumulator::append(ExprPtr summand, bool flatten) {
     } else {
       if (existing_summand.is<Product>()) {
         existing_summand.as<Product>().add_identical(summand);
+      } else if (summand.is<Constant>()) {
+        // constants are always proportional, but not necessarily equal
+        auto constant_sum =
+            ex<Constant>(existing_summand.as<Constant>().value() +
+                         summand.as<Constant>().value());
+        summands_.erase(it);
+        return this->append(std::move(constant_sum), flatten);
       } else {
         // neither is a product - create new product
         auto product_form = std::make_shared<Product>();
-- 
2.43.0


From 9fe9a340e43c8d145deb4eb3a97318f062097603 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:42 +0000
Subject: [PATCH 08/75] fix: allow appending a Product or Sum to itself

---
 SeQuant/core/expressions/product.hpp | 4 ++++
 SeQuant/core/expressions/sum.hpp     | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/SeQuant/core/expressions/product.hpp b/SeQuant/core/expressions/product.hpp
index 3dd8d97..1d33516 100644
--- a/SeQuant/core/expressions/product.hpp
+++ b/SeQuant/core/expressions/product.hpp
@@ -152,6 +152,8 @@ class Product : public Expr {
   Product &append(T scalar, ExprPtr factor,
                   Flatten flatten_tag = Flatten::Yes) {
     SEQUANT_ASSERT(factor);
+    // N.B. this cannot be modified while it is being read
+    if (factor.get() == this) factor = factor->clone();
     scalar_ *= scalar;
     if (!factor->is<Product>()) {
       if (factor->is<Constant>()) {  // factor in Constant
@@ -225,6 +227,8 @@ class Product : public Expr {
   Product &prepend(T scalar, ExprPtr factor,
                    Flatten flatten_tag = Flatten::Yes) {
     SEQUANT_ASSERT(factor);
+    // N.B. this cannot be modified while it is being read
+    if (factor.get() == this) factor = factor->clone();
     scalar_ *= scalar;
     if (!factor->is<Product>()) {
       if (factor->is<Constant>()) {  // factor in Constant
diff --git a/SeQuant/core/expressions/sum.hpp b/SeQuant/core/expressions/sum.hpp
index 9216701..1b9655c 100644
--- a/SeQuant/core/expressions/sum.hpp
+++ b/SeQuant/core/expressions/sum.hpp
@@ -126,6 +126,8 @@ class Sum : public Expr {
   /// @param summand the summand
   Sum &append(ExprPtr summand) {
     SEQUANT_ASSERT(summand);
+    // N.B. this cannot be modified while it is being read
+    if (summand.get() == this) summand = summand->clone();
     if (!summand->is<Sum>()) {
       if (!summand->is_zero()) {        // exclude zeros
         if (summand->is<Constant>()) {  // add up constants
@@ -154,6 +156,8 @@ class Sum : public Expr {
   /// @param summand the summand
   Sum &prepend(ExprPtr summand) {
     SEQUANT_ASSERT(summand);
+    // N.B. this cannot be modified while it is being read
+    if (summand.get() == this) summand = summand->clone();
     if (!summand->is<Sum>()) {
       if (!summand->is_zero()) {
         // exclude zeros
-- 
2.43.0


From b000f9ce9fc9368c8de51c027176ea9b0a0c71d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:33 +0000
Subject: [PATCH 09/75] fix: Tensor::set_bra/set_ket update the net rank

---
 SeQuant/core/expressions/tensor.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/SeQuant/core/expressions/tensor.hpp b/SeQuant/core/expressions/tensor.hpp
index 07b3b7d..2279648 100644
--- a/SeQuant/core/expressions/tensor.hpp
+++ b/SeQuant/core/expressions/tensor.hpp
@@ -552,12 +552,16 @@ class Tensor : public Expr, public AbstractTensor, public MutatableLabeled {
   const auto &bra() const { return bra_; }
   void set_bra(index_container_type indices) {
     bra_ = sequant::bra(std::move(indices));
+    bra_net_rank_ = ranges::count_if(
+        bra_, [](const Index &idx) { return idx.nonnull(); });
     reset_hash_value();
   }
   /// @return the ket slot range (empty slots are occupied by null indices)
   const auto &ket() const { return ket_; }
   void set_ket(index_container_type indices) {
     ket_ = sequant::ket(std::move(indices));
+    ket_net_rank_ = ranges::count_if(
+        ket_, [](const Index &idx) { return idx.nonnull(); });
     reset_hash_value();
   }
   /// @return the aux slot range (empty slots are occupied by null indices)
-- 
2.43.0


From 4fd3fba315b1adfd11de1a81c8cef8c95bb7f8c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:06 +0000
Subject: [PATCH 10/75] fix: serialize a Sum nested in a Sum once

---
 SeQuant/core/io/serialization/v1/serialize.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/SeQuant/core/io/serialization/v1/serialize.cpp b/SeQuant/core/io/serialization/v1/serialize.cpp
index 3b4f56c..ceef136 100644
--- a/SeQuant/core/io/serialization/v1/serialize.cpp
+++ b/SeQuant/core/io/serialization/v1/serialize.cpp
@@ -204,7 +204,7 @@ std::wstring to_string(Sum const& sum, const SerializationOptions& options) {
 
     bool is_negative = false;
     if (parenthesize) {
-      current_serialized += L"(" + current_serialized + L")";
+      current_serialized = L"(" + current_serialized + L")";
     } else {
       is_negative = current_serialized.front() == L'-';
     }
-- 
2.43.0


From d13c56b4e7f442823473655c68dc43a29ee16e18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:06 +0000
Subject: [PATCH 11/75] fix: deserialize numbers exactly, and reject
 infinities, NaNs and zero denominators

Integers were converted via double (losing digits beyond 2^53), names that start
with 'inf' or 'nan' were taken for numbers, and a zero denominator escaped as a
boost::multiprecision error instead of SerializationError.
---
 SeQuant/core/io/serialization/v1/ast.hpp      | 10 +++--
 .../io/serialization/v1/ast_conversions.hpp   | 34 ++++++++-------
 .../core/io/serialization/v1/deserialize.cpp  |  8 +++-
 .../io/serialization/v1/semantic_actions.hpp  | 41 +++++++++++++++++++
 4 files changed, 69 insertions(+), 24 deletions(-)

diff --git a/SeQuant/core/io/serialization/v1/ast.hpp b/SeQuant/core/io/serialization/v1/ast.hpp
index eff36d0..847f34d 100644
--- a/SeQuant/core/io/serialization/v1/ast.hpp
+++ b/SeQuant/core/io/serialization/v1/ast.hpp
@@ -5,6 +5,8 @@
 #ifndef SEQUANT_CORE_PARSE_V1_AST_HPP
 #define SEQUANT_CORE_PARSE_V1_AST_HPP
 
+#include <SeQuant/core/rational.hpp>
+
 #define BOOST_SPIRIT_X3_UNICODE
 #include <boost/fusion/include/adapt_struct.hpp>
 #include <boost/optional.hpp>
@@ -35,11 +37,11 @@ struct Index : boost::spirit::x3::position_tagged {
 };
 
 struct Number : boost::spirit::x3::position_tagged {
-  double numerator;
-  double denominator;
+  rational numerator;
+  rational denominator;
 
-  Number(double numerator = {}, double denominator = 1)
-      : numerator(numerator), denominator(denominator) {}
+  Number(rational numerator = 0, rational denominator = 1)
+      : numerator(std::move(numerator)), denominator(std::move(denominator)) {}
 };
 
 struct Variable : boost::spirit::x3::position_tagged {
diff --git a/SeQuant/core/io/serialization/v1/ast_conversions.hpp b/SeQuant/core/io/serialization/v1/ast_conversions.hpp
index 22e761c..6798c52 100644
--- a/SeQuant/core/io/serialization/v1/ast_conversions.hpp
+++ b/SeQuant/core/io/serialization/v1/ast_conversions.hpp
@@ -20,6 +20,8 @@
 #include <range/v3/algorithm/find.hpp>
 
 #include <algorithm>
+#include <cstdint>
+#include <limits>
 #include <string>
 #include <tuple>
 #include <variant>
@@ -214,17 +216,14 @@ ColumnSymmetry to_column_symmetry(char c, std::size_t offset, const Iterator &,
 
 template <typename PositionCache, typename Iterator>
 Constant to_constant(const io::serialization::v1::ast::Number &number,
-                     const PositionCache &, const Iterator &) {
-  if (static_cast<std::int64_t>(number.numerator) == number.numerator &&
-      static_cast<std::int64_t>(number.denominator) == number.denominator) {
-    // Integer fraction
-    return Constant(
-        ::sequant::rational(static_cast<std::int64_t>(number.numerator),
-                            static_cast<std::int64_t>(number.denominator)));
-  } else {
-    // Construct from floating point value
-    return Constant(::sequant::rational(number.numerator / number.denominator));
+                     const PositionCache &position_cache,
+                     const Iterator &begin) {
+  if (number.denominator == 0) {
+    auto [offset, length] = get_pos(number, position_cache, begin);
+    throw SerializationError(offset, length, "Division by zero");
   }
+
+  return Constant(::sequant::rational(number.numerator / number.denominator));
 }
 
 template <typename PositionCache, typename Iterator>
@@ -362,20 +361,19 @@ struct Transformer {
     // build base from Number or Variable
     ExprPtr base = boost::apply_visitor(*this, power.base);
 
-    // exponent must be a rational, reject otherwise
-    if (static_cast<std::int64_t>(power.exponent.numerator) !=
-            power.exponent.numerator ||
-        static_cast<std::int64_t>(power.exponent.denominator) !=
-            power.exponent.denominator) {
+    // exponent must be a (regular) rational, reject otherwise
+    const auto &num = power.exponent.numerator;
+    const auto &den = power.exponent.denominator;
+    const rational max(std::numeric_limits<std::int64_t>::max());
+    if (denominator(num) != 1 || denominator(den) != 1 || den == 0 ||
+        abs(num) > max || abs(den) > max) {
       auto [offset, length] = get_pos(power, position_cache.get(), begin.get());
       throw SerializationError(
           offset, length,
           "Power exponent must be a rational number (integer numerator and "
           "denominator)");
     }
-    sequant::rational exponent(
-        static_cast<std::int64_t>(power.exponent.numerator),
-        static_cast<std::int64_t>(power.exponent.denominator));
+    sequant::rational exponent = num / den;
 
     auto pw = ex<Power>(std::move(base), std::move(exponent));
     if (power.conjugated) {
diff --git a/SeQuant/core/io/serialization/v1/deserialize.cpp b/SeQuant/core/io/serialization/v1/deserialize.cpp
index f8e8ff7..475b56d 100644
--- a/SeQuant/core/io/serialization/v1/deserialize.cpp
+++ b/SeQuant/core/io/serialization/v1/deserialize.cpp
@@ -35,6 +35,7 @@ namespace x3 = boost::spirit::x3;
 
 namespace parse {
 
+struct RealRule;
 struct NumberRule;
 struct VariableRule;
 struct TensorRule;
@@ -49,6 +50,7 @@ struct IndexGroupRule;
 struct SymmetrySpecRule;
 
 // Types
+x3::rule<RealRule, rational> real{"Number"};
 x3::rule<NumberRule, ast::Number> number{"Number"};
 x3::rule<VariableRule, ast::Variable> variable{"Variable"};
 x3::rule<TensorRule, ast::Tensor> tensor{"Tensor"};
@@ -89,7 +91,9 @@ auto name_def         = x3::lexeme[
                             x3::unicode::alpha >> -( *(word_components >> &word_components) >> (word_components - '_') )
                         ];
 
-auto number_def       = x3::double_ >> -('/' >> x3::double_);
+auto real_def         = x3::raw[x3::real_parser<double, actions::real_policies>{}][actions::process_real{}];
+
+auto number_def       = real >> -('/' >> real);
 
 auto variable_def     = x3::lexeme[name >> -(x3::lit('^') >> '*' >> x3::attr(true))];
 
@@ -142,7 +146,7 @@ auto expr_def         = -sum > x3::eoi;
 auto resultExpr_def       = (tensor | variable) > (L'=' | x3::lit(L"->")) >> expr;
 // clang-format on
 
-BOOST_SPIRIT_DEFINE(name, number, variable, index_label, index, index_groups,
+BOOST_SPIRIT_DEFINE(name, real, number, variable, index_label, index, index_groups,
                     tensor, power, product, sum, expr, symmetry_spec,
                     resultExpr);
 
diff --git a/SeQuant/core/io/serialization/v1/semantic_actions.hpp b/SeQuant/core/io/serialization/v1/semantic_actions.hpp
index 26dab21..1e8f855 100644
--- a/SeQuant/core/io/serialization/v1/semantic_actions.hpp
+++ b/SeQuant/core/io/serialization/v1/semantic_actions.hpp
@@ -6,12 +6,14 @@
 #define SEQUANT_CORE_PARSE_SEMANTIC_ACTIONS_V1_HPP
 
 #include <SeQuant/core/io/serialization/v1/ast.hpp>
+#include <SeQuant/core/rational.hpp>
 #include <SeQuant/core/utility/string.hpp>
 
 #define BOOST_SPIRIT_X3_UNICODE
 #include <boost/spirit/home/x3.hpp>
 #include <boost/variant/apply_visitor.hpp>
 
+#include <string>
 #include <type_traits>
 #include <vector>
 
@@ -70,6 +72,45 @@ struct process_addend {
   }
 };
 
+/// Numbers do not include spelled out infinities and NaNs (these are names)
+struct real_policies : x3::real_policies<double> {
+  template <typename Iterator, typename Attribute>
+  static bool parse_nan(Iterator &, const Iterator &, Attribute &) {
+    return false;
+  }
+  template <typename Iterator, typename Attribute>
+  static bool parse_inf(Iterator &, const Iterator &, Attribute &) {
+    return false;
+  }
+};
+
+/// Converts the text of a number to its value; integers are converted exactly
+struct process_real {
+  template <typename Context>
+  void operator()(Context &ctx) const {
+    const auto &range = x3::_attr(ctx);
+    std::string text(range.begin(), range.end());
+
+    if (text.find_first_not_of("0123456789", text.front() == '-' ||
+                                                 text.front() == '+') ==
+        std::string::npos) {
+      if (text.front() == '+') text.erase(0, 1);
+      const bool negative = text.front() == '-';
+      // note: leading zeros would select base 8
+      const auto first = text.find_first_not_of('0', negative);
+      const sequant::intmax_t magnitude(
+          first == std::string::npos ? std::string("0") : text.substr(first));
+      x3::_val(ctx) =
+          rational(negative ? sequant::intmax_t(-magnitude) : magnitude);
+    } else {
+      double value = 0;
+      x3::parse(text.begin(), text.end(),
+                x3::real_parser<double, real_policies>{}, value);
+      x3::_val(ctx) = rational(value);
+    }
+  }
+};
+
 }  // namespace sequant::io::serialization::v1::actions
 
 #endif  // SEQUANT_CORE_PARSE_SEMANTIC_ACTIONS_V1_HPP
-- 
2.43.0


From 4916e86df1e2a1d4f860b3bb3d8884fef5c4fe08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:41 +0000
Subject: [PATCH 12/75] fix: reject numbers beyond the range of double

---
 SeQuant/core/io/serialization/v1/semantic_actions.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/SeQuant/core/io/serialization/v1/semantic_actions.hpp b/SeQuant/core/io/serialization/v1/semantic_actions.hpp
index 1e8f855..5861542 100644
--- a/SeQuant/core/io/serialization/v1/semantic_actions.hpp
+++ b/SeQuant/core/io/serialization/v1/semantic_actions.hpp
@@ -13,6 +13,7 @@
 #include <boost/spirit/home/x3.hpp>
 #include <boost/variant/apply_visitor.hpp>
 
+#include <cmath>
 #include <string>
 #include <type_traits>
 #include <vector>
@@ -106,6 +107,10 @@ struct process_real {
       double value = 0;
       x3::parse(text.begin(), text.end(),
                 x3::real_parser<double, real_policies>{}, value);
+      if (!std::isfinite(value)) {
+        x3::_pass(ctx) = false;
+        return;
+      }
       x3::_val(ctx) = rational(value);
     }
   }
-- 
2.43.0


From 4743fcb251a1587f68495bec3fde0baa2eb9e152 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:41 +0000
Subject: [PATCH 13/75] fix: multi-letter tensor names in label_{bra}^{ket}
 form

The name rule backtracked to a single letter in front of '_{', so that foo_{i_1}^{a_1}
was read as the product f * o * o{i_1;a_1}.
---
 SeQuant/core/io/serialization/v1/deserialize.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/SeQuant/core/io/serialization/v1/deserialize.cpp b/SeQuant/core/io/serialization/v1/deserialize.cpp
index 475b56d..b9f53fb 100644
--- a/SeQuant/core/io/serialization/v1/deserialize.cpp
+++ b/SeQuant/core/io/serialization/v1/deserialize.cpp
@@ -88,7 +88,7 @@ auto word_components = x3::unicode::alnum
 // underscores, but can not end with an underscore (to not confuse the parser
 // with tensors á la t_{…}^{…}.
 auto name_def         = x3::lexeme[
-                            x3::unicode::alpha >> -( *(word_components >> &word_components) >> (word_components - '_') )
+                            x3::unicode::alpha >> *( (word_components - '_') | (x3::char_('_') >> &( *x3::lit('_') >> (word_components - '_') )) )
                         ];
 
 auto real_def         = x3::raw[x3::real_parser<double, actions::real_policies>{}][actions::process_real{}];
-- 
2.43.0


From 627e44f7cda452442ea10eabd100dc41ad178f42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:41 +0000
Subject: [PATCH 14/75] fix: report syntax errors in results as
 SerializationError

The error handler was attached to a non-existent rule.
---
 SeQuant/core/io/serialization/v1/deserialize.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/SeQuant/core/io/serialization/v1/deserialize.cpp b/SeQuant/core/io/serialization/v1/deserialize.cpp
index b9f53fb..9ca065b 100644
--- a/SeQuant/core/io/serialization/v1/deserialize.cpp
+++ b/SeQuant/core/io/serialization/v1/deserialize.cpp
@@ -185,7 +185,7 @@ struct PowerRule : helpers::annotate_position, helpers::error_handler {};
 struct ProductRule : helpers::annotate_position, helpers::error_handler {};
 struct SumRule : helpers::annotate_position, helpers::error_handler {};
 struct ExprRule : helpers::annotate_position, helpers::error_handler {};
-struct ResultRule : helpers::annotate_position, helpers::error_handler {};
+struct ResultExprRule : helpers::annotate_position, helpers::error_handler {};
 struct IndexLabelRule : helpers::annotate_position, helpers::error_handler {};
 struct IndexRule : helpers::annotate_position, helpers::error_handler {};
 struct IndexGroupRule : helpers::annotate_position, helpers::error_handler {};
-- 
2.43.0


From 56fe41ab70ac04b1327c2dda2c93c3c4ae1fd3cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:44 +0000
Subject: [PATCH 15/75] fix: TensorNetwork::tensor_input_ordinals() reports the
 input positions of the tensors

---
 SeQuant/core/tensor_network/utils.hpp |  4 +++-
 SeQuant/core/tensor_network/v1.hpp    |  2 +-
 SeQuant/core/tensor_network/v2.cpp    | 15 +++++++--------
 SeQuant/core/tensor_network/v2.hpp    |  9 +++++++++
 SeQuant/core/tensor_network/v3.cpp    | 16 +++++++---------
 SeQuant/core/tensor_network/v3.hpp    | 10 ++++++++++
 6 files changed, 37 insertions(+), 19 deletions(-)

diff --git a/SeQuant/core/tensor_network/utils.hpp b/SeQuant/core/tensor_network/utils.hpp
index eaefcfb..caf6c10 100644
--- a/SeQuant/core/tensor_network/utils.hpp
+++ b/SeQuant/core/tensor_network/utils.hpp
@@ -230,6 +230,8 @@ container::svector<std::size_t> sort_via_ordinals(Sequence &seq,
     std::sort(begin(input_ordinals), end(input_ordinals), less_than);
   }
 
+  const auto result = input_ordinals;
+
   // Bring elements in container into the order given by indices
   // (the association is container[k] = container[indices[k]])
   // -> implementation from https://stackoverflow.com/a/838789
@@ -254,7 +256,7 @@ container::svector<std::size_t> sort_via_ordinals(Sequence &seq,
     std::swap(input_ordinals[i], input_ordinals[k]);
   }
 
-  return input_ordinals;
+  return result;
 }
 
 }  // namespace sequant
diff --git a/SeQuant/core/tensor_network/v1.hpp b/SeQuant/core/tensor_network/v1.hpp
index ab67f02..f0ca701 100644
--- a/SeQuant/core/tensor_network/v1.hpp
+++ b/SeQuant/core/tensor_network/v1.hpp
@@ -208,9 +208,9 @@ class TensorNetworkV1 {
   template <typename ExprPtrRange>
   TensorNetworkV1(ExprPtrRange &exprptr_range) {
     if (exprptr_range.size() > 0) {
+      std::size_t count = 0;
       for (auto &&ex : exprptr_range) {
         auto t = std::dynamic_pointer_cast<AbstractTensor>(ex);
-        std::size_t count = 0;
         if (t) {
           tensors_.emplace_back(t);
           tensor_input_ordinals_.emplace_back(count++);
diff --git a/SeQuant/core/tensor_network/v2.cpp b/SeQuant/core/tensor_network/v2.cpp
index a4fefd8..cc7152b 100644
--- a/SeQuant/core/tensor_network/v2.cpp
+++ b/SeQuant/core/tensor_network/v2.cpp
@@ -355,7 +355,7 @@ void TensorNetworkV2::canonicalize_graph(const NamedIndexSet &named_indices) {
     return canonize_perm[lhs_vertex] < canonize_perm[rhs_vertex];
   };
 
-  sort_via_ordinals<OrderType::Weak>(tensors_, tensor_sorter);
+  sort_tensors(tensor_sorter);
 
   if (Logger::instance().canonicalize) {
     std::wcout << "TensorNetworkV2::canonicalize_graph: tensors after "
@@ -410,12 +410,9 @@ ExprPtr TensorNetworkV2::canonicalize(
   CanonicalTensorCompare<decltype(cardinal_tensor_labels)> tensor_sorter(
       cardinal_tensor_labels, true);
 
-  using ranges::begin;
-  using ranges::end;
-  using ranges::views::zip;
-  auto tensors_with_ordinals = zip(tensors_, tensor_input_ordinals_);
-  bubble_sort(begin(tensors_with_ordinals), end(tensors_with_ordinals),
-              tensor_sorter);
+  sort_tensors([&](std::size_t lhs, std::size_t rhs) {
+    return tensor_sorter(tensors_[lhs], tensors_[rhs]);
+  });
 
   init_edges();
 
@@ -492,7 +489,9 @@ ExprPtr TensorNetworkV2::canonicalize(
   // reorder tensors based on the regular AbstractTensor::operator<, which takes
   // the explicit index labelling of tensors into account.
   tensor_sorter.set_blocks_only(false);
-  std::stable_sort(tensors_.begin(), tensors_.end(), tensor_sorter);
+  sort_tensors([&](std::size_t lhs, std::size_t rhs) {
+    return tensor_sorter(tensors_[lhs], tensors_[rhs]);
+  });
 
   SEQUANT_ASSERT(byproduct->is<Constant>());
   return (byproduct->as<Constant>().value() == 1) ? nullptr : byproduct;
diff --git a/SeQuant/core/tensor_network/v2.hpp b/SeQuant/core/tensor_network/v2.hpp
index 97a4fc9..9ff4a8d 100644
--- a/SeQuant/core/tensor_network/v2.hpp
+++ b/SeQuant/core/tensor_network/v2.hpp
@@ -435,6 +435,15 @@ class TensorNetworkV2 {
   ExprPtr do_individual_canonicalization(
       const TensorCanonicalizer &canonicalizer);
 
+  /// reorders tensors_ keeping track of their input ordinals
+  /// @param less_than compares (current) ordinals of 2 tensors
+  template <typename LessThan>
+  void sort_tensors(const LessThan &less_than) {
+    auto ordinals = sort_via_ordinals<OrderType::Weak>(tensors_, less_than);
+    for (auto &ord : ordinals) ord = tensor_input_ordinals_[ord];
+    tensor_input_ordinals_ = std::move(ordinals);
+  }
+
   void add_expr(const Expr &expr) {
     ExprPtr clone = expr.clone();
 
diff --git a/SeQuant/core/tensor_network/v3.cpp b/SeQuant/core/tensor_network/v3.cpp
index 0c081df..ee75ed1 100644
--- a/SeQuant/core/tensor_network/v3.cpp
+++ b/SeQuant/core/tensor_network/v3.cpp
@@ -454,8 +454,7 @@ ExprPtr TensorNetworkV3::canonicalize_graph(const NamedIndexSet &named_indices,
     return canonize_perm[lhs_vertex] < canonize_perm[rhs_vertex];
   };
 
-  tensor_input_ordinals_ =
-      sort_via_ordinals<OrderType::Weak>(tensors_, tensor_less_than);
+  sort_tensors(tensor_less_than);
 
   if (Logger::instance().canonicalize) {
     std::wostringstream oss;
@@ -551,12 +550,9 @@ ExprPtr TensorNetworkV3::canonicalize(
     CanonicalTensorCompare<decltype(cardinal_tensor_labels)> tensor_sorter(
         cardinal_tensor_labels, true);
 
-    using ranges::begin;
-    using ranges::end;
-    using ranges::views::zip;
-    auto tensors_with_ordinals = zip(tensors_, tensor_input_ordinals_);
-    bubble_sort(begin(tensors_with_ordinals), end(tensors_with_ordinals),
-                tensor_sorter);
+    sort_tensors([&](std::size_t lhs, std::size_t rhs) {
+      return tensor_sorter(tensors_[lhs], tensors_[rhs]);
+    });
 
     init_edges();
 
@@ -636,7 +632,9 @@ ExprPtr TensorNetworkV3::canonicalize(
     // now reorder tensors based on the regular AbstractTensor::operator<, which
     // takes the explicit index labelling of tensors into account.
     tensor_sorter.set_blocks_only(false);
-    std::stable_sort(tensors_.begin(), tensors_.end(), tensor_sorter);
+    sort_tensors([&](std::size_t lhs, std::size_t rhs) {
+      return tensor_sorter(tensors_[lhs], tensors_[rhs]);
+    });
   }  // lexicographic canonicalization
 
   if (byproduct) {
diff --git a/SeQuant/core/tensor_network/v3.hpp b/SeQuant/core/tensor_network/v3.hpp
index 6c49f49..7ab2a06 100644
--- a/SeQuant/core/tensor_network/v3.hpp
+++ b/SeQuant/core/tensor_network/v3.hpp
@@ -10,6 +10,7 @@
 #include <SeQuant/core/index.hpp>
 #include <SeQuant/core/tensor_network/canonicals.hpp>
 #include <SeQuant/core/tensor_network/slot.hpp>
+#include <SeQuant/core/tensor_network/utils.hpp>
 #include <SeQuant/core/tensor_network/vertex.hpp>
 #include <SeQuant/core/utility/aggregate.hpp>
 #include <SeQuant/core/utility/macros.hpp>
@@ -466,6 +467,15 @@ class TensorNetworkV3 {
   ExprPtr do_individual_canonicalization(
       const TensorCanonicalizer &canonicalizer);
 
+  /// reorders tensors_ keeping track of their input ordinals
+  /// @param less_than compares (current) ordinals of 2 tensors
+  template <typename LessThan>
+  void sort_tensors(const LessThan &less_than) {
+    auto ordinals = sort_via_ordinals<OrderType::Weak>(tensors_, less_than);
+    for (auto &ord : ordinals) ord = tensor_input_ordinals_[ord];
+    tensor_input_ordinals_ = std::move(ordinals);
+  }
+
   void add_expr(const Expr &expr) {
     ExprPtr clone = expr.clone();
 
-- 
2.43.0


From b850b3a37bcf4ab2ecf6d26526efa11ed1486353 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:57 +0000
Subject: [PATCH 16/75] fix: define the declared
 non_canon_simplify(ResultExpr&&)

---
 SeQuant/core/expressions/expr_algorithms.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/SeQuant/core/expressions/expr_algorithms.cpp b/SeQuant/core/expressions/expr_algorithms.cpp
index 982f2f0..586af63 100644
--- a/SeQuant/core/expressions/expr_algorithms.cpp
+++ b/SeQuant/core/expressions/expr_algorithms.cpp
@@ -486,4 +486,8 @@ ResultExpr& non_canon_simplify(ResultExpr& expr) {
   return expr;
 }
 
+ResultExpr non_canon_simplify(ResultExpr&& expr) {
+  return std::move(non_canon_simplify(expr));
+}
+
 }  // namespace sequant
-- 
2.43.0


From 3d03fcb9235459dd493e2792be22afeb203477b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:42 +0000
Subject: [PATCH 17/75] fix: reset memoized base spaces of IndexSpaceRegistry
 upon assignment, clear() and change of the particle mask

---
 SeQuant/core/index_space_registry.cpp | 2 ++
 SeQuant/core/index_space_registry.hpp | 4 ++--
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/SeQuant/core/index_space_registry.cpp b/SeQuant/core/index_space_registry.cpp
index 8cac06b..1f115c6 100644
--- a/SeQuant/core/index_space_registry.cpp
+++ b/SeQuant/core/index_space_registry.cpp
@@ -8,6 +8,8 @@ namespace sequant {
 
 void IndexSpaceRegistry::physical_particle_attribute_mask(bitset_t m) {
   physical_particle_attribute_mask_ = m;
+  // definition of base spaces depends on the mask
+  clear_memoized_data_and_return_this();
 }
 
 bitset_t IndexSpaceRegistry::physical_particle_attribute_mask() const {
diff --git a/SeQuant/core/index_space_registry.hpp b/SeQuant/core/index_space_registry.hpp
index a55593e..164e8da 100644
--- a/SeQuant/core/index_space_registry.hpp
+++ b/SeQuant/core/index_space_registry.hpp
@@ -135,7 +135,7 @@ class IndexSpaceRegistry {
     complete_ = other.complete_;
     hole_space_ = other.hole_space_;
     particle_space_ = other.particle_space_;
-    return *this;
+    return clear_memoized_data_and_return_this();
   }
 
   /// move assignment operator
@@ -148,7 +148,7 @@ class IndexSpaceRegistry {
     complete_ = std::move(other.complete_);
     hole_space_ = std::move(other.hole_space_);
     particle_space_ = std::move(other.particle_space_);
-    return *this;
+    return clear_memoized_data_and_return_this();
   }
 
   /// deep copy of this object, creates a copy of its spaces
-- 
2.43.0


From 3136c933d222128ca28f5282d022b00592f8587e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:42 +0000
Subject: [PATCH 18/75] fix: IndexSpaceRegistry::intersection intersects
 quantum numbers too

---
 SeQuant/core/index_space_registry.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/SeQuant/core/index_space_registry.hpp b/SeQuant/core/index_space_registry.hpp
index 164e8da..28b7a70 100644
--- a/SeQuant/core/index_space_registry.hpp
+++ b/SeQuant/core/index_space_registry.hpp
@@ -620,7 +620,7 @@ class IndexSpaceRegistry {
       // check the registry
       auto intersection_type = space1.type().intersection(space2.type());
       const IndexSpace& intersection_space =
-          find_by_attr({intersection_type, space1.qns()});
+          find_by_attr({intersection_type, target_qns});
       // the nullspace is a reasonable return value for intersection
       if (intersection_space == IndexSpace::null && intersection_type) {
         throw Exception(
-- 
2.43.0


From 8743edb77bde1278bf101b920522631009516836 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:42 +0000
Subject: [PATCH 19/75] fix: IndexSpaceRegistry::is_pure_occupied tests for a
 subset rather than compares bitsets as integers

---
 SeQuant/core/index_space_registry.hpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/SeQuant/core/index_space_registry.hpp b/SeQuant/core/index_space_registry.hpp
index 28b7a70..451e8b9 100644
--- a/SeQuant/core/index_space_registry.hpp
+++ b/SeQuant/core/index_space_registry.hpp
@@ -904,9 +904,7 @@ class IndexSpaceRegistry {
     if (!IS) {
       return false;
     }
-    // this introduces icky dependence on bit footprint of vacuum_occupied_space
-    if (IS.type().to_int32() <=
-        vacuum_occupied_space(IS.qns()).type().to_int32()) {
+    if (vacuum_occupied_space(IS.qns()).type().includes(IS.type())) {
       return true;
     } else {
       return false;
-- 
2.43.0


From ab8bf8a38da8d609a1acfda989e50c7f376bbc63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:42 +0000
Subject: [PATCH 20/75] fix: IndexSpaceRegistry::base_space_types reports each
 type once

---
 SeQuant/core/index_space_registry.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/SeQuant/core/index_space_registry.hpp b/SeQuant/core/index_space_registry.hpp
index 451e8b9..78329da 100644
--- a/SeQuant/core/index_space_registry.hpp
+++ b/SeQuant/core/index_space_registry.hpp
@@ -830,8 +830,10 @@ class IndexSpaceRegistry {
       auto types = *spaces_ | ranges::views::transform([](const auto& s) {
         return s.type();
       }) | ranges::views::filter([](const auto& t) { return is_base(t); }) |
-                   ranges::views::unique | ranges::to_vector;
+                   ranges::to_vector;
+      // N.B. spaces with same type are not necessarily adjacent
       ranges::sort(types, [](auto t1, auto t2) { return t1 < t2; });
+      types.erase(std::unique(types.begin(), types.end()), types.end());
       std::scoped_lock guard{mtx_memoized_};
       if (!base_space_types_) {
         base_space_types_ =
-- 
2.43.0


From 602369db8d4b4866891c8d117531cfd32958d619 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:42 +0000
Subject: [PATCH 21/75] fix: mbpt::add_fermi_spin preserves the field of the
 spaces

---
 SeQuant/domain/mbpt/convention.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/SeQuant/domain/mbpt/convention.cpp b/SeQuant/domain/mbpt/convention.cpp
index fef76a3..1a20406 100644
--- a/SeQuant/domain/mbpt/convention.cpp
+++ b/SeQuant/domain/mbpt/convention.cpp
@@ -54,9 +54,11 @@ void add_fermi_spin(IndexSpaceRegistry& isr) {
   for (auto&& space : isr) {
     if (space.base_key() != L"") {
       IndexSpace spin_up(spinannotation_add(space.base_key(), Spin::alpha),
-                         space.type(), Spin::alpha, space.approximate_size());
+                         space.type(), Spin::alpha, space.approximate_size(),
+                         space.field());
       IndexSpace spin_down(spinannotation_add(space.base_key(), Spin::beta),
-                           space.type(), Spin::beta, space.approximate_size());
+                           space.type(), Spin::beta, space.approximate_size(),
+                           space.field());
       result.add(spin_up);
       result.add(spin_down);
     }
-- 
2.43.0


From c89e60a314a62690787f71a7b7ea755ade63e901 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:42 +0000
Subject: [PATCH 22/75] fix: IndexSpaceRegistry::add_intersection determines
 the field of the result

---
 SeQuant/core/index_space_registry.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/SeQuant/core/index_space_registry.hpp b/SeQuant/core/index_space_registry.hpp
index 78329da..5b78e68 100644
--- a/SeQuant/core/index_space_registry.hpp
+++ b/SeQuant/core/index_space_registry.hpp
@@ -508,9 +508,10 @@ class IndexSpaceRegistry {
       ++count;
     }
     const auto approximate_size = compute_approximate_size(space_attr);
+    const Field field = compute_field(space_attr);
 
     IndexSpace space(std::forward<S>(type_label), space_attr.type(),
-                     space_attr.qns(), approximate_size);
+                     space_attr.qns(), approximate_size, field);
     this->add(space);
     auto type = space.type();
 
-- 
2.43.0


From 2211c74ee11600edb932d91580950aa0512a1dd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:43 +0000
Subject: [PATCH 23/75] fix: inverted assertion made QN-specific
 IndexSpaceRegistry defaults unusable

---
 SeQuant/core/index_space_registry.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/SeQuant/core/index_space_registry.hpp b/SeQuant/core/index_space_registry.hpp
index 5b78e68..bc3b34c 100644
--- a/SeQuant/core/index_space_registry.hpp
+++ b/SeQuant/core/index_space_registry.hpp
@@ -1429,8 +1429,9 @@ class IndexSpaceRegistry {
     for (auto&& space : *spaces_) {
       for (auto&& [qn, t] : qn2type) {
         if (space.type() == t && space.qns() == qn) {
-          [[maybe_unused]] auto [it, found] = qn2type_found.try_emplace(qn, t);
-          SEQUANT_ASSERT(!found);
+          [[maybe_unused]] auto [it, inserted] =
+              qn2type_found.try_emplace(qn, t);
+          SEQUANT_ASSERT(inserted);
           // found all? return
           if (qn2type_found.size() == qn2type.size()) {
             return;
-- 
2.43.0


From 59f9fccd0fae5e9cb9f9a42c3670f2bb5032dac0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:41 +0000
Subject: [PATCH 24/75] fix: do not memoize user-provided spelling of the label
 in Index

---
 SeQuant/core/index.hpp | 13 ++-----------
 1 file changed, 2 insertions(+), 11 deletions(-)

diff --git a/SeQuant/core/index.hpp b/SeQuant/core/index.hpp
index 7b88856..e4f49d2 100644
--- a/SeQuant/core/index.hpp
+++ b/SeQuant/core/index.hpp
@@ -340,9 +340,6 @@ class Index : public Taggable {
                                IndexSpace::QuantumNumbers::reserved},
               to_ordinal(label), {}) {
     check_nonreserved();
-    if constexpr (std::is_same_v<String, std::wstring>) {
-      label_ = std::move(label);
-    }
   }
 
   /// @brief constructs an Index using an existing Index's label and space and a
@@ -365,12 +362,9 @@ class Index : public Taggable {
         bool symmetric_proto_indices = true)
       : symmetric_proto_indices_(symmetric_proto_indices) {
     if constexpr (!std::is_same_v<std::decay_t<IndexOrIndexLabel>, Index>) {
-      auto index = Index(index_or_index_label);  // give index_or_index_label by
-                                                 // ref to avoid scavenging it
+      auto index = Index(index_or_index_label);
       space_ = index.space();
       ordinal_ = index.ordinal_;
-      if constexpr (!std::is_reference_v<IndexOrIndexLabel>)
-        label_ = std::move(index_or_index_label);
     } else {
       space_ = index_or_index_label.space();
       ordinal_ = index_or_index_label.ordinal_;
@@ -408,12 +402,9 @@ class Index : public Taggable {
       : proto_indices_(std::forward<IndexContainer>(proto_indices)),
         symmetric_proto_indices_(symmetric_proto_indices) {
     if constexpr (!std::is_same_v<std::decay_t<IndexOrIndexLabel>, Index>) {
-      auto index = Index(index_or_index_label);  // give index_or_index_label by
-                                                 // ref to avoid scavenging it
+      auto index = Index(index_or_index_label);
       space_ = index.space();
       ordinal_ = index.ordinal_;
-      if constexpr (!std::is_reference_v<IndexOrIndexLabel>)
-        label_ = std::move(index_or_index_label);
     } else {
       space_ = index_or_index_label.space();
       ordinal_ = index_or_index_label.ordinal_;
-- 
2.43.0


From d4d25a1d892859452bfafdf693b1de280f53e96e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:41 +0000
Subject: [PATCH 25/75] fix: reset memoized labels in Index(Index&&,
 IndexSpace)

---
 SeQuant/core/index.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/SeQuant/core/index.hpp b/SeQuant/core/index.hpp
index e4f49d2..a09058f 100644
--- a/SeQuant/core/index.hpp
+++ b/SeQuant/core/index.hpp
@@ -427,6 +427,9 @@ class Index : public Taggable {
     if constexpr (std::is_same_v<std::decay_t<IndexOrIndexLabel>, Index>) {
       *this = std::forward<IndexOrIndexLabel>(index_or_index_label);
       space_ = std::move(space);
+      // the memoized labels (if any were moved) refer to the original space
+      label_.reset();
+      full_label_.reset();
     } else {
       space_ = std::move(space);
       ordinal_ = to_ordinal(index_or_index_label);
-- 
2.43.0


From 1232f4bed324f183e481bb1e407b5b1f7ebc918d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:42 +0000
Subject: [PATCH 26/75] fix: Index::drop_proto_indices handles generated
 indices

---
 SeQuant/core/index.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/SeQuant/core/index.hpp b/SeQuant/core/index.hpp
index a09058f..6df0653 100644
--- a/SeQuant/core/index.hpp
+++ b/SeQuant/core/index.hpp
@@ -742,7 +742,11 @@ class Index : public Taggable {
   /// drops the proto indices from this Index
   /// @return a copy of this Index without proto indices
   Index drop_proto_indices() const noexcept {
-    return Index(this->label(), this->space());
+    // N.B. this may be a generated index, bypass check for reserved ordinals
+    Index result(*this);
+    result.proto_indices_.clear();
+    result.symmetric_proto_indices_ = true;
+    return result;
   }
 
   std::wstring to_latex() const noexcept;
-- 
2.43.0


From 393a5cf1331e37e4ab1e75820924e464296f5b69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:42 +0000
Subject: [PATCH 27/75] fix: IndexFactory::make(Index) preserves order of
 nonsymmetric proto indices

---
 SeQuant/core/index.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/SeQuant/core/index.hpp b/SeQuant/core/index.hpp
index 6df0653..c1383b8 100644
--- a/SeQuant/core/index.hpp
+++ b/SeQuant/core/index.hpp
@@ -1168,7 +1168,7 @@ class IndexFactory {
       }
       result =
           Index(Index(space, ++(counter_it->second), Index::IndexFactoryTag{}),
-                idx.proto_indices());
+                idx.proto_indices(), idx.symmetric_proto_indices());
       valid = validator_ ? validator_(result) : true;
     } while (!valid);
     return result;
-- 
2.43.0


From 995a3a3822b0f51e0f6359e9aee85093886ab968 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:42 +0000
Subject: [PATCH 28/75] fix: malformed index labels and ordinals throw rather
 than terminate

---
 SeQuant/core/index.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/SeQuant/core/index.hpp b/SeQuant/core/index.hpp
index c1383b8..aad32e9 100644
--- a/SeQuant/core/index.hpp
+++ b/SeQuant/core/index.hpp
@@ -104,7 +104,7 @@ class Index : public Taggable {
     return index;
   }
 
-  std::optional<ordinal_type> to_ordinal(meta::integral auto i) noexcept {
+  std::optional<ordinal_type> to_ordinal(meta::integral auto i) {
     if constexpr (std::is_signed_v<decltype(i)>) {
       SEQUANT_ASSERT(i >= 0);
     }
@@ -965,7 +965,7 @@ class Index : public Taggable {
            std::same_as<std::remove_cvref_t<std::ranges::range_value_t<View>>,
                         wchar_t>)
   static std::optional<ordinal_type> to_ordinal(
-      View && label) noexcept {
+      View && label) {
 	  auto end = base_label_end(label);
 
 	  if (end == std::ranges::end(label)) {
@@ -984,7 +984,7 @@ class Index : public Taggable {
   }
 
   template<typename CharT>
-  static std::optional<ordinal_type> to_ordinal(const CharT *label) noexcept {
+  static std::optional<ordinal_type> to_ordinal(const CharT *label) {
 	  return to_ordinal(std::basic_string_view<CharT>{label});
   }
 
-- 
2.43.0


From 58a253f91d82c326dd700cdcf32c1cd4f70e9f16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:42 +0000
Subject: [PATCH 29/75] fix: Index::get_ordinal does not read past the end of
 the label

---
 SeQuant/core/index.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/SeQuant/core/index.hpp b/SeQuant/core/index.hpp
index aad32e9..e476394 100644
--- a/SeQuant/core/index.hpp
+++ b/SeQuant/core/index.hpp
@@ -131,9 +131,10 @@ class Index : public Taggable {
       SEQUANT_ASSERT(underscore_position + 1 <
                      label.size());  // check that there is at least one char
                                      // past the underscore
+      // N.B. label does not need to be null-terminated
       return std::wcstol(
-          label.substr(underscore_position + 1, std::wstring::npos).data(),
-          NULL, 10);
+          std::wstring(label.substr(underscore_position + 1)).c_str(), NULL,
+          10);
     } else
       return {};
   }
-- 
2.43.0


From 8a55f2f6de29e8bb0a8aac2f2ab628ebc1dae1e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:42 +0000
Subject: [PATCH 30/75] fix: Index::next_tmp_index respects the minimum ordinal
 of the current context

---
 SeQuant/core/index.hpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/SeQuant/core/index.hpp b/SeQuant/core/index.hpp
index e476394..5d078d1 100644
--- a/SeQuant/core/index.hpp
+++ b/SeQuant/core/index.hpp
@@ -791,7 +791,14 @@ class Index : public Taggable {
   /// @return a unique temporary index, its value is equal to or greater than
   /// that returned by min_tmp_index()
   static std::size_t next_tmp_index() noexcept {
-    return ++tmp_index_accessor();
+    auto &counter = tmp_index_accessor();
+    const auto min_index = min_tmp_index();  // depends on the current context
+    auto current = counter.load();
+    std::size_t next;
+    do {
+      next = current < min_index ? min_index : current + 1;
+    } while (!counter.compare_exchange_weak(current, next));
+    return next;
   }
 
   /// resets the temporary index counter so that the next call to
-- 
2.43.0


From 94d29c1bf15132308c6e67c5a35537b50648e42e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:42 +0000
Subject: [PATCH 31/75] fix: scoped contexts are always restored

---
 SeQuant/core/utility/context.hpp | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/SeQuant/core/utility/context.hpp b/SeQuant/core/utility/context.hpp
index 23f2ea4..93010b9 100644
--- a/SeQuant/core/utility/context.hpp
+++ b/SeQuant/core/utility/context.hpp
@@ -50,12 +50,11 @@ struct ImplicitContextResetter {
 
 template <typename Ctx>
 ImplicitContextResetter<Ctx> set_scoped_implicit_context(const Ctx& ctx) {
-  if (get_implicit_context<Ctx>() != ctx) {
-    auto previous_ctx = get_implicit_context<Ctx>();
-    set_implicit_context(ctx);
-    return previous_ctx;
-  } else
-    return {};
+  // N.B. even if ctx equals the current context the latter can change before the
+  // end of the scope
+  auto previous_ctx = get_implicit_context<Ctx>();
+  set_implicit_context(ctx);
+  return previous_ctx;
 }
 
 }  // namespace sequant::detail
-- 
2.43.0


From d777888972033580dbd83fae0d1bad5fa6eeb932 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:42 +0000
Subject: [PATCH 32/75] fix: comparison of Context objects without
 IndexSpaceRegistry

---
 SeQuant/core/context.cpp | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/SeQuant/core/context.cpp b/SeQuant/core/context.cpp
index c7f63c6..832e3a3 100644
--- a/SeQuant/core/context.cpp
+++ b/SeQuant/core/context.cpp
@@ -17,8 +17,13 @@ bool default_context_manipulation_threadsafe() {
 }
 
 bool operator==(const Context& ctx1, const Context& ctx2) {
-  if (&ctx1 == &ctx2)
-    return true;
+  if (&ctx1 == &ctx2) return true;
+
+  // registry is optional
+  const auto isr1 = ctx1.index_space_registry();
+  const auto isr2 = ctx2.index_space_registry();
+  if (static_cast<bool>(isr1) != static_cast<bool>(isr2))
+    return false;
   else
     return ctx1.vacuum() == ctx2.vacuum() && ctx1.metric() == ctx2.metric() &&
            ctx1.assert_strict_braket_symmetry() ==
@@ -26,12 +31,11 @@ bool operator==(const Context& ctx1, const Context& ctx2) {
            ctx1.spbasis() == ctx2.spbasis() &&
            ctx1.first_dummy_index_ordinal() ==
                ctx2.first_dummy_index_ordinal() &&
-           ctx1.index_space_registry()->spaces() ==
-               ctx2.index_space_registry()->spaces() &&
+           (!isr1 || isr1->spaces() == isr2->spaces()) &&
            ctx1.canonicalization_options() == ctx2.canonicalization_options() &&
            ctx1.braket_typesetting() == ctx2.braket_typesetting() &&
            ctx1.braket_slot_typesetting() == ctx2.braket_slot_typesetting() &&
-           *ctx1.index_space_registry() == *ctx2.index_space_registry();
+           (!isr1 || *isr1 == *isr2);
 }
 
 bool operator!=(const Context& ctx1, const Context& ctx2) {
-- 
2.43.0


From 1025783249f300b73c4a1935efe9699f40a897bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:42 +0000
Subject: [PATCH 33/75] fix: comparison of IndexSpaceRegistry objects accounts
 for their defaults

---
 SeQuant/core/index_space_registry.hpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/SeQuant/core/index_space_registry.hpp b/SeQuant/core/index_space_registry.hpp
index bc3b34c..6f2af21 100644
--- a/SeQuant/core/index_space_registry.hpp
+++ b/SeQuant/core/index_space_registry.hpp
@@ -1556,7 +1556,13 @@ class IndexSpaceRegistry {
 
   friend bool operator==(const IndexSpaceRegistry& isr1,
                          const IndexSpaceRegistry& isr2) {
-    return *isr1.spaces_ == *isr2.spaces_;
+    return *isr1.spaces_ == *isr2.spaces_ &&
+           isr1.physical_particle_attribute_mask_ ==
+               isr2.physical_particle_attribute_mask_ &&
+           isr1.vacocc_ == isr2.vacocc_ && isr1.refocc_ == isr2.refocc_ &&
+           isr1.complete_ == isr2.complete_ &&
+           isr1.hole_space_ == isr2.hole_space_ &&
+           isr1.particle_space_ == isr2.particle_space_;
   }
 };  // class IndexSpaceRegistry
 
-- 
2.43.0


From b4a88b40b610c03e60baa5921fb6f7ec1b53f2ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:50 +0000
Subject: [PATCH 34/75] fix: optimize() of products with several factors but
 fewer than two tensors

---
 SeQuant/core/optimize/single_term.hpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/SeQuant/core/optimize/single_term.hpp b/SeQuant/core/optimize/single_term.hpp
index a793f41..4275c0b 100644
--- a/SeQuant/core/optimize/single_term.hpp
+++ b/SeQuant/core/optimize/single_term.hpp
@@ -198,11 +198,12 @@ ExprPtr single_term_opt(
   using ranges::views::filter;
   using ranges::views::reverse;
 
-  if (prod.factors().size() < 3)
-    return ex<Product>(Product{prod.scalar(), prod.factors().begin(),
-                               prod.factors().end(), Product::Flatten::No});
   auto const tensors =
       prod | filter(&ExprPtr::template is<Tensor>) | ranges::to_vector;
+  // nothing to optimize unless there are at least 2 tensors
+  if (prod.factors().size() < 3 || tensors.size() < 2)
+    return ex<Product>(Product{prod.scalar(), prod.factors().begin(),
+                               prod.factors().end(), Product::Flatten::No});
   auto seq = detail::single_term_opt<Metric>(
       TensorNetwork{tensors}, std::forward<IdxToSz>(idxsz), subnet_cse, cost,
       is_batchable_index, batch_target_size, inner_pow, batch_persistent_only);
-- 
2.43.0


From eaac49c4c3c723e7d4df16ebb3fa3185cbbec8cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:21 +0000
Subject: [PATCH 35/75] fix: keep the sign of an antisymmetric leaf of an
 evaluation tree

---
 SeQuant/core/eval/eval_expr.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/SeQuant/core/eval/eval_expr.cpp b/SeQuant/core/eval/eval_expr.cpp
index bf77ec1..3672bdd 100644
--- a/SeQuant/core/eval/eval_expr.cpp
+++ b/SeQuant/core/eval/eval_expr.cpp
@@ -153,9 +153,13 @@ EvalExpr::EvalExpr(Tensor const& tnsr)
     // canonicalization is needed for a tensor that is not itself a network),
     // and it normalizes bra<->ket orientation for braket-symmetric tensors so
     // that equivalent half-tensor forms (e.g. X{a;;x} and X{;a;x}) fold.
-    auto& t = expr_->as<Tensor>();
-    auto phase = TensorBlockCanonicalizer{}.apply(t);
-    canon_phase_ = phase ? -1 : 1;
+    // If the canonical form of an antisymmetric tensor differs from the given one
+    // by a sign, keep the given form: a leaf stands for its expression itself, so
+    // there is no place for that sign in the value of the tree.
+    auto canonical = expr_->clone();
+    if (!TensorBlockCanonicalizer{}.apply(canonical->as<Tensor>()))
+      expr_ = std::move(canonical);
+    auto const& t = expr_->as<Tensor>();
     hash_value_ = hash_terminal_tensor(t);
     canon_indices_ = t.const_indices() | ranges::to<index_vector>;
   }
-- 
2.43.0


From 6c3e7e037fda3df584247b068cda00f580ff9763 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:21 +0000
Subject: [PATCH 36/75] fix: do not accumulate a sum of terms into a cached or
 leaf-owned result

---
 SeQuant/core/eval/eval.hpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/SeQuant/core/eval/eval.hpp b/SeQuant/core/eval/eval.hpp
index 96e3ffb..9cc2900 100644
--- a/SeQuant/core/eval/eval.hpp
+++ b/SeQuant/core/eval/eval.hpp
@@ -859,12 +859,22 @@ ResultPtr evaluate(Nodes const& nodes,  //
   // unchanged — i.e. node cached, phase == 1, AND no permute happened.
   bool const layout_is_default = (layout == decltype(layout){});
 
+  // whether the buffer of `result` is (or may be) also held by the cache or by
+  // the leaf evaluator; it must not be accumulated into then
+  bool shared = false;
+
   for (auto&& n : nodes) {
     if (!result) {
       result = evaluate<EvalTrace>(n, layout, le, cache);
+      shared = layout_is_default && (n.leaf() || cache.alive(n));
       continue;
     }
 
+    if (shared) {
+      result = result->mult_by_phase(1);
+      shared = false;
+    }
+
     ResultPtr pre = evaluate<EvalTrace>(n, layout, le, cache);
     auto time =
         detail::timed_eval_inplace([&]() { result->add_inplace(*pre); });
-- 
2.43.0


From cc1345417e294e31bb1e2fd70b3fb9c9961fbe48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:21 +0000
Subject: [PATCH 37/75] fix: to_expr of a scalar times a lone variable, power,
 sum or constant

---
 SeQuant/core/eval/eval_expr.hpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/SeQuant/core/eval/eval_expr.hpp b/SeQuant/core/eval/eval_expr.hpp
index 779bb0b..0e4ead6 100644
--- a/SeQuant/core/eval/eval_expr.hpp
+++ b/SeQuant/core/eval/eval_expr.hpp
@@ -513,11 +513,12 @@ ExprPtr to_expr(meta::eval_node auto const& node) {
     prod.append(1, lexpr, Product::Flatten::No);
     prod.append(1, rexpr, Product::Flatten::No);
 
-    SEQUANT_ASSERT(!prod.empty());
+    if (prod.empty()) return ex<Constant>(prod.scalar());
 
-    if (prod.size() == 1 && !prod.factor(0)->is<Tensor>()) {
-      return ex<Product>(Product{prod.scalar(), prod.factor(0)->begin(),
-                                 prod.factor(0)->end(), Product::Flatten::No});
+    if (prod.size() == 1 && prod.factor(0)->is<Product>()) {
+      auto const& inner = prod.factor(0)->as<Product>();
+      return ex<Product>(Product{prod.scalar() * inner.scalar(), inner.begin(),
+                                 inner.end(), Product::Flatten::No});
     } else {
       return ex<Product>(std::move(prod));
     }
-- 
2.43.0


From 7232ad18243ef3ce38c7d47f6cd2a80ce5b4cedc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:22 +0000
Subject: [PATCH 38/75] fix: identify sums in evaluation trees by how their
 summands line up

Sums of the same summands were told apart neither on their own nor as factors
of a product, and bra and ket of a sum could contradict the rest of a network.
---
 SeQuant/core/eval/eval_expr.cpp         | 62 ++++++++++++++++++++++---
 SeQuant/core/eval/eval_node_compare.hpp | 36 ++++++++++++++
 2 files changed, 91 insertions(+), 7 deletions(-)

diff --git a/SeQuant/core/eval/eval_expr.cpp b/SeQuant/core/eval/eval_expr.cpp
index 3672bdd..3167c3d 100644
--- a/SeQuant/core/eval/eval_expr.cpp
+++ b/SeQuant/core/eval/eval_expr.cpp
@@ -342,6 +342,8 @@ auto imed_hashes(Rng const& rng) {
 struct ExprWithHash {
   ExprPtr expr;
   size_t hash;
+  /// represents the factor in a tensor network
+  ExprPtr network_expr;
 };
 
 void all_indices(IndexSet& result, ExprPtr const& expr) {
@@ -360,6 +362,26 @@ IndexSet all_indices(ExprPtr const& expr) {
   return result;
 }
 
+///
+/// \brief The tensor that represents the value of a sum in a network.
+///
+/// What the network is compared by must identify the sum and the modes of its
+/// value: the tensor is labeled by the hash of the sum and its slots are the
+/// modes in their order. All slots are auxiliary since bra and ket do not mean
+/// anything for the value of a sum whose leaves are canonicalized one by one.
+///
+ExprPtr sum_factor(EvalExpr const& sum) {
+  auto const& t = sum.as_tensor();
+  auto const& modes = sum.canon_indices();
+  EvalExpr::index_vector slots;
+  for (auto&& ix : modes)  // skip what is traced within the summands
+    if (std::ranges::count(modes, ix) == 1) slots.emplace_back(ix);
+  return ex<Tensor>(
+      std::wstring(t.label()) + L"_" + std::to_wstring(sum.hash_value()), bra(),
+      ket(), aux(std::move(slots)), t.symmetry(), t.braket_symmetry(),
+      t.column_symmetry());
+}
+
 ///
 /// \brief Collect tensors appearing as a factor at the leaf node of a product
 ///        sub-tree, or, at the root node of a sum sub-tree.
@@ -369,15 +391,20 @@ void collect_tensor_factors(EvalExprNode const& node,  //
                             Rng& collect) {
   static_assert(std::is_same_v<ranges::range_value_t<Rng>, ExprWithHash>);
 
-  if (auto op = node->op_type();
-      node->is_tensor() &&
-      (!op || *op == EvalOp::Sum || *op == EvalOp::Adjoint))
+  if (auto op = node->op_type(); node->is_tensor() && op == EvalOp::Sum)
+    collect.emplace_back(
+        ExprWithHash{.expr = node->expr(),
+                     .hash = node->hash_value(),
+                     .network_expr = sum_factor(*node)});
+  else if (node->is_tensor() && (!op || *op == EvalOp::Adjoint))
     // Treat Adjoint the same as Sum here: it produces a tensor result that
     // enters a parent Product as a single factor — the parent shouldn't
     // try to recurse past the Adjoint boundary, just collect the adjointed
     // tensor (held in node->expr()) and move on.
     collect.emplace_back(
-        ExprWithHash{.expr = node->expr(), .hash = node->hash_value()});
+        ExprWithHash{.expr = node->expr(),
+                     .hash = node->hash_value(),
+                     .network_expr = node->expr()});
   else if (node->op_type() == EvalOp::Product && !node.leaf()) {
     collect_tensor_factors(node.left(), collect);
     collect_tensor_factors(node.right(), collect);
@@ -433,6 +460,19 @@ EvalExprNode binarize(Tensor const& t) {
   return EvalExprNode{EvalExpr{t}};
 }
 
+///
+/// \return For every mode of \p right its position among the modes of \p left .
+///
+container::svector<size_t> relative_positions(EvalExpr const& left,
+                                              EvalExpr const& right) {
+  auto const& l = left.canon_indices();
+  return right.canon_indices() | ranges::views::transform([&l](auto&& ix) {
+           return static_cast<size_t>(
+               ranges::distance(l.begin(), ranges::find(l, ix)));
+         }) |
+         ranges::to<container::svector<size_t>>;
+}
+
 EvalExprNode binarize(Sum const& sum, IndexSet const& uncontract,
                       const BinarizationOptions& opts) {
   using ranges::views::move;
@@ -455,9 +495,16 @@ EvalExprNode binarize(Sum const& sum, IndexSet const& uncontract,
 
   auto make_sum = [i = 0,                    //
                    hs = imed_hashes(hvals),  //
-                   all_tensors, &opts](EvalExpr const& left,
-                                       EvalExpr const&) mutable -> EvalExpr {
+                   all_tensors, rel = size_t{0},
+                   &opts](EvalExpr const& left,
+                          EvalExpr const& right) mutable -> EvalExpr {
     auto h = ranges::at(hs, ++i);
+    // sums of the same summands still differ if the modes or the signs of the
+    // summands do not line up the same way
+    hash::combine(rel, left.canon_phase());
+    hash::combine(rel, right.canon_phase());
+    for (auto&& pos : relative_positions(left, right)) hash::combine(rel, pos);
+    hash::combine(h, rel);
     if (all_tensors) {
       auto const& t = left.as_tensor();
       return {
@@ -563,7 +610,8 @@ EvalExprNode binarize(Product const& prod, IndexSet const& uncontract,
         return result;
       }();
 
-      auto tn = TensorNetwork(ts);
+      auto tn = TensorNetwork(
+          subfacs | transform([](auto&& t) { return t.network_expr; }));
       auto named_indices = tn.ext_indices();
       for (auto&& ix : uncontracted_idxs) named_indices.emplace(ix);
 
diff --git a/SeQuant/core/eval/eval_node_compare.hpp b/SeQuant/core/eval/eval_node_compare.hpp
index 5ac2ae8..b26d6a6 100644
--- a/SeQuant/core/eval/eval_node_compare.hpp
+++ b/SeQuant/core/eval/eval_node_compare.hpp
@@ -6,6 +6,7 @@
 #include <SeQuant/core/utility/tensor.hpp>
 #include <SeQuant/external/bliss/graph.hh>
 
+#include <algorithm>
 #include <cstddef>
 #include <unordered_map>
 
@@ -119,12 +120,47 @@ struct TreeNodeEqualityComparator {
       if (!(*this)(lhs.right(), rhs.right())) {
         return false;
       }
+      // A connectivity graph describes the modes and the sign of the value
+      // completely. Without it, how the values of the children enter that of
+      // the node has to agree, too.
+      if (!lhs->has_connectivity_graph() &&
+          !(same_relation(lhs, lhs.left(), rhs, rhs.left()) &&
+            same_relation(lhs, lhs.right(), rhs, rhs.right()))) {
+        return false;
+      }
     }
 
     return true;
   }
 
  private:
+  /// @return whether the modes and the sign of the (canonical) value of a child
+  /// relate to those of its parent in the same way on both sides
+  static bool same_relation(const TreeNode &lhs, const TreeNode &lhs_child,
+                            const TreeNode &rhs, const TreeNode &rhs_child) {
+    if (lhs->canon_phase() * lhs_child->canon_phase() !=
+        rhs->canon_phase() * rhs_child->canon_phase()) {
+      return false;
+    }
+    const auto &lhs_modes = lhs->canon_indices();
+    const auto &rhs_modes = rhs->canon_indices();
+    const auto &lhs_child_modes = lhs_child->canon_indices();
+    const auto &rhs_child_modes = rhs_child->canon_indices();
+    if (lhs_child_modes.size() != rhs_child_modes.size()) {
+      return false;
+    }
+    for (std::size_t i = 0; i != lhs_child_modes.size(); ++i) {
+      const auto l =
+          std::find(lhs_modes.begin(), lhs_modes.end(), lhs_child_modes[i]);
+      const auto r =
+          std::find(rhs_modes.begin(), rhs_modes.end(), rhs_child_modes[i]);
+      if (l - lhs_modes.begin() != r - rhs_modes.begin()) {
+        return false;
+      }
+    }
+    return true;
+  }
+
   IndexSpecificTensorBlockEqualComparator block_comparator_;
 };
 
-- 
2.43.0


From 761c6888d68989a28a11da9815f17e677f550139 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:22 +0000
Subject: [PATCH 39/75] fix: sign of eliminated common subexpressions relative
 to their definition

---
 .../optimize/common_subexpression_elimination.hpp     | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/SeQuant/core/optimize/common_subexpression_elimination.hpp b/SeQuant/core/optimize/common_subexpression_elimination.hpp
index ef009a2..61f0bb3 100644
--- a/SeQuant/core/optimize/common_subexpression_elimination.hpp
+++ b/SeQuant/core/optimize/common_subexpression_elimination.hpp
@@ -154,6 +154,13 @@ class SubexpressionReplacer {
 
     ExprPtr original = tree->expr();
 
+    // The intermediate has the value of the tree it is defined by. The trees
+    // it stands for agree up to the phase.
+    const auto phase =
+        label_it == end(cse_names)
+            ? 1
+            : tree->canon_phase() * label_it->first->canon_phase();
+
     std::optional<TreeNode> intermediate_definition;
     if (label_it == end(cse_names)) {
       cse_names.emplace(tree, label);
@@ -173,8 +180,8 @@ class SubexpressionReplacer {
       intermediate_definition = expr_to_tree(intermediate);
     }
 
-    if (tree->canon_phase() != 1) {
-      expr *= ex<Constant>(tree->canon_phase());
+    if (phase != 1) {
+      expr *= ex<Constant>(phase);
     }
 
     if (tree.root()) {
-- 
2.43.0


From bb9df157dc4129605c3a0142edfca23321730283 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:13 +0000
Subject: [PATCH 40/75] fix: export: release the result of a sum after
 accumulating its summands

---
 SeQuant/core/export/export.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/SeQuant/core/export/export.hpp b/SeQuant/core/export/export.hpp
index 4b36272..3c68f51 100644
--- a/SeQuant/core/export/export.hpp
+++ b/SeQuant/core/export/export.hpp
@@ -244,7 +244,11 @@ class GenerationVisitor {
         switch (node->compute_selection()) {
           case ComputeSelection::None:
             // This node only exists for tree connectivity purposes. No explicit
-            // computation that should be exported.
+            // computation that should be exported. The summands have been
+            // accumulated into the result of this node but each of them still
+            // holds a use of that result.
+            drop(*node.right()->expr());
+            drop(*node.left()->expr());
             return;
           case ComputeSelection::Left:
             expressions.push_back(node.left()->expr());
-- 
2.43.0


From 597ae06149f96e8fdd00c5b7f1eb7c08c02d6d02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:13 +0000
Subject: [PATCH 41/75] fix: export: do not zero a result its sibling summand
 has been accumulated into

---
 SeQuant/core/export/export.hpp | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/SeQuant/core/export/export.hpp b/SeQuant/core/export/export.hpp
index 3c68f51..ad50f5c 100644
--- a/SeQuant/core/export/export.hpp
+++ b/SeQuant/core/export/export.hpp
@@ -105,8 +105,13 @@ class GenerationVisitor {
     }
   }
 
+  /// @param expr The object to make available
+  /// @param isLeaf Whether expr is represented by a leaf node
+  /// @param accumulates Whether the node representing expr adds to the (partial)
+  /// result its parent node already holds in expr
   template <typename ExprType>
-  void load_or_create(const ExprType &expr, const bool isLeaf) {
+  void load_or_create(const ExprType &expr, const bool isLeaf,
+                      const bool accumulates = false) {
     static_assert(
         std::is_same_v<ExprType, Tensor> || std::is_same_v<ExprType, Variable>,
         "This function currently only works for tensors and variables");
@@ -149,7 +154,7 @@ class GenerationVisitor {
       m_generator.create(expr, zeroCreate, m_ctx);
     } else if (load) {
       m_generator.load(expr, zeroLoad, m_ctx);
-    } else if (zeroReuse) {
+    } else if (zeroReuse && !accumulates) {
       SEQUANT_ASSERT(alreadyLoaded);
       m_generator.set_to_zero(expr, m_ctx);
     }
@@ -174,10 +179,14 @@ class GenerationVisitor {
           "GenerationVisitor::load_or_create");
     }
 
+    // Non-leaf summands are accumulated directly into the result of the sum
+    const bool accumulates = !node.leaf() && !node.root() &&
+                             node.parent()->op_type() == EvalOp::Sum;
+
     if (node->is_tensor()) {
-      load_or_create<Tensor>(node->as_tensor(), node.leaf());
+      load_or_create<Tensor>(node->as_tensor(), node.leaf(), accumulates);
     } else {
-      load_or_create<Variable>(node->as_variable(), node.leaf());
+      load_or_create<Variable>(node->as_variable(), node.leaf(), accumulates);
     }
   }
 
-- 
2.43.0


From f8b8674e1196709620e1bceaa4da3d09251850cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:14 +0000
Subject: [PATCH 42/75] fix: export: keep scalar factors of sums whose summands
 are not leaves

---
 SeQuant/core/export/export.hpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/SeQuant/core/export/export.hpp b/SeQuant/core/export/export.hpp
index ad50f5c..2d21425 100644
--- a/SeQuant/core/export/export.hpp
+++ b/SeQuant/core/export/export.hpp
@@ -362,6 +362,17 @@ bool prune_scalar_factor(ExportNode<T> &node, PreprocessResult &result,
   SEQUANT_ASSERT(!node.root());
   SEQUANT_ASSERT(node.parent()->op_type() == EvalOp::Product);
 
+  // Non-leaf summands are computed as part of their own subtree rather than by
+  // the sum they belong to. Hence, a factor stored on the sum would not be
+  // applied to them.
+  const ExportNode<T> &sibling = node->id() == node.parent().left()->id()
+                                     ? node.parent().right()
+                                     : node.parent().left();
+  if (!sibling.leaf() && sibling->op_type() == EvalOp::Sum &&
+      !(sibling.left().leaf() && sibling.right().leaf())) {
+    return false;
+  }
+
   const auto iter = result.scalarFactors.find(node.parent()->id());
   ExprPtr parentFactor =
       iter == result.scalarFactors.end() ? nullptr : iter->second;
-- 
2.43.0


From 1788b1d76c8f306611e6c3d192e2b495defc7d77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:14 +0000
Subject: [PATCH 43/75] fix: GenerationOptimizer: keep unload + load-and-zero
 pairs

---
 SeQuant/core/export/generation_optimizer.hpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/SeQuant/core/export/generation_optimizer.hpp b/SeQuant/core/export/generation_optimizer.hpp
index d92764a..0930869 100644
--- a/SeQuant/core/export/generation_optimizer.hpp
+++ b/SeQuant/core/export/generation_optimizer.hpp
@@ -615,9 +615,15 @@ class GenerationOptimizer final : public Generator<MainContext> {
       SEQUANT_ASSERT(first_idx < second_idx);
 
       [[maybe_unused]] const Operation &first = m_cache.at(first_idx);
-      [[maybe_unused]] const Operation &second = m_cache.at(second_idx);
+      const Operation &second = m_cache.at(second_idx);
       SEQUANT_ASSERT(first->pairs_with(second, m_cmp));
 
+      if (second->type() == OperationType::LoadAndZero) {
+        // Erasing the pair would keep the object's previous content around
+        // instead of resetting it to zero
+        continue;
+      }
+
       if (second_idx - first_idx > 2) {
         // There is more than one intermittent operation between the pair. We
         // skip these cases for now as the required reordering seems too
-- 
2.43.0


From b9a51b124086c5e1dcda27eed229a4b31d7080cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:14 +0000
Subject: [PATCH 44/75] fix: GenerationOptimizer: account for the positions of
 erased operations

---
 SeQuant/core/export/generation_optimizer.hpp | 23 +++++++++++---------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/SeQuant/core/export/generation_optimizer.hpp b/SeQuant/core/export/generation_optimizer.hpp
index 0930869..3023e4f 100644
--- a/SeQuant/core/export/generation_optimizer.hpp
+++ b/SeQuant/core/export/generation_optimizer.hpp
@@ -591,7 +591,13 @@ class GenerationOptimizer final : public Generator<MainContext> {
   }
 
   void optimize_operation_cache(const MainContext &) {
-    std::size_t erased = 0;
+    // Original positions of the operations that have been erased so far
+    container::svector<std::size_t> erased;
+    const auto current_position = [&erased](std::size_t original) {
+      return original - std::ranges::count_if(erased, [&](std::size_t pos) {
+               return pos < original;
+             });
+    };
 
     // Process paired operations that **might** be removed, provided we can (and
     // want to) reorder other operations to retain a consistent stack.
@@ -601,14 +607,10 @@ class GenerationOptimizer final : public Generator<MainContext> {
     // DOI: 10.1016/j.entcs.2007.02.063
     // In particular, this would almost certainly require explicit tracking of
     // the memory stack during the individual operations.
-    for (auto [first_idx, second_idx] : m_paired) {
-      // Account for previously erased pairs (this simple method only works in
-      // combination with the assumptions under which we are currently doing
-      // erasures - see below)
-      SEQUANT_ASSERT(first_idx >= erased);
-      SEQUANT_ASSERT(second_idx >= erased);
-      first_idx -= erased;
-      second_idx -= erased;
+    for (const auto &[first_orig, second_orig] : m_paired) {
+      // Account for previously erased pairs
+      const std::size_t first_idx = current_position(first_orig);
+      const std::size_t second_idx = current_position(second_orig);
 
       SEQUANT_ASSERT(first_idx < m_cache.size());
       SEQUANT_ASSERT(second_idx < m_cache.size());
@@ -670,7 +672,8 @@ class GenerationOptimizer final : public Generator<MainContext> {
                   m_cache.at(first_alloc_idx));
         m_cache.erase(m_cache.begin() + second_idx);
         m_cache.erase(m_cache.begin() + first_idx);
-        erased += 2;
+        erased.push_back(first_orig);
+        erased.push_back(second_orig);
         continue;
       }
 
-- 
2.43.0


From b99408d1b1cd8103935e2bf1512890b19918db52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:14 +0000
Subject: [PATCH 45/75] fix: export: imaginary parts that are fractions in
 Python and Julia

---
 SeQuant/core/export/julia_tensor_operations.hpp | 5 +++--
 SeQuant/core/export/python_einsum.hpp           | 9 ++++-----
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/SeQuant/core/export/julia_tensor_operations.hpp b/SeQuant/core/export/julia_tensor_operations.hpp
index 70342fa..f7ecb4d 100644
--- a/SeQuant/core/export/julia_tensor_operations.hpp
+++ b/SeQuant/core/export/julia_tensor_operations.hpp
@@ -117,10 +117,11 @@ class JuliaTensorOperationsGenerator : public Generator<Context> {
 
     if (constant.value().imag() != 0) {
       sstream << "(" << constant.value().real();
+      // N.B. the imaginary part may be a fraction and 1/3im == 1/(3im)
       if (constant.value().imag() < 0) {
-        sstream << "-" << (-1 * constant.value().imag()) << "im)";
+        sstream << "-" << (-1 * constant.value().imag()) << "*im)";
       } else {
-        sstream << "+" << constant.value().imag() << "im)";
+        sstream << "+" << constant.value().imag() << "*im)";
       }
     } else {
       sstream << constant.value().real();
diff --git a/SeQuant/core/export/python_einsum.hpp b/SeQuant/core/export/python_einsum.hpp
index ca1a6e8..9a71b67 100644
--- a/SeQuant/core/export/python_einsum.hpp
+++ b/SeQuant/core/export/python_einsum.hpp
@@ -184,11 +184,10 @@ class PythonEinsumGeneratorBase : public Generator<Context> {
     if (constant.value().imag() != 0) {
       sstream << "(";
       sstream << constant.value().real();
-      if (constant.value().imag() < 0) {
-        sstream << constant.value().imag() << "j";
-      } else {
-        sstream << "+" << constant.value().imag() << "j";
-      }
+      // N.B. the imaginary part may be a fraction, hence can't be turned into an
+      // imaginary literal by merely appending j: 3/4j == 3/(4j) != (3/4)*1j
+      if (constant.value().imag() > 0) sstream << "+";
+      sstream << constant.value().imag() << "*1j";
       sstream << ")";
     } else {
       sstream << constant.value().real();
-- 
2.43.0


From c588516803a753512e04aaf5af00544e230656b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:14 +0000
Subject: [PATCH 46/75] fix: export: Julia generator erased its output upon
 load-and-zero of a variable

---
 SeQuant/core/export/julia_tensor_operations.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/SeQuant/core/export/julia_tensor_operations.hpp b/SeQuant/core/export/julia_tensor_operations.hpp
index f7ecb4d..eda0f18 100644
--- a/SeQuant/core/export/julia_tensor_operations.hpp
+++ b/SeQuant/core/export/julia_tensor_operations.hpp
@@ -201,7 +201,7 @@ class JuliaTensorOperationsGenerator : public Generator<Context> {
     m_generated += represent(variable, ctx) + " = ";
 
     if (set_to_zero)
-      m_generated = "0";
+      m_generated += "0";
     else {
       m_generated += "deserialize(\"" + represent(variable, ctx) + ".jlbin\")";
     }
-- 
2.43.0


From e67713e48620da716df010f79601c81ab54b5c0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:14 +0000
Subject: [PATCH 47/75] fix: export: conjugated variables in Python and Julia

---
 SeQuant/core/export/julia_tensor_operations.hpp | 8 ++++----
 SeQuant/core/export/python_einsum.hpp           | 8 ++++----
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/SeQuant/core/export/julia_tensor_operations.hpp b/SeQuant/core/export/julia_tensor_operations.hpp
index eda0f18..247f9f1 100644
--- a/SeQuant/core/export/julia_tensor_operations.hpp
+++ b/SeQuant/core/export/julia_tensor_operations.hpp
@@ -133,9 +133,6 @@ class JuliaTensorOperationsGenerator : public Generator<Context> {
   std::string represent(const Power &power, const Context &ctx) const override {
     const ExprPtr &base = power.base();
     std::string base_str = to_julia_expr(*base, ctx);
-    if (base->is<Variable>() && base->as<Variable>().conjugated()) {
-      base_str = wrap_conj(std::move(base_str));
-    }
     auto s = detail::format_power_base(base, std::move(base_str)) + "^" +
              detail::format_power_exponent(power.exponent(),
                                            /*double_slash*/ true);
@@ -287,7 +284,10 @@ class JuliaTensorOperationsGenerator : public Generator<Context> {
     if (expr.is<Tensor>()) {
       return represent(expr.as<Tensor>(), ctx);
     } else if (expr.is<Variable>()) {
-      return represent(expr.as<Variable>(), ctx);
+      // the name of a variable does not depend on whether it is conjugated
+      const Variable &variable = expr.as<Variable>();
+      std::string repr = represent(variable, ctx);
+      return variable.conjugated() ? wrap_conj(std::move(repr)) : repr;
     } else if (expr.is<Constant>()) {
       return represent(expr.as<Constant>(), ctx);
     } else if (expr.is<Power>()) {
diff --git a/SeQuant/core/export/python_einsum.hpp b/SeQuant/core/export/python_einsum.hpp
index 9a71b67..d0fa728 100644
--- a/SeQuant/core/export/python_einsum.hpp
+++ b/SeQuant/core/export/python_einsum.hpp
@@ -199,9 +199,6 @@ class PythonEinsumGeneratorBase : public Generator<Context> {
   std::string represent(const Power &power, const Context &ctx) const override {
     const ExprPtr &base = power.base();
     std::string base_str = stringify_scalar(*base, ctx);
-    if (base->is<Variable>() && base->as<Variable>().conjugated()) {
-      base_str = wrap_conj(std::move(base_str));
-    }
     auto s = detail::format_power_base(base, std::move(base_str)) + "**" +
              detail::format_power_exponent(power.exponent(),
                                            /*double_slash*/ false);
@@ -500,7 +497,10 @@ class PythonEinsumGeneratorBase : public Generator<Context> {
   /// as its Python source representation.
   std::string stringify_scalar(const Expr &expr, const Context &ctx) const {
     if (expr.is<Variable>()) {
-      return represent(expr.as<Variable>(), ctx);
+      // the name of a variable does not depend on whether it is conjugated
+      const Variable &variable = expr.as<Variable>();
+      std::string repr = represent(variable, ctx);
+      return variable.conjugated() ? wrap_conj(std::move(repr)) : repr;
     } else if (expr.is<Constant>()) {
       return represent(expr.as<Constant>(), ctx);
     } else if (expr.is<Power>()) {
-- 
2.43.0


From b011a022988a6dbc53c63082976fe2c9df4eef38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:22 +0000
Subject: [PATCH 48/75] fix: permutation_parity: follow cycles and honor
 overwrite

---
 SeQuant/core/utility/permutation.hpp | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/SeQuant/core/utility/permutation.hpp b/SeQuant/core/utility/permutation.hpp
index 695a7c2..6293121 100644
--- a/SeQuant/core/utility/permutation.hpp
+++ b/SeQuant/core/utility/permutation.hpp
@@ -118,27 +118,28 @@ std::size_t count_cycles(Seq0&& v0, Seq1&& v1) {
 /// computes parity of a permutation of 0 ... N-1
 ///
 /// @param p permutation
-/// @param overwrite if true, will overwrite @p p
+/// @param overwrite if true, will overwrite @p p, else @p p is unchanged
 template <std::integral T>
 int permutation_parity(std::span<T> p, bool overwrite = false) {
   // https://stackoverflow.com/a/20703469
   // compute cycles, mutating elements of p to mark used elements
-  const std::size_t N = p.size();
+  const T N = static_cast<T>(p.size());
   int parity = 1;
   // search for next element to start cycle with
-  for (std::size_t k = 0; k != N; ++k) {
+  for (T k = 0; k != N; ++k) {
     if (p[k] >= N) continue;
-    std::size_t i = k;
-    std::size_t cycle_length = 1;
+    T i = k;
+    std::size_t cycle_length = 0;
     do {
-      i = p[i];
+      const T next = p[i];
       p[i] += N;
+      i = next;
       ++cycle_length;
     } while (p[i] < N);
     if (cycle_length % 2 == 0) parity *= -1;
   }
 
-  if (overwrite) {
+  if (!overwrite) {
     std::ranges::for_each(p, [N](auto& e) { e -= N; });
   }
 
-- 
2.43.0


From 49d21fb6a52df1ad463a7009d8def1997ab82f44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:23 +0000
Subject: [PATCH 49/75] fix: mbpt: keep column symmetry and aux indices in spin
 manipulations

---
 SeQuant/domain/mbpt/spin.cpp | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/SeQuant/domain/mbpt/spin.cpp b/SeQuant/domain/mbpt/spin.cpp
index a182e40..c220eb7 100644
--- a/SeQuant/domain/mbpt/spin.cpp
+++ b/SeQuant/domain/mbpt/spin.cpp
@@ -235,8 +235,9 @@ ExprPtr swap_bra_ket(const ExprPtr& expr) {
   // Lambda for tensor
   auto tensor_swap = [](const Tensor& tensor) {
     return ex<Tensor>(tensor.label(), bra(tensor.ket().value()),
-                      ket(tensor.bra().value()), tensor.symmetry(),
-                      tensor.braket_symmetry(), tensor.column_symmetry());
+                      ket(tensor.bra().value()), tensor.aux(),
+                      tensor.symmetry(), tensor.braket_symmetry(),
+                      tensor.column_symmetry());
   };
 
   // Lambda for product
@@ -324,8 +325,8 @@ ExprPtr remove_spin(const ExprPtr& expr) {
       }
     }
     return ex<Tensor>(tensor.label(), bra(std::move(b)), ket(std::move(k)),
-                      tensor.aux(), tensor.symmetry(),
-                      tensor.braket_symmetry());
+                      tensor.aux(), tensor.symmetry(), tensor.braket_symmetry(),
+                      tensor.column_symmetry());
   };
 
   auto remove_spin_from_product =
@@ -1231,7 +1232,8 @@ ExprPtr merge_tensors(const Tensor& O1, const Tensor& O2) {
   auto b = ranges::views::concat(O1.bra(), O2.bra());
   auto k = ranges::views::concat(O1.ket(), O2.ket());
   auto a = ranges::views::concat(O1.aux(), O2.aux());
-  return ex<Tensor>(Tensor(O1.label(), bra(b), ket(k), aux(a), O1.symmetry()));
+  return ex<Tensor>(Tensor(O1.label(), bra(b), ket(k), aux(a), O1.symmetry(),
+                           O1.braket_symmetry(), O1.column_symmetry()));
 }
 
 std::vector<ExprPtr> open_shell_A_op(const Tensor& A) {
-- 
2.43.0


From b3896daae9db1cd67fc658c35149caf8568d1b75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:23 +0000
Subject: [PATCH 50/75] fix: mbpt: spin trace of ResultExpr with more than 2
 external indices

---
 SeQuant/domain/mbpt/spin.cpp | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/SeQuant/domain/mbpt/spin.cpp b/SeQuant/domain/mbpt/spin.cpp
index c220eb7..93db591 100644
--- a/SeQuant/domain/mbpt/spin.cpp
+++ b/SeQuant/domain/mbpt/spin.cpp
@@ -44,6 +44,7 @@
 #include <iterator>
 #include <memory>
 #include <numeric>
+#include <set>
 #include <string_view>
 #include <unordered_map>
 #include <utility>
@@ -130,7 +131,7 @@ template <typename Container, typename TraceFunction, typename... Args>
   const std::size_t unchangedSize =
       permuteBra ? expr.ket().size() : expr.bra().size();
 
-  [[maybe_unused]] auto get_phase = [](auto container) {
+  auto get_phase = [](auto container) {
     reset_ts_swap_counter<Index>();
     bubble_sort(container.begin(), container.end(), std::less<Index>{});
     return ts_swap_counter_is_even<Index>() ? 1 : -1;
@@ -141,7 +142,7 @@ template <typename Container, typename TraceFunction, typename... Args>
   const int initialSign = ts_swap_counter_is_even<Index>() ? 1 : -1;
   const auto originalIndices = permIndices;
 
-  container::svector<container::set<std::pair<IndexSpace, IndexSpace>>>
+  container::svector<std::multiset<std::pair<IndexSpace, IndexSpace>>>
       idxPairings;
 
   Container resultSet;
@@ -149,16 +150,14 @@ template <typename Container, typename TraceFunction, typename... Args>
   // For next_permutation to work in this context, permIndices must be sorted
   SEQUANT_ASSERT(std::is_sorted(permIndices.begin(), permIndices.end()));
 
-  int sign = initialSign;
   do {
-    const int currentSign = sign;
-    // std::next_permutation creates one lexicographical permutation after the
-    // other, which should imply that the phase should alternate between
-    // iterations.
-    sign *= -1;
-    SEQUANT_ASSERT(currentSign == get_phase(permIndices) * initialSign);
+    // N.B. the parity of successive lexicographical permutations does not
+    // alternate
+    const int currentSign = expr.symmetry() == Symmetry::Antisymm
+                                ? get_phase(permIndices) * initialSign
+                                : 1;
 
-    container::set<std::pair<IndexSpace, IndexSpace>> currentPairing;
+    std::multiset<std::pair<IndexSpace, IndexSpace>> currentPairing;
 
     for (std::size_t i = 0; i < unchangedSize; ++i) {
       if (permuteBra) {
@@ -181,6 +180,7 @@ template <typename Container, typename TraceFunction, typename... Args>
     }
 
     // Found a new index pairing
+    idxPairings.push_back(std::move(currentPairing));
 
     ExprPtr expression = expr.expression().clone();
 
-- 
2.43.0


From aabb782db1f89db7a29f913f65b16ef7f9712b52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:23 +0000
Subject: [PATCH 51/75] fix: mbpt: closed_shell_spintrace with symmetrizers
 changed by canonicalization

---
 SeQuant/domain/mbpt/spin.cpp | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/SeQuant/domain/mbpt/spin.cpp b/SeQuant/domain/mbpt/spin.cpp
index 93db591..e380f63 100644
--- a/SeQuant/domain/mbpt/spin.cpp
+++ b/SeQuant/domain/mbpt/spin.cpp
@@ -976,10 +976,15 @@ ExprPtr closed_shell_spintrace_impl(const ExprPtr& expression,
              factor->template as<Tensor>().label() == reserved::symm_label();
     };
 
+    container::svector<container::svector<Index>> symmetrizer_index_groups;
     if (std::ranges::any_of(factors, is_symm_tensor)) {
       for (auto&& factor : factors) {
         if (!is_symm_tensor(factor)) {
           temp_product.append(1, factor, Product::Flatten::No);
+        } else {
+          const auto& S = factor->template as<Tensor>();
+          for (std::size_t i = 0; i != S.bra_rank(); ++i)
+            symmetrizer_index_groups.push_back({S.bra().at(i), S.ket().at(i)});
         }
       }
     } else {
@@ -1030,7 +1035,18 @@ ExprPtr closed_shell_spintrace_impl(const ExprPtr& expression,
     };
 
     // Substitute indices from external index list
-    ranges::for_each(ext_index_groups, substitute_ext_idx);
+    // N.B. the indices of a symmetrizer, hence their pairing, may have been
+    // changed by canonicalization, hence use its columns instead if present
+    if (!symmetrizer_index_groups.empty()) {
+      for (const auto& group : symmetrizer_index_groups) {
+        std::replace(product_bras.begin(), product_bras.end(), group[0],
+                     group[1]);
+        std::replace(product_kets.begin(), product_kets.end(), group[0],
+                     group[1]);
+      }
+    } else {
+      ranges::for_each(ext_index_groups, substitute_ext_idx);
+    }
 
     auto n_cycles = count_cycles(product_kets, product_bras);
 
-- 
2.43.0


From 40449bf71374e77f0a528ce2007c85e180dff8e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:23 +0000
Subject: [PATCH 52/75] fix: mbpt: spintrace of tensors without antisymmetry
 conserves the spin of columns

---
 SeQuant/domain/mbpt/spin.cpp | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/SeQuant/domain/mbpt/spin.cpp b/SeQuant/domain/mbpt/spin.cpp
index e380f63..06c3a5e 100644
--- a/SeQuant/domain/mbpt/spin.cpp
+++ b/SeQuant/domain/mbpt/spin.cpp
@@ -1693,22 +1693,28 @@ ExprPtr spintrace_impl(const ExprPtr& expression, IdxGroups&& ext_index_groups,
   // This function must be used for tensors with spin-specific indices only. If
   // the spin-symmetry is conserved: the tensor is expanded; else: zero is
   // returned.
-  auto spintrace_tensor = [](const Tensor& tensor) {
-    return can_expand(tensor) ? expand_antisymm(tensor) : ex<Constant>(0);
+  // N.B. a tensor without (anti)symmetry conserves the spin of each column
+  auto conserves_spin = [](const Tensor& tensor) {
+    return can_expand(tensor) && (tensor.symmetry() != Symmetry::Nonsymm ||
+                                  ms_conserving_columns(tensor));
+  };
+  auto spintrace_tensor = [&conserves_spin](const Tensor& tensor) {
+    return conserves_spin(tensor) ? expand_antisymm(tensor) : ex<Constant>(0);
   };
 
   // This function is used to spin-trace a product terms with spin-specific
   // indices. It checks if all tensors can be expanded and spintraces individual
   // tensors by call to the spin_trace_tensor lambda.
   auto spintrace_product =
-      [&spintrace_tensor](const ProductPtr& product) -> ExprPtr {
+      [&conserves_spin,
+       &spintrace_tensor](const ProductPtr& product) -> ExprPtr {
     ProductPtr spin_product = std::make_shared<Product>();
 
     // Check if all tensors in this product can be expanded
     // If NOT all tensors can be expanded, return zero
     for (const ExprPtr& expr : product->factors()) {
       if (expr.is<Tensor>()) {
-        if (!can_expand(expr.as<Tensor>())) {
+        if (!conserves_spin(expr.as<Tensor>())) {
           return ex<Constant>(0);
         }
       } else if (expr.is<Sum>() || expr.is<Product>()) {
-- 
2.43.0


From 0c7db36975a3f7e84ac38e056cf163d297ed717f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:23 +0000
Subject: [PATCH 53/75] fix: mbpt: spin tracing sums over internal indices of
 each term, excluding aux indices

---
 SeQuant/domain/mbpt/spin.cpp | 131 +++++++++++++++++++----------------
 1 file changed, 70 insertions(+), 61 deletions(-)

diff --git a/SeQuant/domain/mbpt/spin.cpp b/SeQuant/domain/mbpt/spin.cpp
index 06c3a5e..c9a2672 100644
--- a/SeQuant/domain/mbpt/spin.cpp
+++ b/SeQuant/domain/mbpt/spin.cpp
@@ -96,6 +96,20 @@ void reset_idx_tags(const ExprPtr& expr) {
       true);
 }
 
+/// @return the indices of @p expr that are subject to spin tracing, i.e. all
+/// indices not in @p ext_idxlist, except those that only appear in aux slots
+/// (e.g., the indices of density-fitting factors) since these do not carry spin
+container::set<Index> internal_spin_indices(
+    const ExprPtr& expr, const container::set<Index>& ext_idxlist) {
+  container::set<Index> result;
+  for (const auto& [idx, count] : get_used_indices_with_counts(expr)) {
+    const bool aux_only = count.aux > 0 && count.aux == count.total();
+    if (!aux_only && ext_idxlist.find(idx) == ext_idxlist.end())
+      result.insert(idx);
+  }
+  return result;
+}
+
 template <typename Container, typename TraceFunction, typename... Args>
 [[nodiscard]] Container wrap_trace(const ResultExpr& expr,
                                    TraceFunction&& tracer, Args&&... args) {
@@ -1392,10 +1406,6 @@ std::vector<ExprPtr> open_shell_spintrace_impl(
     return std::vector<ExprPtr>{expr};
   }
 
-  // Grand index list contains both internal and external indices
-  container::set<Index, Index::LabelCompare> grand_idxlist =
-      get_used_indices<decltype(grand_idxlist)>(expr);
-
   container::set<Index> ext_idxlist;
   for (const auto& idxgrp : ext_index_groups) {
     for (const Index& current : idxgrp) {
@@ -1405,21 +1415,7 @@ std::vector<ExprPtr> open_shell_spintrace_impl(
     }
   }
 
-  container::set<Index> int_idxlist;
-  for (auto&& gidx : grand_idxlist) {
-    if (ext_idxlist.find(gidx) == ext_idxlist.end()) {
-      int_idxlist.insert(gidx);
-    }
-  }
-
   using IndexGroup = container::svector<Index>;
-  container::svector<IndexGroup> int_index_groups;
-  for (auto&& i : int_idxlist) {
-    int_index_groups.emplace_back(IndexGroup(1, i));
-  }
-
-  SEQUANT_ASSERT(grand_idxlist.size() ==
-                 int_idxlist.size() + ext_idxlist.size());
 
   // make a spin-specific index, orientation is given by spin_bit: 0 =
   // spin-down/beta, 1 = spin-up/alpha
@@ -1469,8 +1465,15 @@ std::vector<ExprPtr> open_shell_spintrace_impl(
     return all_replacements;
   };
 
-  // Internal and external index replacements are independent
-  auto i_rep = spin_cases(int_index_groups);
+  // Internal and external index replacements are independent; the former are
+  // specific to each term
+  auto internal_spin_cases = [&](const ExprPtr& term) {
+    container::svector<IndexGroup> int_index_groups;
+    for (auto&& i : detail::internal_spin_indices(term, ext_idxlist)) {
+      int_index_groups.emplace_back(IndexGroup(1, i));
+    }
+    return spin_cases(int_index_groups);
+  };
   auto e_rep = ext_spin_cases(ext_index_groups);
 
   // For a single spin case, keep only the relevant spin case
@@ -1516,43 +1519,57 @@ std::vector<ExprPtr> open_shell_spintrace_impl(
   // SPIN-TRACING algorithm begins here
   //
 
+  // N.B. after simplification terms can have different (numbers of) internal
+  // indices, hence trace term by term
+  const container::svector<ExprPtr> terms =
+      expanded_expr->is<Sum>()
+          ? container::svector<ExprPtr>(expanded_expr->begin(),
+                                        expanded_expr->end())
+          : container::svector<ExprPtr>{expanded_expr};
+  container::svector<container::svector<container::map<Index, Index>>> i_reps;
+  for (const auto& term : terms) i_reps.push_back(internal_spin_cases(term));
+
   // Loop over external index replacement maps
   for (auto& e : e_rep) {
-    // Add spin labels to external indices
-    auto spin_expr = append_spin(expanded_expr, e);
-    detail::reset_idx_tags(spin_expr);
     Sum e_result{};
 
-    // Loop over internal index replacement maps
-    for (auto& i : i_rep) {
-      // Add spin labels to internal indices, expand antisymmetric tensors
-      ExprPtr spin_expr_i = append_spin(spin_expr, i);
-      spin_expr_i = expand_antisymm(spin_expr_i, true);
-      expand(spin_expr_i);
-      detail::reset_idx_tags(spin_expr_i);
-      Sum i_result{};
-
-      if (spin_expr_i->is<Tensor>() || spin_expr_i->is<Constant>() ||
-          spin_expr_i->is<Variable>()) {
-        e_result.append(spin_expr_i);
-      } else if (spin_expr_i->is<Product>()) {
-        if (spin_symm_product(spin_expr_i->as<Product>()))
+    for (std::size_t t = 0; t != terms.size(); ++t) {
+      // Add spin labels to external indices
+      auto spin_expr = append_spin(terms[t], e);
+      detail::reset_idx_tags(spin_expr);
+
+      // Loop over internal index replacement maps
+      for (auto& i : i_reps[t]) {
+        // Add spin labels to internal indices, expand antisymmetric tensors
+        ExprPtr spin_expr_i = append_spin(spin_expr, i);
+        spin_expr_i = expand_antisymm(spin_expr_i, true);
+        expand(spin_expr_i);
+        detail::reset_idx_tags(spin_expr_i);
+        Sum i_result{};
+
+        if (spin_expr_i->is<Tensor>()) {
+          if (ms_conserving_columns(spin_expr_i->as<Tensor>()))
+            e_result.append(spin_expr_i);
+        } else if (spin_expr_i->is<Constant>() || spin_expr_i->is<Variable>()) {
           e_result.append(spin_expr_i);
-      } else if (spin_expr_i->is<Sum>()) {
-        for (auto& pr : *spin_expr_i) {
-          if (pr->is<Product>()) {
-            if (spin_symm_product(pr->as<Product>())) i_result.append(pr);
-          } else if (pr->is<Tensor>()) {
-            if (ms_conserving_columns(pr->as<Tensor>())) i_result.append(pr);
-          } else if (pr->is<Constant>() || pr->is<Variable>()) {
-            i_result.append(pr);
-          } else
-            throw("Unknown ExprPtr type.");
+        } else if (spin_expr_i->is<Product>()) {
+          if (spin_symm_product(spin_expr_i->as<Product>()))
+            e_result.append(spin_expr_i);
+        } else if (spin_expr_i->is<Sum>()) {
+          for (auto& pr : *spin_expr_i) {
+            if (pr->is<Product>()) {
+              if (spin_symm_product(pr->as<Product>())) i_result.append(pr);
+            } else if (pr->is<Tensor>()) {
+              if (ms_conserving_columns(pr->as<Tensor>())) i_result.append(pr);
+            } else if (pr->is<Constant>() || pr->is<Variable>()) {
+              i_result.append(pr);
+            } else
+              throw Exception("Unknown ExprPtr type.");
+          }
+          e_result.append(std::make_shared<Sum>(i_result));
         }
-        e_result.append(std::make_shared<Sum>(i_result));
-      }
-
-    }  // loop over internal indices
+      }  // loop over internal indices
+    }  // loop over terms
     result.push_back(std::make_shared<Sum>(e_result));
   }  // loop over external indices
 
@@ -1749,10 +1766,6 @@ ExprPtr spintrace_impl(const ExprPtr& expression, IdxGroups&& ext_index_groups,
                         &spintrace_product,
                         spinfree_index_spaces](const ProductPtr& product) {
     ExprPtr expr = product->clone();
-    // List of all indices in the expression
-    container::set<Index, Index::LabelCompare> grand_idxlist =
-        get_used_indices<decltype(grand_idxlist)>(expr);
-
     // List of external indices, i.e. indices that are not summed over Einstein
     // style (indices that are not repeated in an expression)
     container::set<Index> ext_idxlist;
@@ -1765,12 +1778,8 @@ ExprPtr spintrace_impl(const ExprPtr& expression, IdxGroups&& ext_index_groups,
     }
 
     // List of internal indices, i.e. indices that are contracted over
-    container::set<Index> int_idxlist;
-    for (auto&& gidx : grand_idxlist) {
-      if (ext_idxlist.find(gidx) == ext_idxlist.end()) {
-        int_idxlist.insert(gidx);
-      }
-    }
+    const container::set<Index> int_idxlist =
+        detail::internal_spin_indices(expr, ext_idxlist);
 
     // EFV: generate the grand list of index groups by concatenating list of
     // external index groups with the groups of internal indices (each
-- 
2.43.0


From 73453baa0e798d18cde9c1b772a5847575bdd867 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:23 +0000
Subject: [PATCH 54/75] fix: mbpt: open_shell_CC_spintrace: consistent names
 and signs of external indices

---
 SeQuant/domain/mbpt/spin.cpp | 83 ++++++++++++++++++++++++++++++++++++
 1 file changed, 83 insertions(+)

diff --git a/SeQuant/domain/mbpt/spin.cpp b/SeQuant/domain/mbpt/spin.cpp
index c9a2672..fd8a629 100644
--- a/SeQuant/domain/mbpt/spin.cpp
+++ b/SeQuant/domain/mbpt/spin.cpp
@@ -110,6 +110,86 @@ container::set<Index> internal_spin_indices(
   return result;
 }
 
+/// Canonicalization treats the indices of an antisymmetrizer as dummy, hence
+/// can rename them and permute its slots; this undoes such changes in
+/// every term of @p expr
+/// @param expr an expression
+/// @param A the original antisymmetrizer; its bra (ket) indices that belong to
+/// the same space must be contiguous
+/// @return @p expr, with each antisymmetrizer replaced by @p A
+ExprPtr restore_antisymmetrizer_indices(const ExprPtr& expr, const Tensor& A) {
+  if (expr->is<Sum>()) {
+    auto result = std::make_shared<Sum>();
+    for (auto&& summand : *expr)
+      result->append(restore_antisymmetrizer_indices(summand, A));
+    return result;
+  }
+  if (!expr->is<Product>()) return expr;
+
+  auto is_antisymmetrizer = [](const ExprPtr& e) {
+    return e->is<Tensor>() &&
+           e->as<Tensor>().label() == reserved::antisymm_label();
+  };
+  auto it = ranges::find_if(expr->as<Product>().factors(), is_antisymmetrizer);
+  if (it == expr->as<Product>().factors().end()) return expr;
+  const Tensor& current = (*it)->as<Tensor>();
+  SEQUANT_ASSERT(current.bra_rank() == A.bra_rank() &&
+                 current.ket_rank() == A.ket_rank());
+
+  // match the indices of each space in the order of their appearance
+  container::map<Index, Index> index_map;
+  int phase = 1;
+  auto match = [&](const auto& from, const auto& to) {
+    container::svector<int> order;
+    container::svector<char> used(from.size(), false);
+    for (const Index& target : to) {
+      std::size_t p = 0;
+      while (p < from.size() && (used[p] || from[p].space() != target.space()))
+        ++p;
+      SEQUANT_ASSERT(p < from.size());
+      used[p] = true;
+      order.push_back(static_cast<int>(p));
+      index_map.emplace(from[p], target);
+    }
+    phase *= permutation_parity(std::span<int>(order.data(), order.size()));
+  };
+  match(container::svector<Index>(current.bra().begin(), current.bra().end()),
+        container::svector<Index>(A.bra().begin(), A.bra().end()));
+  match(container::svector<Index>(current.ket().begin(), current.ket().end()),
+        container::svector<Index>(A.ket().begin(), A.ket().end()));
+
+  // indices that are in the way take over the names that became available
+  container::set<Index> from, to;
+  for (const auto& [f, t] : index_map) {
+    from.insert(f);
+    to.insert(t);
+  }
+  for (const Index& t : to) {
+    if (from.find(t) != from.end()) continue;
+    for (const Index& f : from) {
+      if (f.space() == t.space() && to.find(f) == to.end() &&
+          ranges::none_of(index_map, [&](const auto& kv) {
+            return kv.second == f;
+          })) {
+        index_map.emplace(t, f);
+        break;
+      }
+    }
+  }
+
+  auto result = std::make_shared<Product>();
+  result->scale(expr->as<Product>().scalar());
+  result->scale(phase);
+  for (const auto& factor : expr->as<Product>().factors()) {
+    if (is_antisymmetrizer(factor))
+      result->append(1, ex<Tensor>(A), Product::Flatten::No);
+    else
+      result->append(1, append_spin(factor, index_map), Product::Flatten::No);
+  }
+  reset_idx_tags(result);
+  return result;
+}
+
 template <typename Container, typename TraceFunction, typename... Args>
 [[nodiscard]] Container wrap_trace(const ResultExpr& expr,
                                    TraceFunction&& tracer, Args&&... args) {
@@ -1661,6 +1741,9 @@ std::vector<ExprPtr> open_shell_CC_spintrace(const ExprPtr& expr) {
       if (i > 2) {
         os_st.at(s) = A_vec.at(s) * os_st.at(s);
         simplify(os_st.at(s));
+        os_st.at(s) = detail::restore_antisymmetrizer_indices(
+            os_st.at(s), A_vec.at(s)->is<Tensor>() ? A_vec.at(s)->as<Tensor>()
+                                                   : Tensor{});
         os_st.at(s) = remove_tensor(os_st.at(s), reserved::antisymm_label());
       }
     }
-- 
2.43.0


From a474af429fbfca2952eb195fa34a7796a065e669 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:25:19 +0000
Subject: [PATCH 55/75] fix: mbpt::Operator::adjoint forgot its previous
 adjoint state

---
 SeQuant/domain/mbpt/op.ipp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/SeQuant/domain/mbpt/op.ipp b/SeQuant/domain/mbpt/op.ipp
index 8f28062..08e720d 100644
--- a/SeQuant/domain/mbpt/op.ipp
+++ b/SeQuant/domain/mbpt/op.ipp
@@ -156,7 +156,8 @@ void Operator<QuantumNumbers, S>::adjoint() {
     lbl.push_back(sequant::adjoint_label);
   }
 
-  // get order and batch_ordinals to restore later
+  // get adjoint flag, order and batch_ordinals to restore later
+  const auto saved_is_adjoint = this->is_adjoint_;
   const auto saved_order = this->order_;
   const auto saved_batch_ordinals = this->batch_ordinals_;
 
@@ -173,7 +174,7 @@ void Operator<QuantumNumbers, S>::adjoint() {
         qn += sequant::adjoint(dN);
         return qn;  // qn_action
       }};
-  this->is_adjoint_ = !this->is_adjoint_;  // toggle adjoint flag
+  this->is_adjoint_ = !saved_is_adjoint;  // toggle adjoint flag
 
   // restore original order and batch_ordinals
   this->order_ = saved_order;
-- 
2.43.0


From 651050791b80dc5d688c800f884fd61d4144b157 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:25:19 +0000
Subject: [PATCH 56/75] fix: many-body operators that can be contracted do not
 commute, odd ones anticommute

---
 SeQuant/domain/mbpt/op.cpp | 31 +++++++++++++++++++++++++++++++
 SeQuant/domain/mbpt/op.hpp |  8 ++++++++
 SeQuant/domain/mbpt/op.ipp | 16 ++++++++++------
 3 files changed, 49 insertions(+), 6 deletions(-)

diff --git a/SeQuant/domain/mbpt/op.cpp b/SeQuant/domain/mbpt/op.cpp
index 50f7b29..d8a4c56 100644
--- a/SeQuant/domain/mbpt/op.cpp
+++ b/SeQuant/domain/mbpt/op.cpp
@@ -284,6 +284,37 @@ qns_t combine(qns_t a, qns_t b) {
   }
 }
 
+bool can_contract(const qns_t& a, const qns_t& b) {
+  SEQUANT_ASSERT(a.size() == b.size());
+  if (get_default_context().vacuum() == Vacuum::Physical)
+    return a[1].upper() > 0 && b[0].upper() > 0;
+  auto isr = get_default_context().index_space_registry();
+  const auto& base_spaces = isr->base_spaces();
+  for (std::size_t i = 0; i < base_spaces.size(); ++i) {
+    const auto cre = i * 2;
+    const auto ann = cre + 1;
+    // holes are annihilated by creators, see combine()
+    const auto [left, right] = isr->is_pure_occupied(base_spaces[i])
+                                   ? std::pair{cre, ann}
+                                   : std::pair{ann, cre};
+    if (a[left].upper() > 0 && b[right].upper() > 0) return true;
+  }
+  return false;
+}
+
+bool is_odd(const qns_t& qns) {
+  // if a rank is distributed over several base spaces it is the upper limit in
+  // each one of them
+  std::int64_t nops = 0;
+  for (std::size_t offset : {0, 1}) {
+    std::int64_t n = 0;
+    for (std::size_t i = offset; i < qns.size(); i += 2)
+      n = std::max(n, qns[i].upper());
+    nops += n;
+  }
+  return nops % 2 != 0;
+}
+
 // must be defined including op.ipp since it's used there
 template <>
 bool is_vacuum<qns_t>(qns_t qns) {
diff --git a/SeQuant/domain/mbpt/op.hpp b/SeQuant/domain/mbpt/op.hpp
index 658e1ba..8f64073 100644
--- a/SeQuant/domain/mbpt/op.hpp
+++ b/SeQuant/domain/mbpt/op.hpp
@@ -463,6 +463,14 @@ using op_t = mbpt::Operator<qnc_t>;
 /// combines 2 sets of quantum numbers using Wick's theorem
 qns_t combine(qns_t, qns_t);
 
+/// @return true if an operator with quantum numbers @p a , placed to the left
+/// of an operator with quantum numbers @p b , can be contracted with it
+bool can_contract(const qns_t& a, const qns_t& b);
+
+/// @return true if an operator with quantum numbers @p qns consists of an odd
+/// number of elementary operators
+bool is_odd(const qns_t& qns);
+
 /// @brief Constructs quantum numbers for an excitation operator based on the
 /// defined context
 /// @param k the rank of the operator
diff --git a/SeQuant/domain/mbpt/op.ipp b/SeQuant/domain/mbpt/op.ipp
index 08e720d..804084a 100644
--- a/SeQuant/domain/mbpt/op.ipp
+++ b/SeQuant/domain/mbpt/op.ipp
@@ -127,15 +127,19 @@ bool Operator<QuantumNumbers, S>::commutes_with_atom(const Expr& that) const {
   else {
     auto& that_op = that.as<this_type>();
 
-    // if this has annihilators/creators in same space as that has
-    // creator/annihilators return false
+    SEQUANT_ASSERT(this->size() % 2 == 0 && that.size() == this->size());
 
-    auto delta_this = (*this)();
-    auto delta_that = (that_op)();
+    const auto delta_this = (*this)();
+    const auto delta_that = (that_op)();
 
-    SEQUANT_ASSERT(this->size() % 2 == 0 && that.size() == this->size());
+    // odd fermionic operators anticommute
+    if (S == Statistics::FermiDirac && is_odd(delta_this) && is_odd(delta_that))
+      return false;
 
-    return combine(delta_this, delta_that) == combine(delta_that, delta_this);
+    // if this has annihilators/creators in same space as that has
+    // creator/annihilators return false
+    return !can_contract(delta_this, delta_that) &&
+           !can_contract(delta_that, delta_this);
   }
 }
 
-- 
2.43.0


From cdd0d37b0f165bd05d689faa4cea54d3925b7f6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:25:19 +0000
Subject: [PATCH 57/75] fix: many-body operators that differ by normalization
 are not equal

---
 SeQuant/domain/mbpt/op.cpp | 12 ++++++++----
 SeQuant/domain/mbpt/op.hpp |  9 +++++++++
 SeQuant/domain/mbpt/op.ipp | 27 +++++++++++++++++++++++----
 3 files changed, 40 insertions(+), 8 deletions(-)

diff --git a/SeQuant/domain/mbpt/op.cpp b/SeQuant/domain/mbpt/op.cpp
index d8a4c56..010466f 100644
--- a/SeQuant/domain/mbpt/op.cpp
+++ b/SeQuant/domain/mbpt/op.cpp
@@ -1112,7 +1112,8 @@ ExprPtr A(nₚ np, nₕ nh, std::optional<Normalization> norm) {
                                                   particle_space, hole_space);
           qns = combine(op_qnc_t, qns);
         }
-      });
+      },
+      norm.value_or(Normalization::Implicit));
 }
 
 ExprPtr S(std::int64_t K, std::optional<Normalization> norm) {
@@ -1128,7 +1129,8 @@ ExprPtr S(std::int64_t K, std::optional<Normalization> norm) {
                       qnc_t op_qnc_t = excitation_type_qns(abs_K);
                       qns = combine(op_qnc_t, qns);
                     }
-                  });
+                  },
+                  norm.value_or(Normalization::Implicit));
 }
 
 ExprPtr P(nₚ np, nₕ nh, std::optional<Normalization> norm) {
@@ -1215,7 +1217,8 @@ ExprPtr r(nann na, ncre nc, const cre<IndexSpace>& cre_space,
                                                          /*hole_rank*/ na,
                                                          cre_space, ann_space),
                                   qns);
-                  });
+                  },
+                  norm);
 }
 
 ExprPtr r(nₚ np, nₕ nh, Normalization norm) {
@@ -1237,7 +1240,8 @@ ExprPtr l(nann na, ncre nc, const cre<IndexSpace>& cre_space,
                                       /*particle_rank*/ na, /*hole_rank*/ nc,
                                       ann_space, cre_space),
                                   qns);
-                  });
+                  },
+                  norm);
 }
 
 ExprPtr l(nₚ np, nₕ nh, Normalization norm) {
diff --git a/SeQuant/domain/mbpt/op.hpp b/SeQuant/domain/mbpt/op.hpp
index 8f64073..16b704e 100644
--- a/SeQuant/domain/mbpt/op.hpp
+++ b/SeQuant/domain/mbpt/op.hpp
@@ -916,6 +916,13 @@ class Operator : public Operator<void, S> {
            std::function<void(QuantumNumbers&)> qn_action,
            const OpParams& params);
 
+  /// @param normalization the normalization convention used by the tensor form;
+  /// operators that differ in it are not equal
+  Operator(std::function<std::wstring_view()> label_generator,
+           std::function<ExprPtr()> tensor_form_generator,
+           std::function<void(QuantumNumbers&)> qn_action,
+           Normalization normalization);
+
   virtual ~Operator();
 
   /// evaluates the result of applying this operator to \p qns
@@ -967,6 +974,8 @@ class Operator : public Operator<void, S> {
 
   size_t order_ = 0;
 
+  Normalization normalization_ = Normalization::Default;
+
   bool less_than_rank_of(const this_type& that) const;
 
   Expr::type_id_type type_id() const override;
diff --git a/SeQuant/domain/mbpt/op.ipp b/SeQuant/domain/mbpt/op.ipp
index 804084a..4dc3bf5 100644
--- a/SeQuant/domain/mbpt/op.ipp
+++ b/SeQuant/domain/mbpt/op.ipp
@@ -57,6 +57,16 @@ Operator<QuantumNumbers, S>::Operator(
   }
 }
 
+template <typename QuantumNumbers, Statistics S>
+Operator<QuantumNumbers, S>::Operator(
+    std::function<std::wstring_view()> label_generator,
+    std::function<ExprPtr()> tensor_form_generator,
+    std::function<void(QuantumNumbers&)> qn_action, Normalization normalization)
+    : Operator(std::move(label_generator), std::move(tensor_form_generator),
+               std::move(qn_action)) {
+  normalization_ = normalization;
+}
+
 template <typename QuantumNumbers, Statistics S>
 Operator<QuantumNumbers, S>::~Operator() = default;
 
@@ -160,9 +170,11 @@ void Operator<QuantumNumbers, S>::adjoint() {
     lbl.push_back(sequant::adjoint_label);
   }
 
-  // get adjoint flag, order and batch_ordinals to restore later
+  // get adjoint flag, order, normalization and batch_ordinals to restore
+  // later
   const auto saved_is_adjoint = this->is_adjoint_;
   const auto saved_order = this->order_;
+  const auto saved_normalization = this->normalization_;
   const auto saved_batch_ordinals = this->batch_ordinals_;
 
   // capture the current tensor-form generator so that each call regenerates
@@ -180,15 +192,19 @@ void Operator<QuantumNumbers, S>::adjoint() {
       }};
   this->is_adjoint_ = !saved_is_adjoint;  // toggle adjoint flag
 
-  // restore original order and batch_ordinals
+  // restore original order, normalization and batch_ordinals
   this->order_ = saved_order;
+  this->normalization_ = saved_normalization;
   this->batch_ordinals_ = saved_batch_ordinals;
 }
 
 template <typename QuantumNumbers, Statistics S>
 bool Operator<QuantumNumbers, S>::less_than_rank_of(
     const this_type& that) const {
-  return (*this)(QuantumNumbers{}) < that(QuantumNumbers{});
+  const auto this_qns = (*this)(QuantumNumbers{});
+  const auto that_qns = that(QuantumNumbers{});
+  if (this_qns == that_qns) return normalization_ < that.normalization_;
+  return this_qns < that_qns;
 }
 
 template <typename QuantumNumbers, Statistics S>
@@ -227,6 +243,8 @@ Expr::hash_type Operator<QuantumNumbers, S>::memoizing_hash() const {
     auto qns = (*this)(QuantumNumbers{});
     auto val = sequant::hash::value(qns);
     sequant::hash::combine(val, std::wstring(this->label()));
+    if (normalization_ != Normalization::Default)
+      sequant::hash::combine(val, static_cast<int>(normalization_));
     if (batch_ordinals()) {
       const auto ordinals = batch_ordinals().value();
       sequant::hash::range(val, begin(ordinals), end(ordinals));
@@ -248,7 +266,8 @@ bool Operator<QuantumNumbers, S>::static_equal(const Expr& other_expr) const {
   return this->label() == other.label() &&
          (*this)(QuantumNumbers{}) == other(QuantumNumbers{}) &&
          this->batch_ordinals() == other.batch_ordinals() &&
-         this->order() == other.order();
+         this->order() == other.order() &&
+         this->normalization_ == other.normalization_;
 }
 
 }  // namespace mbpt
-- 
2.43.0


From d442831e3f8239756590318151571636b15bbb9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:16 +0000
Subject: [PATCH 58/75] fix: compare asymptotic costs starting with the most
 expensive terms

---
 SeQuant/core/asy_cost.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/SeQuant/core/asy_cost.cpp b/SeQuant/core/asy_cost.cpp
index 8fa8fbb..07ad20b 100644
--- a/SeQuant/core/asy_cost.cpp
+++ b/SeQuant/core/asy_cost.cpp
@@ -252,7 +252,8 @@ bool operator<(AsyCost const &lhs, AsyCost const &rhs) {
   using ranges::views::reverse;
   using ranges::views::zip;
 
-  for (auto &&[c1, c2] : reverse(zip(lhs.cost_, rhs.cost_))) {
+  // match terms starting with the most expensive ones
+  for (auto &&[c1, c2] : zip(reverse(lhs.cost_), reverse(rhs.cost_))) {
     if (c1 < c2)
       return true;
     else if (c1 == c2) {
-- 
2.43.0


From 8d4f4851a65bb945381b64785c734642b79bf9d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:16 +0000
Subject: [PATCH 59/75] fix: a cost scaled by zero is the zero cost

---
 SeQuant/core/asy_cost.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/SeQuant/core/asy_cost.cpp b/SeQuant/core/asy_cost.cpp
index 07ad20b..5b947d4 100644
--- a/SeQuant/core/asy_cost.cpp
+++ b/SeQuant/core/asy_cost.cpp
@@ -237,6 +237,8 @@ AsyCost operator-(AsyCost const &lhs, AsyCost const &rhs) {
 }
 
 AsyCost operator*(AsyCost const &cost, rational scale) {
+  // terms with zero prefactor are not stored
+  if (scale == 0) return AsyCost::zero();
   auto ac = cost;
   for (auto &c : ac.cost_) c.set_prefactor(c.prefactor() * scale);
   return ac;
-- 
2.43.0


From c2958061e02303ab9efb4412198739922398ef31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:16 +0000
Subject: [PATCH 60/75] fix: memoize: keep references valid and do not block
 after a failed computation

---
 SeQuant/core/utility/memoize.hpp            | 39 ++++++++++++---------
 SeQuant/domain/mbpt/biorthogonalization.cpp |  5 ++-
 SeQuant/domain/mbpt/biorthogonalization.hpp |  3 +-
 3 files changed, 26 insertions(+), 21 deletions(-)

diff --git a/SeQuant/core/utility/memoize.hpp b/SeQuant/core/utility/memoize.hpp
index 38a80d0..bf96f91 100644
--- a/SeQuant/core/utility/memoize.hpp
+++ b/SeQuant/core/utility/memoize.hpp
@@ -1,9 +1,8 @@
 #ifndef SEQUANT_CORE_UTILITY_MEMOIZE_HPP
 #define SEQUANT_CORE_UTILITY_MEMOIZE_HPP
 
-#include <SeQuant/core/container.hpp>
-
 #include <condition_variable>
+#include <map>
 #include <mutex>
 #include <optional>
 #include <utility>
@@ -16,37 +15,43 @@ namespace sequant::detail {
 /// @tparam Key The cache key type
 /// @tparam Value The cached value type
 /// @tparam ComputeFn Callable returning Value
-/// @param cache The cache map (must use std::optional<Value> as values)
+/// @param cache The cache map (must use std::optional<Value> as values and
+///              keep references to its elements valid)
 /// @param mutex The mutex protecting the cache
 /// @param cv The condition variable for waiting
 /// @param key The key to look up/store
 /// @param compute_fn A callable that computes the value if not cached
 /// @return Reference to the cached value
 template <typename Key, typename Value, typename ComputeFn>
-const Value& memoize(container::map<Key, std::optional<Value>>& cache,
+const Value& memoize(std::map<Key, std::optional<Value>>& cache,
                      std::mutex& mutex, std::condition_variable& cv,
                      const Key& key, ComputeFn&& compute_fn) {
   {
     std::unique_lock<std::mutex> lock(mutex);
-    using cache_t = container::map<Key, std::optional<Value>>;
-    typename cache_t::iterator it;
-    bool inserted;
-    // N.B. Use std::tie instead of structured binding to allow lambda capture
-    // (C++17 does not support capturing structured bindings in lambdas)
-    std::tie(it, inserted) = cache.try_emplace(key, std::nullopt);
-    if (!inserted) {
-      cv.wait(lock, [&it] { return it->second.has_value(); });
-      return it->second.value();
+    while (true) {
+      auto [it, inserted] = cache.try_emplace(key, std::nullopt);
+      if (inserted) break;
+      if (it->second.has_value()) return it->second.value();
+      // someone else is computing this value; if that fails the placeholder
+      // will be gone
+      cv.wait(lock);
     }
   }
 
-  Value result = compute_fn();
+  try {
+    Value result = compute_fn();
 
-  {
     std::lock_guard<std::mutex> lock(mutex);
-    cache[key] = std::move(result);
+    auto& cached = cache[key];
+    cached = std::move(result);
+    cv.notify_all();
+    return cached.value();
+  } catch (...) {
+    // let others retry
+    std::lock_guard<std::mutex> lock(mutex);
+    cache.erase(key);
     cv.notify_all();
-    return cache[key].value();
+    throw;
   }
 }
 
diff --git a/SeQuant/domain/mbpt/biorthogonalization.cpp b/SeQuant/domain/mbpt/biorthogonalization.cpp
index e68850e..d777916 100644
--- a/SeQuant/domain/mbpt/biorthogonalization.cpp
+++ b/SeQuant/domain/mbpt/biorthogonalization.cpp
@@ -488,9 +488,8 @@ void biorthogonal_transform(container::svector<ResultExpr>& result_exprs,
 
   static std::mutex cache_mutex;
   static std::condition_variable cache_cv;
-  static container::map<CacheKey, std::optional<HardcodedMatrix>>
-      hardcoded_cache;
-  static container::map<CacheKey, std::optional<ComputedMatrix>> computed_cache;
+  static std::map<CacheKey, std::optional<HardcodedMatrix>> hardcoded_cache;
+  static std::map<CacheKey, std::optional<ComputedMatrix>> computed_cache;
 
   constexpr std::size_t max_rank_hardcoded_biorthogonalizer_matrix = 5;
   CacheKey key{n_particles, threshold};
diff --git a/SeQuant/domain/mbpt/biorthogonalization.hpp b/SeQuant/domain/mbpt/biorthogonalization.hpp
index c5d0c5f..57cd192 100644
--- a/SeQuant/domain/mbpt/biorthogonalization.hpp
+++ b/SeQuant/domain/mbpt/biorthogonalization.hpp
@@ -26,6 +26,7 @@
 #include <concepts>
 #include <condition_variable>
 #include <cstddef>
+#include <map>
 #include <mutex>
 #include <optional>
 #include <vector>
@@ -231,7 +232,7 @@ template <typename T>
 
   static std::mutex cache_mutex;
   static std::condition_variable cache_cv;
-  static container::map<CacheKey, std::optional<std::vector<T>>> cache;
+  static std::map<CacheKey, std::optional<std::vector<T>>> cache;
 
   CacheKey key{n_particles, pseudoinverse_threshold};
 
-- 
2.43.0


From 374d6f2d1e979ed0ba64749bceb17218a1af444d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:16 +0000
Subject: [PATCH 61/75] fix: visiting a subtree of a binary tree stays within
 the subtree

---
 SeQuant/core/binary_node.hpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/SeQuant/core/binary_node.hpp b/SeQuant/core/binary_node.hpp
index 5d0acb5..23ce2f6 100644
--- a/SeQuant/core/binary_node.hpp
+++ b/SeQuant/core/binary_node.hpp
@@ -156,6 +156,12 @@ void visit(Node&& node, Visitor&& f, NodeType) {
   std::remove_reference_t<Node>* current_ptr = &node;
   const std::remove_cvref_t<Node>* previous_ptr = &node;
 
+  // the traversal must not leave the subtree rooted at node
+  const std::remove_cvref_t<Node>* const start_ptr = &node;
+  auto get_parent_ptr = [start_ptr](auto&& n) {
+    return &n == start_ptr ? nullptr : detail::get_parent_ptr(n);
+  };
+
   // Implementation note: we use a loop rather than recursive function calls as
   // the latter implicitly imposes a maximum depth of a tree we can visit
   // without triggering a stack overflow that will crash the program.
@@ -197,7 +203,8 @@ void visit(Node&& node, Visitor&& f, NodeType) {
       // Finished visiting right, now move back up to parent (if any)
       current_ptr = get_parent_ptr(current);
     } else {
-      SEQUANT_ASSERT(current.root() || previous_ptr == &current.parent());
+      SEQUANT_ASSERT(&current == start_ptr ||
+                     previous_ptr == &current.parent());
       if constexpr ((order & TreeTraversal::PreOrder) ==
                         TreeTraversal::PreOrder &&
                     !std::is_same_v<NodeType, VisitLeaf>) {
-- 
2.43.0


From 9ed381468ad3a213243efd64d15d88d35321b99f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:16 +0000
Subject: [PATCH 62/75] fix: comparing a leaf with an internal binary node

---
 SeQuant/core/binary_node.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/SeQuant/core/binary_node.hpp b/SeQuant/core/binary_node.hpp
index 23ce2f6..eff3b09 100644
--- a/SeQuant/core/binary_node.hpp
+++ b/SeQuant/core/binary_node.hpp
@@ -695,8 +695,8 @@ class FullBinaryNode {
 
 template <typename T, typename U>
 bool operator==(FullBinaryNode<T> const& lhs, FullBinaryNode<U> const& rhs) {
-  return ((*lhs == *rhs) &&
-          ((lhs.leaf() && rhs.leaf()) ||
+  return ((*lhs == *rhs) && lhs.leaf() == rhs.leaf() &&
+          (lhs.leaf() ||
            (lhs.left() == rhs.left() && lhs.right() == rhs.right())));
 }
 
-- 
2.43.0


From 967ac626ce90246a38bdcf18e26753aff258b587 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:16 +0000
Subject: [PATCH 63/75] fix: replace() adapts the replacement's indices for a
 bare atom

---
 SeQuant/core/utility/expr.hpp | 77 +++++++++++++++++------------------
 1 file changed, 38 insertions(+), 39 deletions(-)

diff --git a/SeQuant/core/utility/expr.hpp b/SeQuant/core/utility/expr.hpp
index 95e6061..3d9c5d6 100644
--- a/SeQuant/core/utility/expr.hpp
+++ b/SeQuant/core/utility/expr.hpp
@@ -119,47 +119,46 @@ ExprPtr &replace(ExprPtr &expr, const ExprPtr &target,
     }
   }
 
+  auto replace_if_match = [&](ExprPtr &current) {
+    if (cmp(*current, *target)) {
+      ExprPtr repl;
+
+      if (index_mapping.empty()) {
+        repl = replacement->clone();
+      } else {
+        // Ensure that all indices shared between target and replacement
+        // will also be shared with current and the actual replacement we
+        // want to use for it (this becomes relevant if cmp compares only
+        // equivalence instead of equality)
+        SEQUANT_ASSERT(current->is<AbstractTensor>());
+        SEQUANT_ASSERT(target->is<AbstractTensor>());
+
+        const auto &current_tensor = current->as<AbstractTensor>();
+        const auto &target_tensor = target->as<AbstractTensor>();
+
+        SEQUANT_ASSERT(num_slots(current_tensor) == num_slots(target_tensor));
+
+        auto current_slots = slots(current_tensor);
+        auto target_slots = slots(target_tensor);
+
+        container::map<Index, Index> replacements;
+        for (std::size_t i : index_mapping) {
+          if (target_slots[i] != current_slots[i]) {
+            replacements[target_slots[i]] = current_slots[i];
+          }
+        }
+
+        repl = transform_expr(replacement, replacements);
+      }
+
+      current = std::move(repl);
+    }
+  };
+
   if (cmp(*expr, *target)) {
-    expr = replacement->clone();
+    replace_if_match(expr);
   } else {
-    expr->visit(
-        [&](ExprPtr &current) {
-          if (cmp(*current, *target)) {
-            ExprPtr repl;
-
-            if (index_mapping.empty()) {
-              repl = replacement->clone();
-            } else {
-              // Ensure that all indices shared between target and replacement
-              // will also be shared with current and the actual replacement we
-              // want to use for it (this becomes relevant if cmp compares only
-              // equivalence instead of equality)
-              SEQUANT_ASSERT(current->is<AbstractTensor>());
-              SEQUANT_ASSERT(target->is<AbstractTensor>());
-
-              const auto &current_tensor = current->as<AbstractTensor>();
-              const auto &target_tensor = target->as<AbstractTensor>();
-
-              SEQUANT_ASSERT(num_slots(current_tensor) ==
-                             num_slots(target_tensor));
-
-              auto current_slots = slots(current_tensor);
-              auto target_slots = slots(target_tensor);
-
-              container::map<Index, Index> replacements;
-              for (std::size_t i : index_mapping) {
-                if (target_slots[i] != current_slots[i]) {
-                  replacements[target_slots[i]] = current_slots[i];
-                }
-              }
-
-              repl = transform_expr(replacement, replacements);
-            }
-
-            current = std::move(repl);
-          }
-        },
-        /*only_atoms*/ true);
+    expr->visit(replace_if_match, /*only_atoms*/ true);
   }
 
   return expr;
-- 
2.43.0


From 56dbc50bbc41014ef24f8ef6fb9628c673c6719c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:16 +0000
Subject: [PATCH 64/75] fix: replace() in a result keeps the result's indices
 if they did not change

---
 SeQuant/core/utility/expr.hpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/SeQuant/core/utility/expr.hpp b/SeQuant/core/utility/expr.hpp
index 3d9c5d6..acd6826 100644
--- a/SeQuant/core/utility/expr.hpp
+++ b/SeQuant/core/utility/expr.hpp
@@ -186,15 +186,21 @@ ExprPtr &replace(ExprPtr &expr, const ExprPtr &target,
 template <typename EqualityComparator = std::equal_to<>>
 ResultExpr &replace(ResultExpr &expr, const ExprPtr &target,
                     const ExprPtr &replacement, EqualityComparator cmp = {}) {
+  auto to_sets = [](const IndexGroups<> &groups) {
+    return IndexGroups<IndexSet>{
+        .bra = IndexSet(groups.bra.begin(), groups.bra.end()),
+        .ket = IndexSet(groups.ket.begin(), groups.ket.end()),
+        .aux = IndexSet(groups.aux.begin(), groups.aux.end())};
+  };
+  const auto externals_before = to_sets(get_unique_indices(expr.expression()));
+
   replace(expr.expression(), target, replacement, cmp);
 
   // We have to check whether the external indices have been modified by the
   // replacement and if they did, adapt the indices in the result
   IndexGroups<> externals = get_unique_indices(expr.expression());
 
-  if (!std::ranges::equal(externals.bra, expr.bra()) ||
-      !std::ranges::equal(externals.ket, expr.ket()) ||
-      !std::ranges::equal(externals.aux, expr.aux())) {
+  if (to_sets(externals) != externals_before) {
     // Externals have changed -> update result
     // TODO: Is retaining result symmetry a reasonable thing to do? Generally
     // speaking, replacements could also change the result symmetry so in
-- 
2.43.0


From e17f9dfb1c33374d40fbb80812d026f39bde4293 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:16 +0000
Subject: [PATCH 65/75] fix: target indices of a subset include requested ones
 contracted within it

---
 SeQuant/core/utility/indices.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/SeQuant/core/utility/indices.hpp b/SeQuant/core/utility/indices.hpp
index f25b1ec..4fabd4a 100644
--- a/SeQuant/core/utility/indices.hpp
+++ b/SeQuant/core/utility/indices.hpp
@@ -842,7 +842,8 @@ auto subset_target_indices(meta::range_of<Index, 2> auto const& rng,
   for (size_t i = 0; i < result.size(); ++i) {
     if (connected && !(*connected)[i]) continue;  // pruned: result[i] unused
     for (auto&& [k, v] : counts[i])
-      if (v == 1 || (v > 0 && counts.at(counts.size() - i - 1).contains(k)))
+      if (v == 1 || (v > 0 && counts.at(counts.size() - i - 1).contains(k)) ||
+          ranges::contains(tixs, k))
         result[i].emplace(k);
   }
 
-- 
2.43.0


From da57009ef298fb8c5ec09241a74fd4bd68567cbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:46:54 +0000
Subject: [PATCH 66/75] fix: exceptions thrown in parallel loops reach the
 caller

An exception escaping a worker thread, or the calling thread before the
workers were joined, terminated the process.
---
 SeQuant/core/runtime.hpp | 45 +++++++++++++++++++---------------------
 1 file changed, 21 insertions(+), 24 deletions(-)

diff --git a/SeQuant/core/runtime.hpp b/SeQuant/core/runtime.hpp
index f3d62e1..ffd03f0 100644
--- a/SeQuant/core/runtime.hpp
+++ b/SeQuant/core/runtime.hpp
@@ -6,7 +6,9 @@
 #define SEQUANT_RUNTIME_HPP
 
 #include <cstdlib>
+#include <exception>
 #include <memory>
+#include <mutex>
 #include <thread>
 #include <utility>
 #include <vector>
@@ -19,7 +21,6 @@
 #include <execution>
 #else
 #include <atomic>
-#include <mutex>
 #endif
 
 namespace sequant {
@@ -61,16 +62,30 @@ inline int num_threads() { return detail::nthreads_accessor(); }
 /// @sa get_num_threads()
 template <typename Lambda>
 void parallel_do(Lambda&& lambda) {
-  std::vector<std::thread> threads;
+  std::exception_ptr error;
+  std::mutex error_mtx;
+  // an exception must not leave a thread, or the other threads unjoined
+  auto task = [&error, &error_mtx](auto& lambda, int thread_id) {
+    try {
+      lambda(thread_id);
+    } catch (...) {
+      std::scoped_lock<std::mutex> lock(error_mtx);
+      if (!error) error = std::current_exception();
+    }
+  };
+
   const auto nthreads = num_threads();
+  std::vector<std::thread> threads;
   for (int thread_id = 0; thread_id != nthreads; ++thread_id) {
     if (thread_id != nthreads - 1)
-      threads.push_back(std::thread(std::forward<Lambda>(lambda), thread_id));
+      threads.push_back(std::thread(
+          [task, lambda](int id) mutable { task(lambda, id); }, thread_id));
     else
-      std::forward<Lambda>(lambda)(thread_id);
+      task(lambda, thread_id);
   }  // threads_id
   for (int thread_id = 0; thread_id < nthreads - 1; ++thread_id)
     threads[thread_id].join();
+  if (error) std::rethrow_exception(error);
 }
 
 /// Parallel version of std::for_each , using either parallel C++ algorithms
@@ -106,16 +121,7 @@ void for_each(SizedRange& rng, const UnaryOp& op) {
     }
   };
 
-  const auto nthreads = num_threads();
-  std::vector<std::thread> threads;
-  for (int thread_id = 0; thread_id != nthreads; ++thread_id) {
-    if (thread_id != nthreads - 1)
-      threads.push_back(std::thread(task));
-    else
-      task();
-  }  // threads_id
-  for (int thread_id = 0; thread_id < nthreads - 1; ++thread_id)
-    threads[thread_id].join();
+  parallel_do([&task](int) { task(); });
 #endif
 }
 
@@ -160,16 +166,7 @@ T transform_reduce(SizedRange&& rng, T init, const BinaryReductionOp& reduce,
     }
   };
 
-  const auto nthreads = num_threads();
-  std::vector<std::thread> threads;
-  for (int thread_id = 0; thread_id != nthreads; ++thread_id) {
-    if (thread_id != nthreads - 1)
-      threads.push_back(std::thread(task));
-    else
-      task();
-  }  // threads_id
-  for (int thread_id = 0; thread_id < nthreads - 1; ++thread_id)
-    threads[thread_id].join();
+  parallel_do([&task](int) { task(); });
 
   return result;
 #endif
-- 
2.43.0


From 0014502991295f311090c59c9423458c7d13bfe5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:20:16 +0000
Subject: [PATCH 67/75] fix: TensorNetworkV1 fast canonicalization with named
 indices that label no edge

---
 SeQuant/core/tensor_network/v1.cpp | 21 +++++++++------------
 1 file changed, 9 insertions(+), 12 deletions(-)

diff --git a/SeQuant/core/tensor_network/v1.cpp b/SeQuant/core/tensor_network/v1.cpp
index cee3abc..eb49dda 100644
--- a/SeQuant/core/tensor_network/v1.cpp
+++ b/SeQuant/core/tensor_network/v1.cpp
@@ -399,18 +399,15 @@ ExprPtr TensorNetworkV1::canonicalize(
               return n1 > n2;
           });
 
-      // make index replacement list for anonymous indices only
-      const auto num_named_indices = named_indices.size();
-      std::for_each(
-          begin(idx_terminals_sorted) + num_named_indices,
-          end(idx_terminals_sorted),
-          [&idxrepl, &idxfac, &is_anonymous_index](const auto &terminals) {
-            const auto &idx = terminals.idx();
-            (void)is_anonymous_index;
-            assert(is_anonymous_index(
-                idx));  // should only encounter anonymous indices here
-            idxrepl.emplace(std::make_pair(idx, idxfac.make(idx)));
-          });
+      // make index replacement list for anonymous indices only; N.B. some of
+      // the named indices (e.g. pure protoindices) do not label any edge
+      std::for_each(begin(idx_terminals_sorted), end(idx_terminals_sorted),
+                    [&idxrepl, &idxfac, &is_anonymous_index](
+                        const auto &terminals) {
+                      const auto &idx = terminals.idx();
+                      if (is_anonymous_index(idx))
+                        idxrepl.emplace(std::make_pair(idx, idxfac.make(idx)));
+                    });
     }
   }  // canonical index replacement list computed
 
-- 
2.43.0


From fceda2d34096c22860d77dbaa86e044054184397 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:20:17 +0000
Subject: [PATCH 68/75] fix: auxiliary index range of normal operators is a
 valid empty range

---
 SeQuant/core/op.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/SeQuant/core/op.hpp b/SeQuant/core/op.hpp
index 5225429..c41348a 100644
--- a/SeQuant/core/op.hpp
+++ b/SeQuant/core/op.hpp
@@ -40,6 +40,7 @@
 #include <range/v3/range/primitives.hpp>
 #include <range/v3/view/concat.hpp>
 #include <range/v3/view/counted.hpp>
+#include <range/v3/view/empty.hpp>
 #include <range/v3/view/reverse.hpp>
 #include <range/v3/view/transform.hpp>
 
@@ -855,7 +856,8 @@ class NormalOperator : public Operator<S>,
                [](auto &&op) -> const Index & { return op.index(); });
   }
   AbstractTensor::const_any_view_randsz _aux() const override final {
-    return {};
+    // N.B. a default-constructed any_view has no end
+    return ranges::views::empty<const Index>;
   }
   AbstractTensor::const_any_view_rand _braket() const override final {
     return ranges::views::concat(annihilators(), creators()) |
@@ -945,7 +947,9 @@ class NormalOperator : public Operator<S>,
            ranges::views::transform(
                [](auto &&op) -> Index & { return op.index(); });
   }
-  AbstractTensor::any_view_randsz _aux_mutable() override final { return {}; }
+  AbstractTensor::any_view_randsz _aux_mutable() override final {
+    return ranges::views::empty<Index>;
+  }
 
   void _permute_aux(std::span<const std::size_t> perm) override final {
     if (perm.size() != 0)
-- 
2.43.0


From 76d60bf61e1a492a21445dc9d013597809ff41e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:20:17 +0000
Subject: [PATCH 69/75] fix: serialization of products without factors inside
 sums

---
 SeQuant/core/io/serialization/v1/serialize.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/SeQuant/core/io/serialization/v1/serialize.cpp b/SeQuant/core/io/serialization/v1/serialize.cpp
index ceef136..02a5239 100644
--- a/SeQuant/core/io/serialization/v1/serialize.cpp
+++ b/SeQuant/core/io/serialization/v1/serialize.cpp
@@ -166,6 +166,7 @@ std::wstring to_string(Product const& prod,
   std::wstring serialized;
 
   const auto& scal = prod.scalar();
+  if (prod.empty()) return details::serialize_scalar(scal, options);
   if (scal != Product::scalar_type{1}) {
     serialized += details::serialize_scalar(scal, options) + L" ";
   }
@@ -206,7 +207,7 @@ std::wstring to_string(Sum const& sum, const SerializationOptions& options) {
     if (parenthesize) {
       current_serialized = L"(" + current_serialized + L")";
     } else {
-      is_negative = current_serialized.front() == L'-';
+      is_negative = current_serialized.starts_with(L'-');
     }
 
     if (i > 0) {
-- 
2.43.0


From 3525b4c0714235e5b8a724535c7cbe172086dc9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:20:17 +0000
Subject: [PATCH 70/75] fix: spin annotation of null indices

---
 SeQuant/domain/mbpt/spin.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/SeQuant/domain/mbpt/spin.hpp b/SeQuant/domain/mbpt/spin.hpp
index b08c6c1..82c34f8 100644
--- a/SeQuant/domain/mbpt/spin.hpp
+++ b/SeQuant/domain/mbpt/spin.hpp
@@ -70,7 +70,7 @@ template <typename WS, typename = std::enable_if_t<
 std::wstring spinannotation_remove(WS&& label) {
   auto view = to_basic_string_view(label);
   SEQUANT_ASSERT(!ranges::contains(view, L'_'));
-  const auto has_annotation = view.back() == L'↑' || view.back() == L'↓';
+  const auto has_annotation = view.ends_with(L'↑') || view.ends_with(L'↓');
   return std::wstring{view.data(),
                       view.data() + view.size() - (has_annotation ? 1 : 0)};
 }
@@ -81,7 +81,7 @@ template <typename WS, typename = std::enable_if_t<
 std::wstring spinannotation_add(WS&& label, Spin s) {
   [[maybe_unused]] auto view = to_basic_string_view(label);
   SEQUANT_ASSERT(!ranges::contains(view, L'_'));
-  SEQUANT_ASSERT(view.back() != L'↑' && view.back() != L'↓');
+  SEQUANT_ASSERT(!view.ends_with(L'↑') && !view.ends_with(L'↓'));
   switch (s) {
     case Spin::any:
       return std::wstring(std::forward<WS>(label));
-- 
2.43.0


From 8104b9c47684e544d68b8fab82335be8ca21f1e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:20:17 +0000
Subject: [PATCH 71/75] fix: uninitialized members of bliss search nodes are
 not copied

---
 SeQuant/external/bliss/graph.cc | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/SeQuant/external/bliss/graph.cc b/SeQuant/external/bliss/graph.cc
index 298cf39..88f74ff 100644
--- a/SeQuant/external/bliss/graph.cc
+++ b/SeQuant/external/bliss/graph.cc
@@ -435,13 +435,13 @@ class TreeNode {
   static const char YES = 1;
 
   /* First path stuff */
-  bool fp_on;
-  bool fp_cert_equal;
-  char fp_extendable;
+  bool fp_on = false;
+  bool fp_cert_equal = false;
+  char fp_extendable = NO;
 
   /* Best path stuff */
-  bool in_best_path;
-  int cmp_to_best_path;
+  bool in_best_path = false;
+  int cmp_to_best_path = 0;
 
   unsigned int failure_recording_ival;
 
@@ -450,7 +450,7 @@ class TreeNode {
   unsigned int cr_cep_index;
   unsigned int cr_level;
 
-  bool needs_long_prune;
+  bool needs_long_prune = false;
   unsigned int long_prune_begin;
   std::set<unsigned int, std::less<unsigned int> > long_prune_redundant;
 
-- 
2.43.0


From a53c8377992dd38f853b38dfcc4017eb2f8e2c2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:06:24 +0000
Subject: [PATCH 72/75] fix: Singleton is safe to use from several threads

---
 SeQuant/core/utility/singleton.hpp | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/SeQuant/core/utility/singleton.hpp b/SeQuant/core/utility/singleton.hpp
index 306641e..7b9a5f6 100644
--- a/SeQuant/core/utility/singleton.hpp
+++ b/SeQuant/core/utility/singleton.hpp
@@ -6,6 +6,7 @@
 #define SEQUANT_CORE_UTILITY_SINGLETON_HPP
 
 #include <SeQuant/core/utility/exception.hpp>
+#include <atomic>
 #include <cassert>
 #include <memory>
 #include <mutex>
@@ -56,7 +57,7 @@ class Singleton {
   /// Derived is not default-constructible and set_instance() had not been
   /// called)
   static Derived& instance() {
-    const auto& result_ptr = instance_accessor();
+    auto* result_ptr = instance_ptr_accessor().load(std::memory_order_acquire);
     if (result_ptr != nullptr) return *result_ptr;
     if constexpr (derived_is_default_constructible) {
       return set_default_instance();
@@ -71,10 +72,10 @@ class Singleton {
   /// @return pointer to the instance, or nullptr if it has not yet been
   /// constructed
   static Derived* instance_ptr() {
-    const auto& result_ptr = instance_accessor();
-    if (result_ptr != nullptr) return result_ptr.get();
+    auto* result_ptr = instance_ptr_accessor().load(std::memory_order_acquire);
+    if (result_ptr != nullptr) return result_ptr;
     if constexpr (derived_is_default_constructible) {
-      return set_default_instance();
+      return &set_default_instance();
     } else
       return nullptr;
   }
@@ -98,6 +99,8 @@ class Singleton {
           "constructed");
     instance_accessor() = std::move(
         std::unique_ptr<Derived>(new Derived(std::forward<Args>(args)...)));
+    instance_ptr_accessor().store(instance_accessor().get(),
+                                  std::memory_order_release);
     return *instance_accessor();
   }
 
@@ -109,6 +112,11 @@ class Singleton {
     static std::unique_ptr<Derived> instance;
     return instance;
   }
+  // address of instance_accessor()'s object, can be read without locking
+  static auto& instance_ptr_accessor() {
+    static std::atomic<Derived*> ptr{nullptr};
+    return ptr;
+  }
   // provides mutex that controls access to instance_accessor()'s object
   static auto& instance_mutex() {
     static std::mutex mtx;
@@ -122,6 +130,8 @@ class Singleton {
     std::scoped_lock lock(instance_mutex());
     if (!instance_accessor()) {
       instance_accessor() = std::move(std::unique_ptr<Derived>(new Derived));
+      instance_ptr_accessor().store(instance_accessor().get(),
+                                    std::memory_order_release);
     }
     return *instance_accessor();
   }
-- 
2.43.0


From ec656c3c25ce6b3e0088b3edea514111a131635a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:06:24 +0000
Subject: [PATCH 73/75] fix: memoized base spaces of a registry are read under
 the lock

---
 SeQuant/core/index_space_registry.hpp | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/SeQuant/core/index_space_registry.hpp b/SeQuant/core/index_space_registry.hpp
index 6f2af21..dffda24 100644
--- a/SeQuant/core/index_space_registry.hpp
+++ b/SeQuant/core/index_space_registry.hpp
@@ -827,6 +827,7 @@ class IndexSpaceRegistry {
   /// @return (memoized) set of base IndexSpace::Type objects, sorted in
   /// increasing order
   const std::vector<IndexSpace::Type>& base_space_types() const {
+    std::scoped_lock guard{mtx_memoized_};
     if (!base_space_types_) {
       auto types = *spaces_ | ranges::views::transform([](const auto& s) {
         return s.type();
@@ -835,11 +836,8 @@ class IndexSpaceRegistry {
       // N.B. spaces with same type are not necessarily adjacent
       ranges::sort(types, [](auto t1, auto t2) { return t1 < t2; });
       types.erase(std::unique(types.begin(), types.end()), types.end());
-      std::scoped_lock guard{mtx_memoized_};
-      if (!base_space_types_) {
-        base_space_types_ =
-            std::make_shared<std::vector<IndexSpace::Type>>(std::move(types));
-      }
+      base_space_types_ =
+          std::make_shared<std::vector<IndexSpace::Type>>(std::move(types));
     }
     return *base_space_types_;
   }
@@ -851,6 +849,7 @@ class IndexSpaceRegistry {
   /// @return (memoized) set of base IndexSpace objects, sorted in the order of
   /// increasing type()
   const std::vector<IndexSpace>& base_spaces() const {
+    std::scoped_lock guard{mtx_memoized_};
     if (!base_spaces_) {
       auto spaces = *spaces_ | ranges::views::filter([this](const auto& s) {
         return this->is_base(s);
@@ -858,11 +857,8 @@ class IndexSpaceRegistry {
                     ranges::to_vector;
       ranges::sort(spaces,
                    [](auto s1, auto s2) { return s1.type() < s2.type(); });
-      std::scoped_lock guard{mtx_memoized_};
-      if (!base_spaces_) {
-        base_spaces_ =
-            std::make_shared<std::vector<IndexSpace>>(std::move(spaces));
-      }
+      base_spaces_ =
+          std::make_shared<std::vector<IndexSpace>>(std::move(spaces));
     }
     return *base_spaces_;
   }
-- 
2.43.0


From 92530aaa9d5aa4161ec1d8c4811da081bcc1853a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:24:45 +0000
Subject: [PATCH 74/75] fix: density fitting does not reuse auxiliary indices
 of the product

---
 SeQuant/domain/mbpt/rules/df.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/SeQuant/domain/mbpt/rules/df.cpp b/SeQuant/domain/mbpt/rules/df.cpp
index e32f99d..dfab533 100644
--- a/SeQuant/domain/mbpt/rules/df.cpp
+++ b/SeQuant/domain/mbpt/rules/df.cpp
@@ -6,6 +6,7 @@
 
 #include <SeQuant/core/expr.hpp>
 #include <SeQuant/core/space.hpp>
+#include <SeQuant/core/utility/indices.hpp>
 #include <SeQuant/core/utility/macros.hpp>
 
 #include <range/v3/range/operations.hpp>
@@ -81,10 +82,15 @@ ExprPtr density_fit(ExprPtr const& expr, IndexSpace aux_space,
 
     Product result;
     result.scale(prod.scalar());
+    // the new indices must differ from those the product has already
+    auto const used = get_used_indices(prod);
     size_t aux_ix = 0;
     for (auto&& f : prod.factors())
       if (f.is<Tensor>()) {
-        if (auto factorized = process_tensor(f->as<Tensor>(), ++aux_ix);
+        do
+          ++aux_ix;
+        while (used.contains(Index(aux_space, aux_ix)));
+        if (auto factorized = process_tensor(f->as<Tensor>(), aux_ix);
             factorized) {
           result.append(1, std::move(factorized), Product::Flatten::Yes);
         } else {
-- 
2.43.0


From 65508d45be849590bae507696a6cb3130306c316 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:24:46 +0000
Subject: [PATCH 75/75] fix: hypercontraction leaves used indices and tensors
 of other ranks alone

---
 SeQuant/domain/mbpt/rules/thc.cpp | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/SeQuant/domain/mbpt/rules/thc.cpp b/SeQuant/domain/mbpt/rules/thc.cpp
index 7fcfbf5..03f635c 100644
--- a/SeQuant/domain/mbpt/rules/thc.cpp
+++ b/SeQuant/domain/mbpt/rules/thc.cpp
@@ -6,6 +6,7 @@
 
 #include <SeQuant/core/expr.hpp>
 #include <SeQuant/core/space.hpp>
+#include <SeQuant/core/utility/indices.hpp>
 #include <SeQuant/core/utility/macros.hpp>
 
 #include <range/v3/range/operations.hpp>
@@ -51,6 +52,11 @@ ExprPtr tensor_hypercontract(ExprPtr const& expr, IndexSpace aux_space,
                              std::wstring_view core_tensor_label) {
   using ranges::views::transform;
 
+  auto is_target = [&](Tensor const& tensor) {
+    return tensor.label() == tensor_label && tensor.bra_net_rank() == 2 &&
+           tensor.ket_net_rank() == 2 && tensor.aux_rank() == 0;
+  };
+
   if (expr->is<Sum>())
     return ex<Sum>(*expr | transform([&](auto&& x) {
       return tensor_hypercontract(x, aux_space, tensor_label,
@@ -59,9 +65,7 @@ ExprPtr tensor_hypercontract(ExprPtr const& expr, IndexSpace aux_space,
 
   else if (expr->is<Tensor>()) {
     auto const& tensor = expr->as<Tensor>();
-    if (tensor.label() == tensor_label  //
-        && tensor.bra_rank() == 2       //
-        && tensor.ket_rank() == 2)
+    if (is_target(tensor))
       return tensor_hypercontract_impl(tensor, Index(aux_space, 1),
                                        Index(aux_space, 2), outer_factor_label,
                                        core_tensor_label);
@@ -72,12 +76,20 @@ ExprPtr tensor_hypercontract(ExprPtr const& expr, IndexSpace aux_space,
 
     Product result;
     result.scale(prod.scalar());
+    // the new indices must differ from those the product has already
+    auto const used = get_used_indices(prod);
     size_t aux_ix = 0;
+    auto next_index = [&]() {
+      do
+        ++aux_ix;
+      while (used.contains(Index(aux_space, aux_ix)));
+      return Index(aux_space, aux_ix);
+    };
     for (auto&& f : prod.factors()) {
-      if (f->is<Tensor>() && f->as<Tensor>().label() == tensor_label) {
+      if (f->is<Tensor>() && is_target(f->as<Tensor>())) {
         auto const& g = f->as<Tensor>();
-        auto index1 = Index(aux_space, ++aux_ix);
-        auto index2 = Index(aux_space, ++aux_ix);
+        auto index1 = next_index();
+        auto index2 = next_index();
         auto g_thc = tensor_hypercontract_impl(
             g, index1, index2, outer_factor_label, core_tensor_label);
         result.append(1, std::move(g_thc), Product::Flatten::Yes);
-- 
2.43.0

