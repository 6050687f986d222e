From 214f68cc24063239caf994dd6dbe37476186534d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:50 +0000
Subject: [PATCH 01/14] fix: do not declare functions that allocate noexcept

Allocation failure while building expressions, syntax trees or the control flow
graph terminated the process instead of reporting std::bad_alloc.
---
 components/core/wf/code_generation/ast_element.h    |  5 ++---
 .../core/wf/code_generation/control_flow_graph.cc   |  6 +++---
 .../core/wf/code_generation/control_flow_graph.h    |  6 +++---
 .../wf/code_generation/ir_control_flow_converter.cc |  2 +-
 components/core/wf/expression.h                     |  3 +--
 components/core/wf/expression_variant.h             | 13 ++++---------
 components/core/wf/numerical_casts.cc               |  4 ++--
 7 files changed, 16 insertions(+), 23 deletions(-)

diff --git a/components/core/wf/code_generation/ast_element.h b/components/core/wf/code_generation/ast_element.h
index 31f8b22..8b866ae 100644
--- a/components/core/wf/code_generation/ast_element.h
+++ b/components/core/wf/code_generation/ast_element.h
@@ -66,13 +66,12 @@ class ast_element {
 
   // Copy or move construct from an instance of type `T`.
   template <typename T, typename U = std::decay_t<T>, typename = enable_if_is_constructible_t<T>>
-  explicit ast_element(T&& value) noexcept(std::is_nothrow_constructible_v<U, decltype(value)>)
+  explicit ast_element(T&& value)
       : ptr_{std::make_shared<const model<U>>(std::forward<T>(value))} {}
 
   // In-place construct type `T` from `Args`.
   template <typename T, typename... Args, typename = enable_if_is_constructible_t<T>>
-  explicit ast_element(std::in_place_type_t<T>, Args&&... args) noexcept(
-      std::is_nothrow_constructible_v<T, decltype(args)...>)
+  explicit ast_element(std::in_place_type_t<T>, Args&&... args)
       : ptr_{std::make_shared<const model<T>>(std::in_place_t{}, std::forward<Args>(args)...)} {}
 
   // Return index indicating which type is stored.
diff --git a/components/core/wf/code_generation/control_flow_graph.cc b/components/core/wf/code_generation/control_flow_graph.cc
index d18b370..051b921 100644
--- a/components/core/wf/code_generation/control_flow_graph.cc
+++ b/components/core/wf/code_generation/control_flow_graph.cc
@@ -786,7 +786,7 @@ ir::block_ptr control_flow_graph::first_block() const {
   return ir::block_ptr{it->get()};
 }
 
-std::size_t control_flow_graph::count_function(const std_math_function enum_value) const noexcept {
+std::size_t control_flow_graph::count_function(const std_math_function enum_value) const {
   return accumulate_over_blocks([&](const ir::const_block_ptr blk) {
     return blk->count_operation(
         [&](const ir::call_std_function& func) { return func.name() == enum_value; });
@@ -803,13 +803,13 @@ struct count_muls_or_adds {
   }
 };
 
-std::size_t control_flow_graph::count_additions() const noexcept {
+std::size_t control_flow_graph::count_additions() const {
   return accumulate_over_blocks([](const ir::const_block_ptr blk) {
     return blk->count_operation(count_muls_or_adds<ir::add>{});
   });
 }
 
-std::size_t control_flow_graph::count_multiplications() const noexcept {
+std::size_t control_flow_graph::count_multiplications() const {
   return accumulate_over_blocks([](const ir::const_block_ptr blk) {
     return blk->count_operation(count_muls_or_adds<ir::mul>{});
   });
diff --git a/components/core/wf/code_generation/control_flow_graph.h b/components/core/wf/code_generation/control_flow_graph.h
index e018776..22973c3 100644
--- a/components/core/wf/code_generation/control_flow_graph.h
+++ b/components/core/wf/code_generation/control_flow_graph.h
@@ -66,13 +66,13 @@ class control_flow_graph {
   }
 
   // Count instances of a function call.
-  std::size_t count_function(std_math_function enum_value) const noexcept;
+  std::size_t count_function(std_math_function enum_value) const;
 
   // Count add operations.
-  std::size_t count_additions() const noexcept;
+  std::size_t count_additions() const;
 
   // Count multiplication operations.
-  std::size_t count_multiplications() const noexcept;
+  std::size_t count_multiplications() const;
 
   // Generate a summary of operations.
   operation_counts compute_operation_counts() const;
diff --git a/components/core/wf/code_generation/ir_control_flow_converter.cc b/components/core/wf/code_generation/ir_control_flow_converter.cc
index 00a0e15..4d513e7 100644
--- a/components/core/wf/code_generation/ir_control_flow_converter.cc
+++ b/components/core/wf/code_generation/ir_control_flow_converter.cc
@@ -139,7 +139,7 @@ void ir_control_flow_converter::queue_operands(std::deque<ir::value_ptr>& queue,
 static bool block_is_dominated_by(const ir::const_block_ptr test_block,
                                   const ir::const_block_ptr upstream_block,
                                   std::unordered_map<std::pair<std::size_t, std::size_t>, bool,
-                                                     hash_block_pair>& cache) noexcept {
+                                                     hash_block_pair>& cache) {
   if (test_block == upstream_block) {
     return true;
   }
diff --git a/components/core/wf/expression.h b/components/core/wf/expression.h
index 064307e..115b016 100644
--- a/components/core/wf/expression.h
+++ b/components/core/wf/expression.h
@@ -196,8 +196,7 @@ scalar_expr make_unique_variable_symbol(number_set set);
 
 // Create an `scalar_expr` with underlying type `T` and constructor args `Args`.
 template <typename T, typename... Args>
-scalar_expr make_expr(Args&&... args) noexcept(noexcept(scalar_expr{std::in_place_type_t<T>{},
-                                                                    std::forward<Args>(args)...})) {
+scalar_expr make_expr(Args&&... args) {
   return scalar_expr{std::in_place_type_t<T>{}, std::forward<Args>(args)...};
 }
 
diff --git a/components/core/wf/expression_variant.h b/components/core/wf/expression_variant.h
index 4ef8ee8..734276f 100644
--- a/components/core/wf/expression_variant.h
+++ b/components/core/wf/expression_variant.h
@@ -40,14 +40,12 @@ class expression_variant {
 
   // Copy or move construct from an instance of type `T`.
   template <typename T, typename U = std::decay_t<T>, typename = enable_if_is_constructible_t<T>>
-  explicit expression_variant(T&& value) noexcept(
-      std::is_nothrow_constructible_v<U, decltype(value)>)
+  explicit expression_variant(T&& value)
       : ptr_(std::make_shared<const model<U>>(std::forward<T>(value))) {}
 
   // In-place construct type `T` from `Args`.
   template <typename T, typename... Args, typename = enable_if_is_constructible_t<T>>
-  explicit expression_variant(std::in_place_type_t<T>, Args&&... args) noexcept(
-      std::is_nothrow_constructible_v<T, decltype(args)...>)
+  explicit expression_variant(std::in_place_type_t<T>, Args&&... args)
       : ptr_(std::make_shared<const model<T>>(std::in_place_t{}, std::forward<Args>(args)...)) {}
 
   // Return index indicating which type is stored.
@@ -185,14 +183,11 @@ class expression_base {
 
   // Construct from anything that can be fed into `storage_type`.
   template <typename T, typename = enable_if_is_constructible_t<T>>
-  explicit expression_base(T&& arg) noexcept(
-      std::is_nothrow_constructible_v<storage_type, decltype(arg)>)
-      : impl_(std::forward<T>(arg)) {}
+  explicit expression_base(T&& arg) : impl_(std::forward<T>(arg)) {}
 
   // In-place construction with type `T`:
   template <typename T, typename... Args, typename = enable_if_is_constructible_t<T>>
-  explicit expression_base(std::in_place_type_t<T>, Args&&... args) noexcept(
-      std::is_nothrow_constructible_v<storage_type, std::in_place_type_t<T>, decltype(args)...>)
+  explicit expression_base(std::in_place_type_t<T>, Args&&... args)
       : impl_(std::in_place_type_t<T>{}, std::forward<Args>(args)...) {}
 
   // Construct from expression storage.
diff --git a/components/core/wf/numerical_casts.cc b/components/core/wf/numerical_casts.cc
index dcc3e37..c13f18f 100644
--- a/components/core/wf/numerical_casts.cc
+++ b/components/core/wf/numerical_casts.cc
@@ -22,7 +22,7 @@ struct convert_to_complex_visitor {
     return std::nullopt;
   }
 
-  std::optional<complex_double> operator()(const addition& add) const noexcept {
+  std::optional<complex_double> operator()(const addition& add) const {
     if (add.size() != 2) {
       // We only care about additions of the form: a + i*b
       return std::nullopt;
@@ -56,7 +56,7 @@ struct convert_to_complex_visitor {
   }
 
   std::optional<complex_double> operator()(const multiplication& mul,
-                                           const scalar_expr& mul_abstract) const noexcept {
+                                           const scalar_expr& mul_abstract) const {
     if (mul.size() != 2) {
       // We only care about multiplications of the form: v * i
       return std::nullopt;
-- 
2.43.0


From 0b5b1fa44e4937ff11445b31a84a1a4e40ebbeed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:16 +0000
Subject: [PATCH 02/14] fix: leave the function description unchanged when a
 declaration fails

A declaration interrupted by an exception (for example std::bad_alloc) recorded the
argument or return type without its value.
---
 .../code_generation/function_description.cc   | 37 ++++++++++++-------
 .../wf/code_generation/function_description.h |  2 +-
 2 files changed, 25 insertions(+), 14 deletions(-)

diff --git a/components/core/wf/code_generation/function_description.cc b/components/core/wf/code_generation/function_description.cc
index 7673087..aa34228 100644
--- a/components/core/wf/code_generation/function_description.cc
+++ b/components/core/wf/code_generation/function_description.cc
@@ -5,7 +5,7 @@
 
 namespace wf {
 
-function_description::function_description(std::string name) noexcept
+function_description::function_description(std::string name)
     : impl_(std::make_shared<impl>(std::move(name))) {}
 
 const any_expression& function_description::find_output_expressions(const output_key& key) const {
@@ -16,19 +16,23 @@ const any_expression& function_description::find_output_expressions(const output
 }
 
 scalar_expr function_description::add_input_argument(std::string_view name, scalar_type type) {
-  const argument& arg = add_argument(name, type, argument_direction::input);
-  return detail::create_function_input(type, arg.name());
+  // Create the expression first, so that nothing is recorded if this fails.
+  scalar_expr input = detail::create_function_input(type, name);
+  add_argument(name, type, argument_direction::input);
+  return input;
 }
 
 matrix_expr function_description::add_input_argument(std::string_view name, matrix_type type) {
-  const argument& arg = add_argument(name, type, argument_direction::input);
-  return detail::create_function_input(type, arg.name());
+  matrix_expr input = detail::create_function_input(type, name);
+  add_argument(name, type, argument_direction::input);
+  return input;
 }
 
 compound_expr function_description::add_input_argument(std::string_view name,
                                                        const custom_type& type) {
-  const argument& arg = add_argument(name, type, argument_direction::input);
-  return detail::create_function_input(type, arg.name());
+  compound_expr input = detail::create_function_input(type, name);
+  add_argument(name, type, argument_direction::input);
+  return input;
 }
 
 void function_description::add_output_argument(const std::string_view name, type_variant type,
@@ -36,20 +40,27 @@ void function_description::add_output_argument(const std::string_view name, type
   add_argument(name, std::move(type),
                is_optional ? argument_direction::optional_output : argument_direction::output);
 
-  impl_->output_expressions.emplace(
-      output_key{is_optional ? expression_usage::optional_output_argument
-                             : expression_usage::output_argument,
-                 name},
-      std::move(expression));
+  try {
+    impl_->output_expressions.emplace(
+        output_key{is_optional ? expression_usage::optional_output_argument
+                               : expression_usage::output_argument,
+                   name},
+        std::move(expression));
+  } catch (...) {
+    // Don't leave behind an output argument that has no value.
+    impl_->arguments.pop_back();
+    throw;
+  }
 }
 
 // ReSharper disable once CppMemberFunctionMayBeConst
 void function_description::set_return_value(type_variant type, any_expression expression) {
   WF_ASSERT(!impl_->return_value_type.has_value(), "Return value on function `{}` already set.",
             name());
-  impl_->return_value_type = std::move(type);
+  // Insert the expression first, so that the type is not recorded if this fails.
   impl_->output_expressions.emplace(output_key{expression_usage::return_value, ""},
                                     std::move(expression));
+  impl_->return_value_type = std::move(type);
 }
 
 // ReSharper disable once CppMemberFunctionMayBeConst
diff --git a/components/core/wf/code_generation/function_description.h b/components/core/wf/code_generation/function_description.h
index 0e3880c..1557264 100644
--- a/components/core/wf/code_generation/function_description.h
+++ b/components/core/wf/code_generation/function_description.h
@@ -21,7 +21,7 @@ class variable_creator;  //  Fwd declare.
 class function_description {
  public:
   // Construct with the name of the function.
-  explicit function_description(std::string name) noexcept;
+  explicit function_description(std::string name);
 
   // Get function name.
   const std::string& name() const noexcept { return impl_->name; }
-- 
2.43.0


From b8199c9f9626fba7ef965b55d9e4a0bf7226d462 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:16 +0000
Subject: [PATCH 03/14] fix: measure trace scopes with a monotonic clock

std::chrono::high_resolution_clock is the system clock in libstdc++: when it is stepped,
scopes were written with negative durations or outside of their enclosing scope.
---
 components/core/wf/utility/scoped_trace.cc | 2 +-
 components/core/wf/utility/scoped_trace.h  | 5 +++--
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/components/core/wf/utility/scoped_trace.cc b/components/core/wf/utility/scoped_trace.cc
index 4dad07d..0571c1d 100644
--- a/components/core/wf/utility/scoped_trace.cc
+++ b/components/core/wf/utility/scoped_trace.cc
@@ -132,7 +132,7 @@ static auto cast_time(const T& dur) {
 }
 
 scoped_trace::~scoped_trace() {
-  const auto end = std::chrono::high_resolution_clock::now();
+  const auto end = std::chrono::steady_clock::now();
   if (std::uncaught_exceptions() > 0) {
     return;
   }
diff --git a/components/core/wf/utility/scoped_trace.h b/components/core/wf/utility/scoped_trace.h
index 0554915..b1092c1 100644
--- a/components/core/wf/utility/scoped_trace.h
+++ b/components/core/wf/utility/scoped_trace.h
@@ -71,7 +71,7 @@ class trace_collector {
 class scoped_trace {
  public:
   explicit scoped_trace(const std::string_view name) noexcept
-      : name_(name), start_(std::chrono::high_resolution_clock::now()) {}
+      : name_(name), start_(std::chrono::steady_clock::now()) {}
   ~scoped_trace();
 
   // non-copyable and non-moveable
@@ -82,7 +82,8 @@ class scoped_trace {
 
  private:
   std::string_view name_;
-  std::chrono::high_resolution_clock::time_point start_;
+  // A monotonic clock, so that stepping the system time does not affect the trace.
+  std::chrono::steady_clock::time_point start_;
 };
 
 }  // namespace wf
-- 
2.43.0


From fa7523d2d28fbba4800648cfe84d85df391c20c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:37 +0000
Subject: [PATCH 04/14] fix: record trace scopes that complete during stack
 unwinding

A scope entered and completed normally inside a destructor that runs because of an
exception was dropped from the trace.
---
 components/core/wf/utility/scoped_trace.cc | 3 ++-
 components/core/wf/utility/scoped_trace.h  | 7 ++++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/components/core/wf/utility/scoped_trace.cc b/components/core/wf/utility/scoped_trace.cc
index 0571c1d..690d0b1 100644
--- a/components/core/wf/utility/scoped_trace.cc
+++ b/components/core/wf/utility/scoped_trace.cc
@@ -133,7 +133,8 @@ static auto cast_time(const T& dur) {
 
 scoped_trace::~scoped_trace() {
   const auto end = std::chrono::steady_clock::now();
-  if (std::uncaught_exceptions() > 0) {
+  if (std::uncaught_exceptions() > exceptions_) {
+    // The scope is being left by an exception.
     return;
   }
   if (trace_collector* const collector = trace_collector::get_instance(); collector != nullptr) {
diff --git a/components/core/wf/utility/scoped_trace.h b/components/core/wf/utility/scoped_trace.h
index b1092c1..dcb5819 100644
--- a/components/core/wf/utility/scoped_trace.h
+++ b/components/core/wf/utility/scoped_trace.h
@@ -3,6 +3,7 @@
 // For license information refer to accompanying LICENSE file.
 #pragma once
 #include <chrono>
+#include <exception>
 #include <memory>
 #include <string_view>
 
@@ -71,7 +72,9 @@ class trace_collector {
 class scoped_trace {
  public:
   explicit scoped_trace(const std::string_view name) noexcept
-      : name_(name), start_(std::chrono::steady_clock::now()) {}
+      : name_(name),
+        start_(std::chrono::steady_clock::now()),
+        exceptions_(std::uncaught_exceptions()) {}
   ~scoped_trace();
 
   // non-copyable and non-moveable
@@ -84,6 +87,8 @@ class scoped_trace {
   std::string_view name_;
   // A monotonic clock, so that stepping the system time does not affect the trace.
   std::chrono::steady_clock::time_point start_;
+  // Number of exceptions in flight when the scope was entered.
+  int exceptions_;
 };
 
 }  // namespace wf
-- 
2.43.0


From e9dbaf2d6bea44158dc01ff97e176a2a1604b427 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:54 +0000
Subject: [PATCH 05/14] fix: failing to record or write a trace does not
 terminate the program

---
 components/core/wf/utility/scoped_trace.cc | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/components/core/wf/utility/scoped_trace.cc b/components/core/wf/utility/scoped_trace.cc
index 690d0b1..eb3cf15 100644
--- a/components/core/wf/utility/scoped_trace.cc
+++ b/components/core/wf/utility/scoped_trace.cc
@@ -100,7 +100,11 @@ trace_collector::~trace_collector() {
     // Don't do anything that could throw if exceptions are in flight.
     return;
   }
-  write_traces();
+  try {
+    write_traces();
+  } catch (...) {
+    // Failing to write the trace must not terminate the program.
+  }
 }
 
 void trace_collector::submit_event(trace_event event) {
@@ -137,7 +141,9 @@ scoped_trace::~scoped_trace() {
     // The scope is being left by an exception.
     return;
   }
-  if (trace_collector* const collector = trace_collector::get_instance(); collector != nullptr) {
+  try {
+    trace_collector* const collector = trace_collector::get_instance();
+
     // Our events are "complete" events, so we compute the `dur` field.
     const std::int64_t duration_nanos = cast_time<std::chrono::nanoseconds>(end - start_);
     const std::int64_t start_micros =
@@ -149,6 +155,8 @@ scoped_trace::~scoped_trace() {
 
     const thread_local pid_and_tid ids{};
     collector->submit_event(trace_event{name_, start_micros, ids.pid, ids.tid, duration_nanos});
+  } catch (...) {
+    // Failing to record the event must not terminate the program.
   }
 }
 
-- 
2.43.0


From 7781789e4fb76a17aea689c4b847166a865f8e1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:54 +0000
Subject: [PATCH 06/14] fix: do not silently drop comment lines when allocating
 fails

---
 components/core/wf/code_generation/ast.cc | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/components/core/wf/code_generation/ast.cc b/components/core/wf/code_generation/ast.cc
index 10e9360..53d1db2 100644
--- a/components/core/wf/code_generation/ast.cc
+++ b/components/core/wf/code_generation/ast.cc
@@ -3,19 +3,21 @@
 // For license information refer to accompanying LICENSE file.
 #include "wf/code_generation/ast.h"
 
+#include <algorithm>
 #include <regex>
-#include <sstream>
 
 namespace wf::ast {
 
 std::vector<std::string> comment::split_lines() const {
   // Remove windows carriage return.
   const std::string content_no_cr = std::regex_replace(content, std::regex("\r\n"), "\n");
-  std::stringstream stream{content_no_cr};
 
+  // Not using std::getline, which reports failing to allocate as end of input.
   std::vector<std::string> lines;
-  for (std::string line; std::getline(stream, line, '\n');) {
-    lines.push_back(std::move(line));
+  for (std::size_t start = 0; start < content_no_cr.size();) {
+    const std::size_t end = std::min(content_no_cr.find('\n', start), content_no_cr.size());
+    lines.push_back(content_no_cr.substr(start, end - start));
+    start = end + 1;
   }
   return lines;
 }
-- 
2.43.0


From f4ee285b34af88808e047a2cd85e0629eac97452 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:00 +0000
Subject: [PATCH 07/14] fix: substitution does not search the replacement it
 just inserted

A partial match of a sum, product or power was replaced, and then the children of
the result were searched again, including those of the replacement. When the
replacement contains the target below its top level, substitution never ended.
---
 components/core/wf/substitute.cc | 80 ++++++++++++++------------------
 1 file changed, 35 insertions(+), 45 deletions(-)

diff --git a/components/core/wf/substitute.cc b/components/core/wf/substitute.cc
index 23f7a47..5075d1b 100644
--- a/components/core/wf/substitute.cc
+++ b/components/core/wf/substitute.cc
@@ -48,22 +48,13 @@ struct substitute_visitor_base {
       }
 
       if constexpr (Derived::performs_partial_substitution) {
-        // The derived type supports looking for partial matches, so try that:
-        scalar_expr partial_sub =
-            static_cast<Derived&>(*this).attempt_partial(input_expression, other);
-
-        // Irrespective of whether that succeeded, one of the children may still contain the
-        // expression we are searching for as well:
-        return visit(partial_sub, [this, &partial_sub](const auto& arg) {
-          using T = std::decay_t<decltype(arg)>;
-          if constexpr (T::is_leaf_node) {
-            // This type has no children, so return the input expression unmodified:
-            return partial_sub;
-          } else {
-            // This type does have children, so apply to all of them:
-            return arg.map_children(static_cast<Derived&>(*this));
-          }
-        });
+        // The derived type supports looking for partial matches, so try that. This also substitutes
+        // in the part of the input that remains when the target has been removed:
+        if (std::optional<scalar_expr> partial_sub =
+                static_cast<Derived&>(*this).attempt_partial(other);
+            partial_sub.has_value()) {
+          return *std::move(partial_sub);
+        }
       }
     }
     // If these expressions don't match, and the target has no sub-expressions, we can stop here.
@@ -100,8 +91,7 @@ struct substitute_add_visitor
   substitute_add_visitor(const addition& target, const scalar_expr& replacement)
       : substitute_visitor_base(target, replacement), target_parts(target) {}
 
-  scalar_expr attempt_partial(const scalar_expr& input_expression,
-                              const addition& candidate) const {
+  std::optional<scalar_expr> attempt_partial(const addition& candidate) {
     // Create map representation for the input:
     addition_parts input_parts{candidate};
 
@@ -109,7 +99,7 @@ struct substitute_add_visitor
       if (input_parts.coeff != target_parts.coeff) {
         // Don't allow substitutions that perform float operations.
         // (Unless the float coefficients match exactly, then we allow it.)
-        return input_expression;
+        return std::nullopt;
       } else {
         // The float components match, so subtract it out and proceed w/ the rest of the
         // replacement:
@@ -122,7 +112,7 @@ struct substitute_add_visitor
       auto it = input_parts.terms.find(target_mul);
       if (it == input_parts.terms.end() || !it->second.is_identical_to(target_coeff)) {
         // One of the terms in the target is missing in the input, so we can't substitute:
-        return input_expression;
+        return std::nullopt;
       }
       input_parts.terms.erase(it);  //  Remove it from the input.
     }
@@ -132,9 +122,9 @@ struct substitute_add_visitor
       input_parts.add_terms(-std::visit([](auto x) { return scalar_expr(x); }, target_parts.coeff));
     }
 
-    // Add in the replacement and build a new addition:
-    input_parts.add_terms(replacement_);
-    return input_parts.create_addition();
+    // Substitute in the terms that remain, then add in the replacement. The replacement itself is
+    // not searched, since it may contain the target.
+    return operator()(input_parts.create_addition()) + replacement_;
   }
 
  private:
@@ -151,8 +141,7 @@ struct substitute_mul_visitor
   substitute_mul_visitor(const multiplication& target, const scalar_expr& replacement)
       : substitute_visitor_base(target, replacement), target_parts(target, true) {}
 
-  scalar_expr attempt_partial(const scalar_expr& input_expression,
-                              const multiplication& candidate) const {
+  std::optional<scalar_expr> attempt_partial(const multiplication& candidate) {
     // Take this multiplication and break it into constituent parts.
     // TODO: Should we just store multiplications pre-factored in this format?
     multiplication_parts input_parts{candidate, true};
@@ -161,7 +150,7 @@ struct substitute_mul_visitor
       if (input_parts.coeff() != target_parts.coeff()) {
         // Don't allow substitutions that perform float operations.
         // (Unless the float coefficients match exactly, then we allow it.)
-        return input_expression;
+        return std::nullopt;
       } else {
         // The float components match, so divide it out and proceed w/ the rest of the replacement:
         input_parts.coeff() = integer_constant{1};
@@ -174,7 +163,7 @@ struct substitute_mul_visitor
     for (const auto& [base, exponent] : target_parts.terms()) {
       const auto it = input_parts.terms().find(base);
       if (it == input_parts.terms().end()) {
-        return input_expression;
+        return std::nullopt;
       }
 
       // See how many times we can divide term into the target expression
@@ -201,27 +190,26 @@ struct substitute_mul_visitor
         }
       } else {
         // If we can't get an integer multiple, this division won't work.
-        return input_expression;
+        return std::nullopt;
       }
     }
 
     // Deduct the replaced expression from the input:
     const integer_constant max_valid_exponent = max_valid_integer_exponent.value();
+    if (max_valid_exponent.is_zero()) {
+      return std::nullopt;
+    }
     for (const auto& [base, exponent] : target_parts.terms()) {
       auto it = input_parts.terms().find(base);
       WF_ASSERT(it != input_parts.terms().end());
       it->second = it->second - (exponent * max_valid_exponent.value());
     }
 
-    // Insert the replacement
-    const scalar_expr replacement_exp(max_valid_exponent);
-    if (const auto [it, was_inserted] = input_parts.terms().emplace(replacement_, replacement_exp);
-        !was_inserted) {
-      it->second = it->second + replacement_exp;
-    }
-
+    // Substitute in the terms that remain, then multiply by the replacement. The replacement itself
+    // is not searched, since it may contain the target.
     input_parts.normalize_coefficients();
-    return std::move(input_parts).create_multiplication();
+    return operator()(std::move(input_parts).create_multiplication()) *
+           power::create(replacement_, max_valid_exponent.value());
   }
 
  protected:
@@ -238,14 +226,14 @@ struct substitute_pow_visitor
   substitute_pow_visitor(const power& target, const scalar_expr& replacement)
       : substitute_visitor_base(target, replacement) {}
 
-  scalar_expr attempt_partial(const scalar_expr& input_expression, const power& candidate) const {
+  std::optional<scalar_expr> attempt_partial(const power& candidate) {
     const scalar_expr& target_base = target_.base();
     const scalar_expr& target_exponent = target_.exponent();
     const scalar_expr& candidate_base = candidate.base();
 
     // If the bases don't match, there can't be a valid substitution:
     if (!target_base.is_identical_to(candidate_base)) {
-      return input_expression;
+      return std::nullopt;
     }
 
     // If the exponent is an addition, it might contain a multiple of our target exponent.
@@ -265,22 +253,23 @@ struct substitute_pow_visitor
           parts.terms.erase(it);
           // Put the exponent back together and swap in the replacement:
           scalar_expr new_exponent = parts.create_addition();
-          return power::create(replacement_, ratio) * power::create(candidate_base, new_exponent);
+          return power::create(replacement_, ratio) * operator()(power::create(candidate_base,
+                                                                               new_exponent));
         } else if (const rational_constant* const as_rational =
                        get_if<const rational_constant>(ratio);
                    as_rational != nullptr) {
           const auto [int_part, _] = as_rational->normalized();
           if (int_part.is_zero()) {
             // If int_part is zero, the rest of this logic just wastes time.
-            return input_expression;
+            return std::nullopt;
           }
           // Subtract the integer part from the exponent.
           // For example, this would handle the replacement:
           // x**(4/3*y + z) replacing [x**y -> w] producing w * x**(1/3y + z)
           it->second = it->second - target_exp_coeff * int_part.value();
           scalar_expr new_exponent = parts.create_addition();
-          return power::create(replacement_, int_part.value()) *
-                 power::create(candidate_base, new_exponent);
+          return power::create(replacement_, int_part.value()) * operator()(power::create(
+                                                                     candidate_base, new_exponent));
         }
       }
     } else {
@@ -296,14 +285,15 @@ struct substitute_pow_visitor
         const auto [int_part, frac_remainder] = as_rational->normalized();
         if (int_part.is_zero()) {
           // Can't do a full division
-          return input_expression;
+          return std::nullopt;
         }
         return power::create(replacement_, int_part.value()) *
-               power::create(candidate_base, target_exponent * scalar_expr(frac_remainder));
+               operator()(
+                   power::create(candidate_base, target_exponent * scalar_expr(frac_remainder)));
       }
     }
 
-    return input_expression;
+    return std::nullopt;
   }
 };
 
-- 
2.43.0


From 518a450aa68133968f5a6d9ebd64d06663c124c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:24 +0000
Subject: [PATCH 08/14] fix: keep syntax trees alive while spans and iterators
 over them exist; return arguments by value

---
 components/wrapper/pywrenfold/ast_wrapper.cc    | 17 +++++++++--------
 .../wrapper/pywrenfold/codegen_wrapper.cc       |  8 +++++++-
 2 files changed, 16 insertions(+), 9 deletions(-)

diff --git a/components/wrapper/pywrenfold/ast_wrapper.cc b/components/wrapper/pywrenfold/ast_wrapper.cc
index 86b58a0..35c44e0 100644
--- a/components/wrapper/pywrenfold/ast_wrapper.cc
+++ b/components/wrapper/pywrenfold/ast_wrapper.cc
@@ -121,7 +121,8 @@ void wrap_ast(py::module_& m) {
           "__iter__",
           [](const ast_element_span& self) {
             return py::make_iterator(py::type<ast_element_span>(), "iterator",
-                                     ast_span_iterator::begin(self), ast_span_iterator::end(self));
+                                     ast_span_iterator::begin(self), ast_span_iterator::end(self),
+                                     py::keep_alive<0, 1>());
           },
           py::keep_alive<0, 1>())
       .def(
@@ -193,18 +194,17 @@ void wrap_ast(py::module_& m) {
                    "Condition governing which branch to take.")
       .def_prop_ro(
           "if_branch", [](const ast::branch& c) -> ast_element_span { return c.if_branch; },
-          py::rv_policy::reference_internal, "Statements that evaluate when the condition is true.")
+          py::keep_alive<0, 1>(), "Statements that evaluate when the condition is true.")
       .def_prop_ro(
           "else_branch", [](const ast::branch& c) -> ast_element_span { return c.else_branch; },
-          py::rv_policy::reference_internal,
-          "Statements that evaluate when the condition is false.")
+          py::keep_alive<0, 1>(), "Statements that evaluate when the condition is false.")
       .doc() = "Emit an if-else statement: ``if (condition) { ... } else { ... }``";
 
   map.at<ast::call_external_function>()
       .def_prop_ro("function", [](const ast::call_external_function& c) { return c.function; })
       .def_prop_ro(
           "args", [](const ast::call_external_function& c) -> ast_element_span { return c.args; },
-          py::rv_policy::reference_internal)
+          py::keep_alive<0, 1>())
       .doc() = "Invoke a user-provided external function.";
 
   map.at<ast::call_std_function>()
@@ -213,7 +213,7 @@ void wrap_ast(py::module_& m) {
           "The function being invoked.")
       .def_prop_ro(
           "args", [](const ast::call_std_function& c) -> ast_element_span { return c.args; },
-          py::rv_policy::reference_internal, "Arguments to the function.")
+          py::keep_alive<0, 1>(), "Arguments to the function.")
       .doc() = "Invoke a standard library math function.";
 
   map.at<ast::cast>()
@@ -246,7 +246,7 @@ void wrap_ast(py::module_& m) {
           "Describe dimensions of the matrix.")
       .def_prop_ro(
           "args", [](const ast::construct_matrix& c) -> ast_element_span { return c.args; },
-          py::rv_policy::reference_internal, "Contents of the matrix, in row-major order.")
+          py::keep_alive<0, 1>(), "Contents of the matrix, in row-major order.")
       .doc() = "Construct a matrix from a list of statements.";
 
   map.at<ast::construct_custom_type>()
@@ -349,6 +349,7 @@ void wrap_ast(py::module_& m) {
           [](const ast::optional_output_branch& self) -> ast_element_span {
             return self.statements;
           },
+          py::keep_alive<0, 1>(),
           "Statements that are relevant when the optional argument is present.")
       .doc() =
       "Conditionally assign values to an optional output argument: ``if (<argument exists>) { ... "
@@ -400,7 +401,7 @@ void wrap_ast(py::module_& m) {
       .def_prop_ro(
           "body",
           [](const ast::function_definition& self) -> ast_element_span { return self.body(); },
-          "Statements that make up the body of the function.", py::rv_policy::reference_internal)
+          "Statements that make up the body of the function.", py::keep_alive<0, 1>())
       .doc() =
       "Define a generated function. This is the top level object of the emitted syntax tree.";
 }
diff --git a/components/wrapper/pywrenfold/codegen_wrapper.cc b/components/wrapper/pywrenfold/codegen_wrapper.cc
index 2684ecd..cb80781 100644
--- a/components/wrapper/pywrenfold/codegen_wrapper.cc
+++ b/components/wrapper/pywrenfold/codegen_wrapper.cc
@@ -148,7 +148,13 @@ void wrap_codegen_operations(py::module_& m) {
   py::class_<function_description>(m, "FunctionDescription")
       .def(py::init<std::string>(), py::arg("name"), "Construct with function name.")
       .def_prop_ro("name", &function_description::name, "Name of the function.")
-      .def_prop_ro("arguments", &function_description::arguments, "Arguments to the function.")
+      .def_prop_ro(
+          "arguments",
+          // Returned by value: adding an argument may move the elements of the internal vector.
+          [](const function_description& self) -> std::vector<argument> {
+            return self.arguments();
+          },
+          "Arguments to the function.")
       .def("__repr__",
            [](const function_description& self) {
              return fmt::format("FunctionDescription('{}', {} args)", self.name(),
-- 
2.43.0


From daa50525d3ab0936ef94fd589a845c7cd0b03b53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:24 +0000
Subject: [PATCH 09/14] fix: count the recursion of formatting overrides
 separately for each thread

---
 .../pywrenfold/code_formatting_wrapper.cc     | 30 ++++++++++++++-----
 1 file changed, 23 insertions(+), 7 deletions(-)

diff --git a/components/wrapper/pywrenfold/code_formatting_wrapper.cc b/components/wrapper/pywrenfold/code_formatting_wrapper.cc
index 962e663..2413b64 100644
--- a/components/wrapper/pywrenfold/code_formatting_wrapper.cc
+++ b/components/wrapper/pywrenfold/code_formatting_wrapper.cc
@@ -1,6 +1,12 @@
 // wrenfold symbolic code generator.
 // Copyright (c) 2024 Gareth Cross
 // For license information refer to accompanying LICENSE file.
+#include <map>
+#include <thread>
+#include <typeindex>
+#include <unordered_map>
+#include <utility>
+
 #include <nanobind/nanobind.h>
 #include <nanobind/stl/function.h>
 #include <nanobind/stl/string.h>
@@ -169,8 +175,9 @@ class wrapped_generator : public Base {
   // exists.
   mutable std::unordered_map<std::type_index, bool> has_override_;
 
-  // Store the recursion count for each type.
-  using recursion_counters = std::unordered_map<std::type_index, int32_t>;
+  // Store the recursion count for each type. Formatting callbacks may run on several threads (the
+  // interpreter can switch threads inside a callback), so each thread has its own counts.
+  using recursion_counters = std::map<std::pair<std::thread::id, std::type_index>, int32_t>;
   mutable recursion_counters recursions_;
 
   // Because we know the ast tree is not very deep, we can catch infinite recursions by counting
@@ -180,21 +187,30 @@ class wrapped_generator : public Base {
    public:
     template <typename T>
     explicit recursion_guard(recursion_counters& counters, const T&)
-        : counter_(counters[typeid(T)]) {
-      if (constexpr std::int32_t max_recursions = 32; counter_ + 1 == max_recursions) {
+        : counters_(counters),
+          it_(counters.try_emplace({std::this_thread::get_id(), typeid(T)}, 0).first) {
+      if (constexpr std::int32_t max_recursions = 32; it_->second + 1 == max_recursions) {
         throw std::runtime_error(
             fmt::format("Recursed {} times while formatting type `{}`. It is possible that a "
                         "formatting override specified in python is calling itself indirectly. "
                         "Instead of calling format(), you likely intended to call super_format().",
                         max_recursions, ast::camel_case_name<T>()));
       }
-      ++counter_;
+      ++it_->second;
+    }
+
+    ~recursion_guard() {
+      if (--it_->second == 0) {
+        counters_.erase(it_);
+      }
     }
 
-    ~recursion_guard() { counter_ = std::max(counter_ - 1, 0); }
+    recursion_guard(const recursion_guard&) = delete;
+    recursion_guard& operator=(const recursion_guard&) = delete;
 
    private:
-    std::int32_t& counter_;
+    recursion_counters& counters_;
+    recursion_counters::iterator it_;
   };
 };
 
-- 
2.43.0


From f6667779388669f3a050aff0c88e573b3e2378c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:24 +0000
Subject: [PATCH 10/14] fix: do not fail when another writer creates the parent
 directory first

---
 components/python/wrenfold/code_generation.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/components/python/wrenfold/code_generation.py b/components/python/wrenfold/code_generation.py
index 740b2a8..d608e44 100644
--- a/components/python/wrenfold/code_generation.py
+++ b/components/python/wrenfold/code_generation.py
@@ -468,7 +468,8 @@ def mkdir_and_write_file(code: str, path: str | pathlib.Path) -> None:
     if isinstance(path, str):
         path = pathlib.Path(path)
     if not path.parent.exists():
-        path.parent.mkdir(parents=True)
+        # Another thread or process may create the directory first.
+        path.parent.mkdir(parents=True, exist_ok=True)
     with open(path, "wb") as handle:
         # Encode to UTF8 and write binary so we get \n and not \r\n
         handle.write(code.encode("utf-8"))
-- 
2.43.0


From 499e14c26d029aeff63f61bc51765dcb7a86d756 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:26 +0000
Subject: [PATCH 11/14] fix: an error raised while looking up a formatting
 override reaches the caller

---
 .../wrapper/pywrenfold/code_formatting_wrapper.cc   |  5 ++---
 components/wrapper/pywrenfold/wrapper_utils.h       | 13 +++++++++++++
 2 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/components/wrapper/pywrenfold/code_formatting_wrapper.cc b/components/wrapper/pywrenfold/code_formatting_wrapper.cc
index 2413b64..b31dca9 100644
--- a/components/wrapper/pywrenfold/code_formatting_wrapper.cc
+++ b/components/wrapper/pywrenfold/code_formatting_wrapper.cc
@@ -20,6 +20,7 @@
 #include "wf/code_generation/python_code_generator.h"
 #include "wf/code_generation/rust_code_generator.h"
 #include "wf/utility/type_list.h"
+#include "wrapper_utils.h"
 
 namespace py = nanobind;
 using namespace py::literals;
@@ -163,9 +164,7 @@ class wrapped_generator : public Base {
   template <typename T>
   py::object getattr_override() const {
     static const std::string method_name = fmt::format("format_{}", T::snake_case_name_str);
-    const py::object maybe_method = py::getattr(py::cast(*this, nanobind::rv_policy::reference),
-                                                method_name.c_str(), py::none());
-    return maybe_method;
+    return getattr_or_none(py::cast(*this, nanobind::rv_policy::reference), method_name.c_str());
   }
 
   // We need mutable here because operator() is const in the C++ classes.
diff --git a/components/wrapper/pywrenfold/wrapper_utils.h b/components/wrapper/pywrenfold/wrapper_utils.h
index 1626b08..81eeb33 100644
--- a/components/wrapper/pywrenfold/wrapper_utils.h
+++ b/components/wrapper/pywrenfold/wrapper_utils.h
@@ -36,6 +36,19 @@ py::class_<T> wrap_class(py::module_& m, const std::string_view name) {
   return klass;
 }
 
+// Get an attribute by name, or `None` if the object has no such attribute. Unlike `py::getattr` with
+// a default, errors other than `AttributeError` are not swallowed.
+inline py::object getattr_or_none(const py::handle obj, const char* const name) {
+  if (PyObject* const attr = PyObject_GetAttrString(obj.ptr(), name); attr != nullptr) {
+    return py::steal(attr);
+  }
+  if (!PyErr_ExceptionMatches(PyExc_AttributeError)) {
+    throw py::python_error();
+  }
+  PyErr_Clear();
+  return py::none();
+}
+
 // Iterate over a container and transform every element into `scalar_expr`.
 template <typename Container, typename Output>
 std::size_t cast_to_expr(const Container& inputs, Output& output) {
-- 
2.43.0


From f65df396d8e661f5c2f2551c7c6a36fed99b53c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:26 +0000
Subject: [PATCH 12/14] fix: errors raised by attributes of the sympy module
 reach the caller of to_sympy

---
 components/wrapper/pywrenfold/sympy_conversion.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/components/wrapper/pywrenfold/sympy_conversion.cc b/components/wrapper/pywrenfold/sympy_conversion.cc
index 0d652fd..f305bbe 100644
--- a/components/wrapper/pywrenfold/sympy_conversion.cc
+++ b/components/wrapper/pywrenfold/sympy_conversion.cc
@@ -10,6 +10,7 @@
 #include "wf/expressions/variable.h"
 #include "wf/matrix_expression.h"
 #include "wf/utility/assertions.h"
+#include "wrapper_utils.h"
 
 namespace wf {
 
@@ -20,7 +21,7 @@ using namespace py::literals;
 class sympy_conversion_visitor {
  private:
   py::object get_sympy_attr(const std::string_view name) const {
-    py::object attr = py::getattr(sp_, name.data(), py::none());
+    py::object attr = getattr_or_none(sp_, name.data());
     if (attr.is_none()) {
       const auto msg = fmt::format("sympy module does not have attribute: {}", name);
       throw py::attribute_error(msg.c_str());
-- 
2.43.0


From c1d7169e1c758a2f01e64b6349d351f481446b7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:30 +0000
Subject: [PATCH 13/14] fix: escape scope names in the trace file

Names that contain quotes, backslashes or control characters (for instance the
__FUNCTION__ of a literal operator) made the written JSON invalid.
---
 components/core/wf/utility/scoped_trace.cc | 24 +++++++++++++++++++---
 1 file changed, 21 insertions(+), 3 deletions(-)

diff --git a/components/core/wf/utility/scoped_trace.cc b/components/core/wf/utility/scoped_trace.cc
index eb3cf15..9d37b86 100644
--- a/components/core/wf/utility/scoped_trace.cc
+++ b/components/core/wf/utility/scoped_trace.cc
@@ -30,6 +30,23 @@ WF_BEGIN_THIRD_PARTY_INCLUDES
 #include <fmt/ranges.h>
 WF_END_THIRD_PARTY_INCLUDES
 
+namespace wf {
+// Write `str` as the contents of a JSON string.
+template <typename OutputIt>
+static OutputIt write_json_escaped(OutputIt out, const std::string_view str) {
+  for (const char c : str) {
+    if (c == '"' || c == '\\') {
+      out = fmt::format_to(out, "\\{}", c);
+    } else if (static_cast<unsigned char>(c) < 0x20) {
+      out = fmt::format_to(out, "\\u{:04x}", static_cast<unsigned int>(c));
+    } else {
+      *out++ = c;
+    }
+  }
+  return out;
+}
+}  // namespace wf
+
 // Format wf::trace_event to JSON.
 template <>
 struct fmt::formatter<wf::trace_event> {
@@ -39,9 +56,10 @@ struct fmt::formatter<wf::trace_event> {
   auto format(const wf::trace_event& event, FormatContext& ctx) const -> decltype(ctx.out()) {
     constexpr std::string_view phase = "X";  //  Complete event.
     constexpr std::string_view fmt_template =
-        R"json({{ "name": "{name}", "cat": "", "ph": "{ph}", "ts": {ts}, "pid": {pid}, "tid": {tid}, "dur": {dur}, "dur_ns": {dur_ns} }})json";
-    return fmt::format_to(ctx.out(), fmt_template, fmt::arg("name", event.name),
-                          fmt::arg("ph", phase), fmt::arg("ts", event.ts),
+        R"json(", "cat": "", "ph": "{ph}", "ts": {ts}, "pid": {pid}, "tid": {tid}, "dur": {dur}, "dur_ns": {dur_ns} }})json";
+    auto out = fmt::format_to(ctx.out(), R"json({{ "name": ")json");
+    out = wf::write_json_escaped(out, event.name);
+    return fmt::format_to(out, fmt_template, fmt::arg("ph", phase), fmt::arg("ts", event.ts),
                           fmt::arg("pid", event.pid), fmt::arg("tid", event.tid),
                           fmt::arg("dur", event.dur_ns / 1000), fmt::arg("dur_ns", event.dur_ns));
   }
-- 
2.43.0


From 1255bc10b16aabd907b45210794167f6e4098a50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:10 +0000
Subject: [PATCH 14/14] fix: integer overflow in rationals is reported instead
 of terminating the process

Reducing a rational (for example rational(-2**63, -1)) threw from a noexcept
function, and ordering two rationals multiplied their terms, which could
overflow inside a noexcept comparison. Compare exactly instead.
---
 .../core/wf/expressions/numeric_expressions.h | 37 +++++++++++++++----
 1 file changed, 30 insertions(+), 7 deletions(-)

diff --git a/components/core/wf/expressions/numeric_expressions.h b/components/core/wf/expressions/numeric_expressions.h
index adc2ede..c61e99a 100644
--- a/components/core/wf/expressions/numeric_expressions.h
+++ b/components/core/wf/expressions/numeric_expressions.h
@@ -108,16 +108,15 @@ class rational_constant {
 
   // Normalize a rational into a whole integer part, and a rational whose absolute value is less
   // than one.
-  constexpr std::pair<integer_constant, rational_constant> normalized() const noexcept {
+  constexpr std::pair<integer_constant, rational_constant> normalized() const {
     return std::make_pair(integer_constant{n_ / d_}, rational_constant{n_ % d_, d_});
   }
 
   // True if the absolute value of the fraction is less than one.
-  bool is_proper() const noexcept { return abs(n_) < d_; }
+  bool is_proper() const { return abs(n_) < d_; }
 
  private:
-  static constexpr std::pair<value_type, value_type> create_pair(value_type n,
-                                                                 value_type d) noexcept {
+  static constexpr std::pair<value_type, value_type> create_pair(value_type n, value_type d) {
     // Find the largest common denominator and reduce:
     const auto gcd = std::gcd(n.value(), d.value());
     n = n / gcd;
@@ -283,9 +282,33 @@ struct order_struct<rational_constant> {
     if (a.denominator() == b.denominator()) {
       return order_by_comparison(a.numerator(), b.numerator());
     }
-    const auto left = a.numerator() * b.denominator();
-    const auto right = b.numerator() * a.denominator();
-    return order_by_comparison(left, right);
+    // Cross-multiplying may exceed the range of `checked_int`, so compare the terms of the continued
+    // fractions instead. Denominators are positive.
+    std::int64_t an = a.numerator().value(), ad = a.denominator().value();
+    std::int64_t bn = b.numerator().value(), bd = b.denominator().value();
+    for (;;) {
+      std::int64_t a_quotient = an / ad, a_remainder = an % ad;
+      if (a_remainder < 0) {
+        a_quotient -= 1;
+        a_remainder += ad;
+      }
+      std::int64_t b_quotient = bn / bd, b_remainder = bn % bd;
+      if (b_remainder < 0) {
+        b_quotient -= 1;
+        b_remainder += bd;
+      }
+      if (a_quotient != b_quotient) {
+        return order_by_comparison(a_quotient, b_quotient);
+      } else if (a_remainder == 0 || b_remainder == 0) {
+        return order_by_comparison(a_remainder, b_remainder);
+      }
+      // a_remainder / ad < b_remainder / bd  <-->  bd / b_remainder < ad / a_remainder
+      const std::int64_t ad_previous = ad;
+      an = bd;
+      ad = b_remainder;
+      bn = ad_previous;
+      bd = a_remainder;
+    }
   }
 };
 
-- 
2.43.0

