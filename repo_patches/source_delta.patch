From 0d317a9fca5bdb69fcd736dcdbe396a92b05f118 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:01 +0000
Subject: [PATCH 01/23] fix: PermanentEvent::Notify() returned before a
 concurrent first Notify() had set the flag

---
 arolla/util/permanent_event.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/arolla/util/permanent_event.h b/arolla/util/permanent_event.h
index bbfc9e1..a726ef7 100644
--- a/arolla/util/permanent_event.h
+++ b/arolla/util/permanent_event.h
@@ -54,6 +54,9 @@ class PermanentEvent final : public RefcountedBase {
   void Notify() {
     if (!once_.test_and_set(std::memory_order_relaxed)) {
       notification_.Notify();
+    } else {
+      // Another thread may still be about to set the flag.
+      notification_.WaitForNotification();
     }
   }
 
-- 
2.43.0


From c8e67b4328a46c2279996863d65ffc241165f309 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:35 +0000
Subject: [PATCH 02/23] fix: ExecuteTasksInParallel() terminated the process
 when a thread could not be started

---
 arolla/util/threading.cc | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/arolla/util/threading.cc b/arolla/util/threading.cc
index 9616bad..3ddc5cd 100644
--- a/arolla/util/threading.cc
+++ b/arolla/util/threading.cc
@@ -19,6 +19,7 @@
 #include <cstddef>
 #include <functional>
 #include <memory>
+#include <system_error>  // NOLINT(build/c++11)
 #include <thread>  // NOLINT(build/c++11)
 #include <utility>
 #include <vector>
@@ -48,10 +49,16 @@ void ExecuteTasksInParallel(int max_parallelism,
   std::vector<std::unique_ptr<std::thread>> threads;
   threads.reserve(num_threads);
   for (int i = 0; i < num_threads; i++) {
-    threads.push_back(std::make_unique<std::thread>(worker_fn));
+    try {
+      threads.push_back(std::make_unique<std::thread>(worker_fn));
+    } catch (const std::system_error&) {
+      // Out of threads; the calling thread steps in for the missing ones.
+      worker_fn();
+      break;
+    }
   }
-  for (int i = 0; i < num_threads; i++) {
-    threads[i]->join();
+  for (auto& thread : threads) {
+    thread->join();
   }
 }
 
-- 
2.43.0


From 92271ee444325a9debdf15a10e0b8af0bf16d3d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:20 +0000
Subject: [PATCH 03/23] fix: ExprOperatorRegistry let two concurrent
 registrations of a name succeed and published revision ids before the
 operator list

Register() checked for an existing implementation and stored the new one in
two steps, so two threads could both register the same name, and the name was
then listed twice. Also, the revision ids were incremented before the operator
list was updated, so that a concurrent GenericOperator::BuildSnapshot() could
cache, under the new revision, a list still missing the new overload; nothing
would invalidate such a snapshot later.
---
 arolla/expr/registered_expr_operator.cc | 29 ++++++++++++++++---------
 1 file changed, 19 insertions(+), 10 deletions(-)

diff --git a/arolla/expr/registered_expr_operator.cc b/arolla/expr/registered_expr_operator.cc
index 5f79468..eb4b84a 100644
--- a/arolla/expr/registered_expr_operator.cc
+++ b/arolla/expr/registered_expr_operator.cc
@@ -292,33 +292,42 @@ ExprOperatorRegistry::Register(absl::string_view name,
         absl::Utf8SafeCHexEscape(name)));
   }
   auto& record_singleton = LookupOrCreateRecordSingleton(name);
-  if (record_singleton.operator_implementation != nullptr) {
-    return absl::AlreadyExistsError(
-        absl::StrFormat("operator '%s' already exists", name));
-  }
-  record_singleton.operator_implementation.store(std::move(op_impl));
-  UpdateRevisionIds(record_singleton);
   {
+    // Note: The check and the update need to happen atomically; otherwise two
+    // concurrent registrations of the same name could both succeed.
     absl::MutexLock lock(mx_);
+    if (record_singleton.operator_implementation != nullptr) {
+      return absl::AlreadyExistsError(
+          absl::StrFormat("operator '%s' already exists", name));
+    }
+    record_singleton.operator_implementation.store(std::move(op_impl));
     registered_operators_.emplace_back(record_singleton.name);
   }
+  // Note: The revision ids need to change only after the new state becomes
+  // fully visible; otherwise a concurrent reader could associate the old state
+  // with the new revision.
+  UpdateRevisionIds(record_singleton);
   return record_singleton.registered_operator;
 }
 
 void ExprOperatorRegistry::UnsafeUnregister(absl::string_view name) {
   auto* record_singleton = LookupRecordSingleton(name);
-  if (record_singleton == nullptr ||
-      record_singleton->operator_implementation == nullptr) {
+  if (record_singleton == nullptr) {
     return;
   }
-  record_singleton->operator_implementation.store(nullptr);
-  UpdateRevisionIds(*record_singleton);
+  ExprOperatorPtr op_impl;  // To be destroyed outside of the lock.
   {
     absl::MutexLock lock(mx_);
+    op_impl = record_singleton->operator_implementation.load();
+    if (op_impl == nullptr) {
+      return;
+    }
+    record_singleton->operator_implementation.store(nullptr);
     registered_operators_.erase(std::remove(registered_operators_.begin(),
                                             registered_operators_.end(), name),
                                 registered_operators_.end());
   }
+  UpdateRevisionIds(*record_singleton);
 }
 
 RegisteredOperatorPtr absl_nullable ExprOperatorRegistry::LookupOperatorOrNull(
-- 
2.43.0


From c766887926b45c9c03b06a6b68a7bc0ec1d3be0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:55 +0000
Subject: [PATCH 04/23] fix: RunBoundOperators() failed a debug check when an
 operator jumped to the first operator

---
 arolla/qexpr/bound_operators.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/arolla/qexpr/bound_operators.cc b/arolla/qexpr/bound_operators.cc
index 85093cc..239e79e 100644
--- a/arolla/qexpr/bound_operators.cc
+++ b/arolla/qexpr/bound_operators.cc
@@ -46,7 +46,8 @@ inline int64_t RunBoundOperatorsImpl(
       }
       if (ctx->requested_jump() != 0) [[likely]] {
         ip += ctx->requested_jump();
-        DCHECK_LT(ip, ops.size());
+        // Note: `ip` wraps around when the jump goes to the first operator.
+        DCHECK_LE(ip + 1, ops.size());
       }
       ctx->ResetSignals();
     }
-- 
2.43.0


From e92a0907d2260806ccc8f67864fc7a8d4d3b0956 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:43 +0000
Subject: [PATCH 05/23] fix: CppTypeName and CppLiteralRepr read the table of
 registered types without its lock

RegisterCppType() modifies the table under the lock, so a lookup that ran at the
same time was a data race (and could read a table being rehashed).
---
 arolla/codegen/expr/types.cc | 28 ++++++++++++++++++++--------
 1 file changed, 20 insertions(+), 8 deletions(-)

diff --git a/arolla/codegen/expr/types.cc b/arolla/codegen/expr/types.cc
index e026d12..ed4ae82 100644
--- a/arolla/codegen/expr/types.cc
+++ b/arolla/codegen/expr/types.cc
@@ -284,10 +284,13 @@ absl::Status RegisterCppType(
 
 absl::StatusOr<std::string> CppTypeName(QTypePtr qtype) {
   // check external types
-  const TypeMap& type_map = GetTypeMap();
-  if (auto it = type_map.cpp_type_name.find(qtype);
-      it != type_map.cpp_type_name.end()) {
-    return it->second;
+  {
+    TypeMap& type_map = GetTypeMap();
+    absl::MutexLock l(type_map.lock);
+    if (auto it = type_map.cpp_type_name.find(qtype);
+        it != type_map.cpp_type_name.end()) {
+      return it->second;
+    }
   }
   if (IsScalarQType(qtype)) {
     if (qtype == GetQType<bool>()) {
@@ -361,10 +364,19 @@ absl::StatusOr<std::string> CppQTypeConstruction(QTypePtr qtype) {
 absl::StatusOr<std::string> CppLiteralRepr(TypedRef value) {
   auto qtype = value.GetType();
   // check external types
-  const TypeMap& type_map = GetTypeMap();
-  if (auto it = type_map.cpp_literal_repr_fn.find(qtype);
-      it != type_map.cpp_literal_repr_fn.end()) {
-    return it->second(value);
+  std::function<absl::StatusOr<std::string>(TypedRef)> cpp_literal_repr_fn;
+  {
+    TypeMap& type_map = GetTypeMap();
+    absl::MutexLock l(type_map.lock);
+    if (auto it = type_map.cpp_literal_repr_fn.find(qtype);
+        it != type_map.cpp_literal_repr_fn.end()) {
+      // Copy the function to call it without holding the lock: it may call
+      // CppTypeName() and CppLiteralRepr().
+      cpp_literal_repr_fn = it->second;
+    }
+  }
+  if (cpp_literal_repr_fn != nullptr) {
+    return cpp_literal_repr_fn(value);
   }
   if (IsScalarQType(qtype)) {
     return NonOptionalCppLiteralRepr(value);
-- 
2.43.0


From e27cb020789a9e3d3056d9555d284d9e36384d25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:22 +0000
Subject: [PATCH 06/23] fix: looking up a QExpr operator raced with registering
 another one of the same name

OperatorRegistry::LookupOperator() searches the operators of a name after it
released the registry's mutex, while RegisterOperator() may be adding to them.
The combined family now has a mutex of its own.
---
 arolla/qexpr/operators.cc | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/arolla/qexpr/operators.cc b/arolla/qexpr/operators.cc
index 04d2b68..84b38b9 100644
--- a/arolla/qexpr/operators.cc
+++ b/arolla/qexpr/operators.cc
@@ -23,6 +23,7 @@
 #include <vector>
 
 #include "absl/base/no_destructor.h"
+#include "absl/base/thread_annotations.h"
 #include "absl/container/flat_hash_map.h"
 #include "absl/log/check.h"
 #include "absl/log/log.h"
@@ -56,6 +57,7 @@ class CombinedOperatorFamily final : public OperatorFamily {
   absl::StatusOr<OperatorPtr> DoGetOperator(
       absl::Span<const QTypePtr> input_types,
       QTypePtr output_type) const final {
+    absl::ReaderMutexLock lock(mutex_);
     auto it = operators_.find(input_types);
     if (it != operators_.end() &&
         it->second.op->signature()->output_type() == output_type) {
@@ -81,6 +83,7 @@ class CombinedOperatorFamily final : public OperatorFamily {
     //         FormatTypeVector(signature->input_types()), input->name()));
     //   }
     // }
+    absl::WriterMutexLock lock(mutex_);
     auto& record = operators_[signature->input_types()];
     if (overwrite_priority >= record.overwrite_priority_mask.size()) {
       return absl::InvalidArgumentError(
@@ -118,11 +121,15 @@ class CombinedOperatorFamily final : public OperatorFamily {
 
   std::string name_;
 
+  mutable absl::Mutex mutex_;
+
   // NOTE: The absl::Span<const QTypePtr> used as the key is owned by the
   // corresponding QExprOperatorSignature.
-  absl::flat_hash_map<absl::Span<const QTypePtr>, Record> operators_;
+  absl::flat_hash_map<absl::Span<const QTypePtr>, Record> operators_
+      ABSL_GUARDED_BY(mutex_);
 
-  std::vector<const QExprOperatorSignature*> supported_signatures_;
+  std::vector<const QExprOperatorSignature*> supported_signatures_
+      ABSL_GUARDED_BY(mutex_);
 };
 
 }  // namespace
-- 
2.43.0


From 18ac5463b6c744f89bd2fe74a420be99934d962c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:41 +0000
Subject: [PATCH 07/23] fix: a refused overwrite priority left a QExpr operator
 without an implementation

RegisterOperator() with an out of range overwrite_priority created an empty
record (dereferenced by the next lookup with the same types) and an empty family
before reporting the error.
---
 arolla/qexpr/operators.cc | 25 ++++++++++++++++---------
 1 file changed, 16 insertions(+), 9 deletions(-)

diff --git a/arolla/qexpr/operators.cc b/arolla/qexpr/operators.cc
index 84b38b9..da94425 100644
--- a/arolla/qexpr/operators.cc
+++ b/arolla/qexpr/operators.cc
@@ -83,15 +83,15 @@ class CombinedOperatorFamily final : public OperatorFamily {
     //         FormatTypeVector(signature->input_types()), input->name()));
     //   }
     // }
-    absl::WriterMutexLock lock(mutex_);
-    auto& record = operators_[signature->input_types()];
-    if (overwrite_priority >= record.overwrite_priority_mask.size()) {
+    if (overwrite_priority >= OverwritePriorityMask().size()) {
       return absl::InvalidArgumentError(
           absl::StrFormat("unable to register QExpr operator %s%s:"
                           " overwrite_priority=%d is out of range",
                           name_, FormatTypeVector(signature->input_types()),
                           overwrite_priority));
     }
+    absl::WriterMutexLock lock(mutex_);
+    auto& record = operators_[signature->input_types()];
     if (record.overwrite_priority_mask.test(overwrite_priority)) {
       return absl::AlreadyExistsError(
           absl::StrFormat("trying to register QExpr operator %s%s twice", name_,
@@ -114,9 +114,11 @@ class CombinedOperatorFamily final : public OperatorFamily {
   }
 
  private:
+  using OverwritePriorityMask = std::bitset<2>;
+
   struct Record {
     OperatorPtr op;
-    std::bitset<2> overwrite_priority_mask;
+    OverwritePriorityMask overwrite_priority_mask;
   };
 
   std::string name_;
@@ -162,18 +164,23 @@ absl::Status OperatorRegistry::RegisterOperator(absl::string_view name,
         absl::StrFormat("incorrect operator name \"%s\"", name));
   }
   absl::WriterMutexLock lock(mutex_);
-  auto& family = families_[name];
-  if (family == nullptr) {
-    family = std::make_unique<CombinedOperatorFamily>(std::string(name));
+  auto [it, inserted] = families_.try_emplace(name);
+  if (inserted) {
+    it->second = std::make_unique<CombinedOperatorFamily>(std::string(name));
   }
-  auto* combined_family = dynamic_cast<CombinedOperatorFamily*>(family.get());
+  auto* combined_family =
+      dynamic_cast<CombinedOperatorFamily*>(it->second.get());
   if (combined_family == nullptr) {
     return absl::AlreadyExistsError(
         absl::StrFormat("trying to register a single QExpr operator and an "
                         "operator family under the same name %s",
                         name));
   }
-  return combined_family->Insert(std::move(op), overwrite_priority);
+  auto status = combined_family->Insert(std::move(op), overwrite_priority);
+  if (!status.ok() && inserted) {
+    families_.erase(it);
+  }
+  return status;
 }
 
 std::vector<std::string> OperatorRegistry::ListRegisteredOperators() {
-- 
2.43.0


From 994a34481bcf1faf27a298e4e3b6d54fe8b3f7f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:39 +0000
Subject: [PATCH 08/23] fix: single-input decision trees at infinities and far
 apart split points

PiecewiseConstantCompiler took (left + right) / 2 as a value between two
split points. That overflows for large values (giving an infinity for floats,
any value at all for int64), and with infinite split points there is no such
value; the values of the outer regions were taken at lowest() and max(), which
may be split points themselves when the argument can be infinite, and
the interval [-inf, -inf] was not considered a split point at all.
---
 .../pointwise_evaluation/single_input_eval.cc | 34 +++++++++++++++----
 1 file changed, 28 insertions(+), 6 deletions(-)

diff --git a/arolla/decision_forest/pointwise_evaluation/single_input_eval.cc b/arolla/decision_forest/pointwise_evaluation/single_input_eval.cc
index ad671e2..d98aafd 100644
--- a/arolla/decision_forest/pointwise_evaluation/single_input_eval.cc
+++ b/arolla/decision_forest/pointwise_evaluation/single_input_eval.cc
@@ -17,6 +17,7 @@
 #include <cstdint>
 #include <limits>
 #include <memory>
+#include <numeric>
 #include <optional>
 #include <type_traits>
 #include <utility>
@@ -61,7 +62,7 @@ absl::Status AddSplitPoints(const SplitCondition* cond,
           fast_dynamic_downcast_final<const IntervalSplitCondition*>(cond)) {
     if constexpr (std::is_same<T, float>()) {
       constexpr float inf = std::numeric_limits<float>::infinity();
-      if (interval_cond->left() != -inf) {
+      if (interval_cond->left() != -inf || interval_cond->right() == -inf) {
         split_points->push_back(interval_cond->left());
       }
       if (interval_cond->right() != inf &&
@@ -99,6 +100,28 @@ bool is_nan(T v ABSL_ATTRIBUTE_UNUSED) {
   }
 }
 
+// The smallest and the largest value of T (including infinities).
+template <typename T>
+constexpr T MinValue() {
+  using Limits = std::numeric_limits<T>;
+  return Limits::has_infinity ? -Limits::infinity() : Limits::lowest();
+}
+template <typename T>
+constexpr T MaxValue() {
+  using Limits = std::numeric_limits<T>;
+  return Limits::has_infinity ? Limits::infinity() : Limits::max();
+}
+
+// Returns a value strictly between `left` and `right` if there is one.
+template <typename T>
+T MiddleValue(T left, T right) {
+  if constexpr (std::numeric_limits<T>::has_infinity) {
+    if (left == MinValue<T>()) return std::numeric_limits<T>::lowest();
+    if (right == MaxValue<T>()) return std::numeric_limits<T>::max();
+  }
+  return std::midpoint(left, right);
+}
+
 // Used only on compilation stage.
 template <typename T>
 class InternalEvaluator {
@@ -164,13 +187,12 @@ PiecewiseConstantCompiler<T>::Build(
   if (split_points.empty()) {
     middle_values.push_back(evaluator.Eval(static_cast<T>(0)));
   } else {
-    middle_values.push_back(evaluator.Eval(std::numeric_limits<T>::lowest()));
+    middle_values.push_back(evaluator.Eval(MinValue<T>()));
     for (int i = 1; i < split_points.size(); ++i) {
-      T left = split_points[i - 1];
-      T right = split_points[i];
-      middle_values.push_back(evaluator.Eval((left + right) / 2));
+      middle_values.push_back(
+          evaluator.Eval(MiddleValue(split_points[i - 1], split_points[i])));
     }
-    middle_values.push_back(evaluator.Eval(std::numeric_limits<T>::max()));
+    middle_values.push_back(evaluator.Eval(MaxValue<T>()));
   }
 
   return PiecewiseConstantEvaluator<T>(
-- 
2.43.0


From ec42022c7b7fcf576ce9f270cd2b73521a55dd62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:43 +0000
Subject: [PATCH 09/23] fix: fingerprint of IdFilter depends on the actual ids

IdFilter keeps ids together with an offset. The fingerprint covered only the
stored ids, so different slices of one sparse array could have the same
fingerprint, and e.g. serialization stored one of them in place of another.
---
 arolla/array/id_filter.cc | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/arolla/array/id_filter.cc b/arolla/array/id_filter.cc
index df40da7..289ddb6 100644
--- a/arolla/array/id_filter.cc
+++ b/arolla/array/id_filter.cc
@@ -60,7 +60,12 @@ void FingerprintHasherTraits<IdFilter>::operator()(
     FingerprintHasher* hasher, const IdFilter& value) const {
   hasher->Combine(value.type());
   if (value.type() != IdFilter::Type::kFull) {
-    hasher->Combine(value.ids());
+    // `ids_offset` is not a part of the logical value, so the fingerprint has to
+    // depend on the actual ids.
+    hasher->Combine(value.ids().size());
+    for (int64_t id : value.ids()) {
+      hasher->Combine(id - value.ids_offset());
+    }
   }
 }
 
-- 
2.43.0


From f794c81f53d7627f5b60cd103355b1a43c5f3b34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:47 +0000
Subject: [PATCH 10/23] fix: do not share one CancelledError between all
 cancelled task futures

Raising the shared exception keeps the traceback of every caller alive, so the
frames and locals of every TaskFuture.result() call on a cancelled future were
never released.
---
 py/arolla/experimental/_tasks/submit.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/py/arolla/experimental/_tasks/submit.py b/py/arolla/experimental/_tasks/submit.py
index 3f0e1a0..dbcce4d 100644
--- a/py/arolla/experimental/_tasks/submit.py
+++ b/py/arolla/experimental/_tasks/submit.py
@@ -428,6 +428,10 @@ class TaskFuture[T]:
       raise futures.TimeoutError()
     result = self._state.result
     assert result.is_exception() != result.is_value()
+    if result is _CANCELLED_RESULT:
+      # NOTE: `_CANCELLED_RESULT` is shared, and raising its exception would
+      # keep the traceback (and so the frames) of every caller alive.
+      raise futures.CancelledError()
     if result.is_exception():
       raise result.exception
     return result.value
-- 
2.43.0


From 6a59b3f75351d845ab63ecf876d8c58696a2553a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:41 +0000
Subject: [PATCH 11/23] fix: wake a cancelled waiter of the cancellation-aware
 lock reliably

The cancellation callback used try_lock(), which fails when the waiting thread
holds the mutex at that moment, e.g. between evaluating its condition and
blocking; the waiter then missed the cancellation and blocked indefinitely.
---
 py/arolla/experimental/_tasks/py_lock.cc | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/py/arolla/experimental/_tasks/py_lock.cc b/py/arolla/experimental/_tasks/py_lock.cc
index b076fe7..1fb504a 100644
--- a/py/arolla/experimental/_tasks/py_lock.cc
+++ b/py/arolla/experimental/_tasks/py_lock.cc
@@ -112,9 +112,11 @@ PyObject* PyLock_internal_acquire(PyLockObject::Fields& self_fields,
   auto subscription = cancellation_context->Subscribe(
       [weak_self_fields = self_fields.weak_from_this()]() {
         if (auto self_fields = weak_self_fields.lock()) {
-          if (self_fields->mutex.try_lock()) {
-            self_fields->mutex.unlock();
-          }
+          // Make the waiting thread re-evaluate its condition.
+          //
+          // NOTE: `try_lock()` would be insufficient here, because it fails if
+          // the waiting thread holds the mutex and is just about to block.
+          absl::MutexLock lock(self_fields->mutex);
         }
       });
 
-- 
2.43.0


From 264252766402e02f4b60f01dac1b5cc2aa3b2245 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:31 +0000
Subject: [PATCH 12/23] fix: release the result of a callback run by
 PythonCallbackBridge

The reference returned by PyObject_CallNoArgs() was never dropped.
---
 .../experimental/_tasks/python_callback_bridge.cc  | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/py/arolla/experimental/_tasks/python_callback_bridge.cc b/py/arolla/experimental/_tasks/python_callback_bridge.cc
index 6e016a3..6cebdfa 100644
--- a/py/arolla/experimental/_tasks/python_callback_bridge.cc
+++ b/py/arolla/experimental/_tasks/python_callback_bridge.cc
@@ -89,11 +89,15 @@ class PythonCallbackBridge::Impl {
       for (py::handle py_cb : to_remove) {
         py_cb.dec_ref();
       }
-      if (next_py_cb && PyObject_CallNoArgs(next_py_cb.ptr()) == nullptr) {
-        PyErr_Clear();
-        PyErr_WarnEx(PyExc_RuntimeWarning,
-                     "[PythonCallbackBridge] unhandled exception in callback",
-                     0);
+      if (next_py_cb) {
+        auto py_result = py::reinterpret_steal<py::object>(
+            PyObject_CallNoArgs(next_py_cb.ptr()));
+        if (!py_result) {
+          PyErr_Clear();
+          PyErr_WarnEx(PyExc_RuntimeWarning,
+                       "[PythonCallbackBridge] unhandled exception in callback",
+                       0);
+        }
       }
     }
   }
-- 
2.43.0


From 846b263a41d3d17f584efd5773fab0ae635a000d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:31 +0000
Subject: [PATCH 13/23] fix: do not lose callbacks when warnings are turned
 into errors

PyErr_WarnEx() raises if warnings are errors; PythonCallbackBridge kept the
error set while calling the following callbacks, which then failed or were lost,
and its worker died with a SystemError.
---
 py/arolla/experimental/_tasks/python_callback_bridge.cc | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/py/arolla/experimental/_tasks/python_callback_bridge.cc b/py/arolla/experimental/_tasks/python_callback_bridge.cc
index 6cebdfa..3ad2e04 100644
--- a/py/arolla/experimental/_tasks/python_callback_bridge.cc
+++ b/py/arolla/experimental/_tasks/python_callback_bridge.cc
@@ -94,9 +94,12 @@ class PythonCallbackBridge::Impl {
             PyObject_CallNoArgs(next_py_cb.ptr()));
         if (!py_result) {
           PyErr_Clear();
-          PyErr_WarnEx(PyExc_RuntimeWarning,
-                       "[PythonCallbackBridge] unhandled exception in callback",
-                       0);
+          if (PyErr_WarnEx(
+                  PyExc_RuntimeWarning,
+                  "[PythonCallbackBridge] unhandled exception in callback",
+                  0) < 0) {  // The warning has been turned into an error.
+            PyErr_WriteUnraisable(next_py_cb.ptr());
+          }
         }
       }
     }
-- 
2.43.0


From 4a1e1148689d6116163e9ece2935f38a350f9c80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:04 +0000
Subject: [PATCH 14/23] fix: report SIGINT controller failures safely when
 warnings are errors

InitOnce() runs as a pending call, at an arbitrary point of the program, and
returned success with an exception set if the warning filters turned its
RuntimeWarning into an exception; that surfaced as a SystemError in unrelated
code. Init() had the same problem.
---
 .../py_utils/py_cancellation_controller.cc    | 30 ++++++++++++-------
 1 file changed, 20 insertions(+), 10 deletions(-)

diff --git a/py/arolla/py_utils/py_cancellation_controller.cc b/py/arolla/py_utils/py_cancellation_controller.cc
index e7c5539..3e7d69d 100644
--- a/py/arolla/py_utils/py_cancellation_controller.cc
+++ b/py/arolla/py_utils/py_cancellation_controller.cc
@@ -45,6 +45,17 @@ namespace {
 // Python's main thread, matching `PyErr_CheckSignals()` semantics.
 thread_local constinit bool is_python_main_thread = false;
 
+// Issues a runtime warning.
+//
+// The warning filters can turn the warning into an exception. Such an exception
+// cannot be propagated because the initialization occurs within a pending call,
+// i.e. at an arbitrary point of the program.
+void IssueRuntimeWarning(const char *message) {
+  if (PyErr_WarnEx(PyExc_RuntimeWarning, message, 0) < 0) {
+    PyErr_WriteUnraisable(nullptr);
+  }
+}
+
 // This singleton worker, executing in its own thread, is responsible for
 // updating the `cancellation_context` for the Python main thread in response to
 // SIGINT delivery.
@@ -120,7 +131,7 @@ class Worker final {
           "pipe failed";
       int errno_copy = errno;
       LOG(ERROR) << message << ": " << strerror(errno_copy);
-      PyErr_WarnEx(PyExc_RuntimeWarning, message, 0);
+      IssueRuntimeWarning(message);
       return false;
     }
     {
@@ -134,7 +145,7 @@ class Worker final {
             "fcntl failed";
         int errno_copy = errno;
         LOG(WARNING) << message << ": " << strerror(errno_copy);
-        PyErr_WarnEx(PyExc_RuntimeWarning, message, 0);
+        IssueRuntimeWarning(message);
       }
     }
     wakeup_fds_ = wakeup_fds;
@@ -241,7 +252,7 @@ void InstallSignalHandler() {
         "sigaction failed";
     int errno_copy = errno;
     LOG(ERROR) << message << ": " << strerror(errno_copy);
-    PyErr_WarnEx(PyExc_RuntimeWarning, message, 0);
+    IssueRuntimeWarning(message);
     return;
   }
   if (original_action.sa_handler == SIG_IGN ||
@@ -254,7 +265,7 @@ void InstallSignalHandler() {
         "python interpreter installed no SIGINT handler; arolla follows its "
         "lead";
     LOG(ERROR) << message;
-    PyErr_WarnEx(PyExc_RuntimeWarning, message, 0);
+    IssueRuntimeWarning(message);
     return;
   }
 
@@ -276,7 +287,7 @@ void InstallSignalHandler() {
         "sigaction failed";
     int errno_copy = errno;
     LOG(ERROR) << message << ": " << strerror(errno_copy);
-    PyErr_WarnEx(PyExc_RuntimeWarning, message, 0);
+    IssueRuntimeWarning(message);
     return;
   }
 
@@ -288,7 +299,7 @@ void InstallSignalHandler() {
         "signal handler has unexpectedly changed during installation of "
         "the new handler";
     LOG(ERROR) << message;
-    PyErr_WarnEx(PyExc_RuntimeWarning, message, 0);
+    IssueRuntimeWarning(message);
   }
 }
 
@@ -313,10 +324,9 @@ void Init() {
   if (Py_AddPendingCall(InitOnce, nullptr) < 0) {
     LOG(ERROR) << "arolla::python::py_cancellation_controller::Init: "
                << "Py_AddPendingCall failed";
-    PyErr_WarnEx(PyExc_RuntimeWarning,
-                 "arolla::python::py_cancellation_controller::Init"
-                 "Py_AddPendingCall failed",
-                 0);
+    IssueRuntimeWarning(
+        "arolla::python::py_cancellation_controller::Init: "
+        "Py_AddPendingCall failed");
     return;
   }
   done = true;
-- 
2.43.0


From e58d1d219e1f39aeb159b35f0311ee72472f505c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:50 +0000
Subject: [PATCH 15/23] fix: survive a thread creation failure in the SIGINT
 controller

std::thread throws if the thread cannot be created; the exception escaped
from the pending call and aborted the process. Report the controller as
non-functional instead, as for the other initialization failures.
---
 py/arolla/py_utils/py_cancellation_controller.cc | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/py/arolla/py_utils/py_cancellation_controller.cc b/py/arolla/py_utils/py_cancellation_controller.cc
index 3e7d69d..ca8bce9 100644
--- a/py/arolla/py_utils/py_cancellation_controller.cc
+++ b/py/arolla/py_utils/py_cancellation_controller.cc
@@ -23,6 +23,7 @@
 #include <cerrno>
 #include <csignal>
 #include <cstring>
+#include <system_error>
 #include <thread>  // NOLINT(build/c++11)
 #include <utility>
 
@@ -149,7 +150,19 @@ class Worker final {
       }
     }
     wakeup_fds_ = wakeup_fds;
-    std::thread(&Worker::Loop, this).detach();
+    try {
+      std::thread(&Worker::Loop, this).detach();
+    } catch (const std::system_error &ex) {
+      constexpr auto message =
+          "arolla::python::py_cancellation_controller::Worker::Init: "
+          "thread creation failed";
+      LOG(ERROR) << message << ": " << ex.what();
+      wakeup_fds_ = {-1, -1};
+      close(wakeup_fds[0]);
+      close(wakeup_fds[1]);
+      IssueRuntimeWarning(message);
+      return false;
+    }
     return true;
   }
 
-- 
2.43.0


From 97e48d77cb92c69a29a37ca2b047615c191d507f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:50 +0000
Subject: [PATCH 16/23] fix: keep the LRU cache consistent while the removed
 values are destroyed

---
 arolla/util/lru_cache.h         | 22 +++++++++++++++++-----
 py/arolla/abc/py_cached_eval.cc |  8 +++++---
 2 files changed, 22 insertions(+), 8 deletions(-)

diff --git a/arolla/util/lru_cache.h b/arolla/util/lru_cache.h
index 1e11231..129683a 100644
--- a/arolla/util/lru_cache.h
+++ b/arolla/util/lru_cache.h
@@ -17,6 +17,7 @@
 
 #include <cstddef>
 #include <functional>
+#include <iterator>
 #include <list>
 #include <utility>
 
@@ -66,32 +67,43 @@ class LruCache {
   // in the cache. If the cache contains more than one item and the total weight
   // of all stored items exceeds capacity, then we remove values with the oldest
   // access time.
+  //
+  // The resulting pointer remains valid until the next `Put` or `Clear` call,
+  // including the calls made by the destructors of the removed values.
   template <typename K, typename V>
   const Value* absl_nonnull Put(K&& key, V&& value, size_t weight = 1) {
+    // The values that leave the cache get destroyed at the very end, when
+    // the cache is in a consistent state: destroying a value may run arbitrary
+    // code, including calls to this cache.
+    std::list<Entry> discarded;
     entries_.emplace_front(std::forward<K>(key), std::forward<V>(value),
                            weight);
     used_capacity_ += weight;
     const auto& [it, ok] = index_.emplace(IndexEntry{entries_.begin()});
     if (!ok) {
       // Replace old value with the new value.
+      using std::swap;
       used_capacity_ -= it->entry->weight;
-      it->entry->value = std::move(entries_.front().value);
+      swap(it->entry->value, entries_.front().value);
       it->entry->weight = weight;
-      entries_.pop_front();
+      discarded.splice(discarded.begin(), entries_, entries_.begin());
       entries_.splice(entries_.begin(), entries_, it->entry);
     }
+    const Value* result = &entries_.front().value;
     while (used_capacity_ > capacity_ && entries_.size() > 1) {
       index_.erase(entries_.back().key);
       used_capacity_ -= entries_.back().weight;
-      entries_.pop_back();
+      discarded.splice(discarded.begin(), entries_, std::prev(entries_.end()));
     }
     DCHECK_EQ(entries_.size(), index_.size());
-    return &entries_.front().value;
+    return result;
   }
 
   // Clears the cache.
   void Clear() {
-    entries_.clear();
+    // NOTE: The entries get destroyed at the very end; see the comment in Put.
+    std::list<Entry> discarded;
+    discarded.swap(entries_);
     index_.clear();
     used_capacity_ = 0;
   }
diff --git a/py/arolla/abc/py_cached_eval.cc b/py/arolla/abc/py_cached_eval.cc
index ba97a2d..cc1406e 100644
--- a/py/arolla/abc/py_cached_eval.cc
+++ b/py/arolla/abc/py_cached_eval.cc
@@ -113,9 +113,11 @@ class CCache {
   Put(const Fingerprint& fingerprint, std::vector<QTypePtr>&& input_qtypes,
       ExprCompilationOptions options, absl_nonnull ModelPtr&& model) {
     DCheckPyGIL();
-    return *impl().Put(
-        Key{fingerprint, std::move(input_qtypes), std::move(options)},
-        std::move(model));
+    // NOTE: Removing a model from the cache may run arbitrary python code, which
+    // may use the cache, so we cannot rely on the pointer returned by Put().
+    impl().Put(Key{fingerprint, std::move(input_qtypes), std::move(options)},
+               model);
+    return std::move(model);
   }
 
   static void Clear() {
-- 
2.43.0


From 070b9cf599e79059a0ed0c31ae0d857c7194eb29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:16 +0000
Subject: [PATCH 17/23] fix: keep evaluation inputs alive while the GIL is
 released

---
 py/arolla/abc/py_compiled_expr.cc | 10 ++++++++--
 py/arolla/abc/py_eval.cc          | 12 +++++++++++-
 2 files changed, 19 insertions(+), 3 deletions(-)

diff --git a/py/arolla/abc/py_compiled_expr.cc b/py/arolla/abc/py_compiled_expr.cc
index d4f4c7f..3d063c8 100644
--- a/py/arolla/abc/py_compiled_expr.cc
+++ b/py/arolla/abc/py_compiled_expr.cc
@@ -156,12 +156,18 @@ PyObject* PyCompiledExpr_execute(PyObject* self,
         "%s.execute() expected a dict[str, QValue], got input_qvalues: %s",
         Py_TYPE(self)->tp_name, Py_TYPE(py_dict_input_qvalues)->tp_name);
   }
-  const size_t input_qvalues_size = PyDict_Size(py_dict_input_qvalues);
+  // Work with a copy that keeps the input names and values alive: while the GIL
+  // is released, other threads may modify the original dict.
+  auto py_dict_copy = PyObjectPtr::Own(PyDict_Copy(py_dict_input_qvalues));
+  if (py_dict_copy == nullptr) {
+    return nullptr;
+  }
+  const size_t input_qvalues_size = PyDict_Size(py_dict_copy.get());
   InputQValues input_qvalues;
   input_qvalues.reserve(input_qvalues_size);
   PyObject *py_str, *py_qvalue;
   Py_ssize_t pos = 0;
-  while (PyDict_Next(py_dict_input_qvalues, &pos, &py_str, &py_qvalue)) {
+  while (PyDict_Next(py_dict_copy.get(), &pos, &py_str, &py_qvalue)) {
     Py_ssize_t input_name_size = 0;
     if (!PyUnicode_Check(py_str)) {
       return PyErr_Format(
diff --git a/py/arolla/abc/py_eval.cc b/py/arolla/abc/py_eval.cc
index ddb72d8..391338e 100644
--- a/py/arolla/abc/py_eval.cc
+++ b/py/arolla/abc/py_eval.cc
@@ -93,9 +93,19 @@ PyObject* PyInvokeOp(PyObject* /*self*/, PyObject** py_args, Py_ssize_t nargs) {
 
   // Parse `input_qvalues`.
   std::vector<TypedRef> input_qvalues;
+  PyObjectPtr py_tuple_input_qvalues;  // Keeps the values alive.
   if (nargs >= 2) {
     absl::Span<PyObject*> py_input_qvalues;
-    if (!PyTuple_AsSpan(py_args[1], &py_input_qvalues)) {
+    if (PyList_Check(py_args[1])) {
+      // While the GIL is released, other threads may modify the list.
+      py_tuple_input_qvalues = PyObjectPtr::Own(PyList_AsTuple(py_args[1]));
+    } else {
+      py_tuple_input_qvalues = PyObjectPtr::NewRef(py_args[1]);
+    }
+    if (py_tuple_input_qvalues == nullptr) {
+      return nullptr;
+    }
+    if (!PyTuple_AsSpan(py_tuple_input_qvalues.get(), &py_input_qvalues)) {
       return PyErr_Format(
           PyExc_TypeError,
           "arolla.abc.invoke_op() expected a tuple[QValue, ...], got "
-- 
2.43.0


From 585896e0f056334c7628c601004f974b91ff11e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:10 +0000
Subject: [PATCH 18/23] fix: keep an aux binding policy alive while it is being
 used

Python code called from a binding policy (or from the destructor of
a removed one) can change the policy registry: hold a shared pointer to
the policy during the call, and destroy a removed policy only after it has
left the registry.
---
 py/arolla/abc/py_aux_binding_policy.cc | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/py/arolla/abc/py_aux_binding_policy.cc b/py/arolla/abc/py_aux_binding_policy.cc
index 12d8889..a923622 100644
--- a/py/arolla/abc/py_aux_binding_policy.cc
+++ b/py/arolla/abc/py_aux_binding_policy.cc
@@ -90,21 +90,24 @@ class AuxBindingPolicyRegistry {
     if (!VerifyAuxPolicyName(aux_policy_name)) {
       return false;
     }
-    registry_.erase(aux_policy_name);
+    // Note: Destroying a policy can run arbitrary python code that may access
+    // the registry; so we detach the policy from the registry first.
+    auto node = registry_.extract(aux_policy_name);
     return true;
   }
 
-  // Returns the auxiliary policy with the given name, or nullptr and raises a
-  // python exception.
-  const AuxBindingPolicyPtr absl_nullable& LookupOrNull(
+  // Returns the auxiliary policy with the given name, or nullptr.
+  //
+  // Note: The method returns a new shared pointer because the policy can be
+  // removed from the registry while it is being used.
+  AuxBindingPolicyPtr absl_nullable LookupOrNull(
       absl::string_view aux_policy_name) const {
     DCheckPyGIL();
     auto it = registry_.find(aux_policy_name);
     if (it != registry_.end()) {
       return it->second;
     }
-    static const absl::NoDestructor<AuxBindingPolicyPtr> stub(nullptr);
-    return *stub;
+    return nullptr;
   }
 
   absl::flat_hash_map<std::string, AuxBindingPolicyPtr absl_nonnull> registry_;
@@ -115,7 +118,7 @@ class AuxBindingPolicyRegistry {
 PyObject* absl_nullable AuxMakePythonSignature(
     const ExprOperatorSignature& signature) {
   DCheckPyGIL();
-  const auto& policy_implementation =
+  const auto policy_implementation =
       AuxBindingPolicyRegistry::instance().LookupOrNull(
           signature.aux_policy_name);
   if (policy_implementation == nullptr) {
@@ -143,7 +146,7 @@ bool AuxBindArguments(const ::arolla::expr::ExprOperatorSignature& signature,
                       std::vector<QValueOrExpr>* absl_nonnull result,
                       AuxBindingPolicyPtr* absl_nullable policy) {
   DCheckPyGIL();
-  const auto& policy_implementation =
+  const auto policy_implementation =
       AuxBindingPolicyRegistry::instance().LookupOrNull(
           signature.aux_policy_name);
   if (policy_implementation == nullptr) {
-- 
2.43.0


From b9a7eaa5a4be0e7c3322090dc64f5393cf4f5a17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:10 +0000
Subject: [PATCH 19/23] fix: PyErr_AddNote() leaks the note

---
 py/arolla/py_utils/py_utils.cc | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/py/arolla/py_utils/py_utils.cc b/py/arolla/py_utils/py_utils.cc
index 5c95c08..a158228 100644
--- a/py/arolla/py_utils/py_utils.cc
+++ b/py/arolla/py_utils/py_utils.cc
@@ -348,10 +348,11 @@ std::nullptr_t PyErr_AddNote(absl::string_view note) {
   if (py_exception == nullptr) {
     return nullptr;
   }
-  auto py_str_note = PyUnicode_FromStringAndSize(note.data(), note.size());
+  auto py_str_note =
+      PyObjectPtr::Own(PyUnicode_FromStringAndSize(note.data(), note.size()));
   if (py_str_note != nullptr) {
-    PyObject_CallMethodOneArg(py_exception.get(), py_str_method_name,
-                              py_str_note);
+    auto py_result = PyObjectPtr::Own(PyObject_CallMethodOneArg(
+        py_exception.get(), py_str_method_name, py_str_note.get()));
   }
   PyErr_Clear();  // Explicitly clear any existing error to avoid relying
                   // on the behaviour of `PyErr_Restore` in such cases.
-- 
2.43.0


From 9b25b2feb4e62738bf1ef6775a91f8e571240be0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:40 +0000
Subject: [PATCH 20/23] fix: do not modify the caller's argument array

METH_FASTCALL functions may receive a pointer into the caller's argument
tuple (e.g. for `f(*args)`), and so cannot lend args[0] to the callee
using PY_VECTORCALL_ARGUMENTS_OFFSET: the change is visible to everyone
who shares the tuple.
---
 py/arolla/abc/py_bind.cc         | 11 ++++-------
 py/arolla/abc/py_cancellation.cc |  7 ++-----
 py/arolla/abc/py_eval.cc         |  5 ++---
 py/arolla/abc/py_misc.cc         |  7 +++----
 4 files changed, 11 insertions(+), 19 deletions(-)

diff --git a/py/arolla/abc/py_bind.cc b/py/arolla/abc/py_bind.cc
index deb4f68..1ef2975 100644
--- a/py/arolla/abc/py_bind.cc
+++ b/py/arolla/abc/py_bind.cc
@@ -278,9 +278,8 @@ PyObject* PyAuxBindOp(PyObject* /*self*/, PyObject** py_args, Py_ssize_t nargs,
   ASSIGN_OR_RETURN(auto signature, op->GetSignature(), SetPyErrFromStatus(_));
   std::vector<QValueOrExpr> bound_args;
   AuxBindingPolicyPtr policy_implementation;
-  if (!AuxBindArguments(
-          *signature, py_args + 1, (nargs - 1) | PY_VECTORCALL_ARGUMENTS_OFFSET,
-          py_tuple_kwnames, &bound_args, &policy_implementation)) {
+  if (!AuxBindArguments(*signature, py_args + 1, nargs - 1, py_tuple_kwnames,
+                        &bound_args, &policy_implementation)) {
     return nullptr;
   }
   std::vector<ExprNodePtr> node_deps(bound_args.size());
@@ -335,10 +334,8 @@ PyObject* PyAuxBindArguments(PyObject* /*self*/, PyObject** py_args,
       [&](const ExprOperatorSignature& signature) -> PyObject* absl_nullable {
     std::vector<QValueOrExpr> bound_args;
     AuxBindingPolicyPtr policy_implementation;
-    if (!AuxBindArguments(signature, py_args + 1,
-                          (nargs - 1) | PY_VECTORCALL_ARGUMENTS_OFFSET,
-                          py_tuple_kwnames, &bound_args,
-                          &policy_implementation)) {
+    if (!AuxBindArguments(signature, py_args + 1, nargs - 1, py_tuple_kwnames,
+                          &bound_args, &policy_implementation)) {
       return nullptr;
     }
     auto py_tuple_result = PyObjectPtr::Own(PyTuple_New(bound_args.size()));
diff --git a/py/arolla/abc/py_cancellation.cc b/py/arolla/abc/py_cancellation.cc
index ad013b4..f949dc9 100644
--- a/py/arolla/abc/py_cancellation.cc
+++ b/py/arolla/abc/py_cancellation.cc
@@ -252,9 +252,7 @@ PyObject* PyRunInCancellationContext(PyObject* /*self*/, PyObject** py_args,
   if (auto status = CheckCancellation(); !status.ok()) {
     return SetPyErrFromStatus(status);
   }
-  return PyObject_Vectorcall(py_fn, py_args + 2,
-                             (nargs - 2) | PY_VECTORCALL_ARGUMENTS_OFFSET,
-                             py_tuple_kwnames);
+  return PyObject_Vectorcall(py_fn, py_args + 2, nargs - 2, py_tuple_kwnames);
 }
 
 // def run_in_default_cancellation_context(
@@ -285,8 +283,7 @@ PyObject* PyRunInDefaultCancellationContext(PyObject* /*self*/,
     if (auto status = CheckCancellation(); !status.ok()) {
       return SetPyErrFromStatus(status);
     }
-    return PyObject_Vectorcall(py_fn, py_args + 1,
-                               (nargs - 1) | PY_VECTORCALL_ARGUMENTS_OFFSET,
+    return PyObject_Vectorcall(py_fn, py_args + 1, nargs - 1,
                                py_tuple_kwnames);
   };
   // Instantiate a base python cancellation scope.
diff --git a/py/arolla/abc/py_eval.cc b/py/arolla/abc/py_eval.cc
index 391338e..1e17e0a 100644
--- a/py/arolla/abc/py_eval.cc
+++ b/py/arolla/abc/py_eval.cc
@@ -329,9 +329,8 @@ PyObject* PyAuxEvalOp(PyObject* /*self*/, PyObject** py_args, Py_ssize_t nargs,
   // Bind the arguments.
   ASSIGN_OR_RETURN(auto signature, op->GetSignature(), SetPyErrFromStatus(_));
   std::vector<QValueOrExpr> bound_args;
-  if (!AuxBindArguments(*signature, py_args + 1,
-                        (nargs - 1) | PY_VECTORCALL_ARGUMENTS_OFFSET,
-                        py_tuple_kwnames, &bound_args)) {
+  if (!AuxBindArguments(*signature, py_args + 1, nargs - 1, py_tuple_kwnames,
+                        &bound_args)) {
     return nullptr;
   }
 
diff --git a/py/arolla/abc/py_misc.cc b/py/arolla/abc/py_misc.cc
index 131d0f7..941b53f 100644
--- a/py/arolla/abc/py_misc.cc
+++ b/py/arolla/abc/py_misc.cc
@@ -266,10 +266,9 @@ PyObject* PyVectorcall(PyObject* /*self*/, PyObject* const* args,
                         "number of keyword names (=%zd)",
                         nargs, py_tuple_kwnames_size);
   }
-  return _PyObject_Vectorcall(
-      py_callable, args + 1,
-      (nargs - 2 - py_tuple_kwnames_size) | PY_VECTORCALL_ARGUMENTS_OFFSET,
-      py_tuple_kwnames);
+  return _PyObject_Vectorcall(py_callable, args + 1,
+                              nargs - 2 - py_tuple_kwnames_size,
+                              py_tuple_kwnames);
 }
 
 // def deep_transform(expr: Expr, transform_fn: Callable[[Expr], Expr]) -> Expr
-- 
2.43.0


From 4252cd43a77f22a31ad210ce869e2d1463832a54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:50 +0000
Subject: [PATCH 21/23] fix: update the expr-view registry before releasing the
 replaced members

Releasing a member can run arbitrary python code that uses expr-views or
changes the registry; it used to find a registry (or an expr-view proxy)
in the middle of an update, and freed memory.
---
 py/arolla/abc/py_expr_view.cc | 119 ++++++++++++++++++++--------------
 1 file changed, 71 insertions(+), 48 deletions(-)

diff --git a/py/arolla/abc/py_expr_view.cc b/py/arolla/abc/py_expr_view.cc
index 2ac0750..44607aa 100644
--- a/py/arolla/abc/py_expr_view.cc
+++ b/py/arolla/abc/py_expr_view.cc
@@ -43,9 +43,14 @@ using ::arolla::expr::ExprOperatorPtr;
 
 class ExprView {
  public:
-  void RegisterMember(absl::string_view member_name,
-                      PyObject* absl_nonnull py_member) {
-    members_[member_name] = PyObjectPtr::NewRef(py_member);
+  // Registers an expr-view member and returns the member it replaces (if any).
+  //
+  // Note: Releasing the replaced member can run arbitrary python code that may
+  // access the expr-view registry, so the caller should do that last.
+  [[nodiscard]] PyObjectPtr absl_nullable RegisterMember(
+      absl::string_view member_name, PyObject* absl_nonnull py_member) {
+    PyObjectPtr result = std::exchange(members_[member_name],
+                                       PyObjectPtr::NewRef(py_member));
     if (member_name == "__getattr__") {
       getattr_member_ = PyObjectPtr::NewRef(py_member);
     } else if (member_name == "__getitem__") {
@@ -53,6 +58,7 @@ class ExprView {
     } else if (member_name == "__call__") {
       call_member_ = PyObjectPtr::NewRef(py_member);
     }
+    return result;
   }
 
   void RemoveMember(absl::string_view member_name) {
@@ -144,6 +150,9 @@ using ExprViewByOperatorKey =
     absl::flat_hash_map<OperatorKey, ExprView, OperatorKeyHash,
                         OperatorKeyEqual>;
 
+// Note: Releasing an expr-view member can run arbitrary python code that may
+// access the registry. For that reason, the methods of this class release
+// the members only after the registry and its revision id have been updated.
 class ExprViewRegistry {
  public:
   static ExprViewRegistry& instance() {
@@ -160,9 +169,11 @@ class ExprViewRegistry {
       absl::string_view member_name, PyObject* absl_nonnull py_member) {
     DCHECK(!operator_qvalue_specialization_key.empty());
     if (!operator_qvalue_specialization_key.empty()) {
-      expr_view_by_operator_key_[OperatorKey(operator_qvalue_specialization_key,
-                                             operator_name)]
-          .RegisterMember(member_name, py_member);
+      auto replaced_member =
+          expr_view_by_operator_key_[OperatorKey(
+                                         operator_qvalue_specialization_key,
+                                         operator_name)]
+              .RegisterMember(member_name, py_member);
       revision_id_ += 1;
     }
   }
@@ -171,22 +182,25 @@ class ExprViewRegistry {
   void RemoveExprViewForOperator(
       absl::string_view operator_qvalue_specialization_key,
       absl::string_view /*empty_if_family*/ operator_name) {
-    revision_id_ += expr_view_by_operator_key_.erase(
+    auto node = expr_view_by_operator_key_.extract(
         std::pair(operator_qvalue_specialization_key, operator_name));
+    revision_id_ += !node.empty();
   }
 
   // Registers an expr-view member for an operator aux-policy.
   void RegisterExprViewMemberForAuxPolicy(absl::string_view aux_policy_name,
                                           absl::string_view member_name,
                                           PyObject* absl_nonnull py_member) {
-    expr_view_by_aux_policy_name_[aux_policy_name].RegisterMember(member_name,
-                                                                  py_member);
+    auto replaced_member =
+        expr_view_by_aux_policy_name_[aux_policy_name].RegisterMember(
+            member_name, py_member);
     revision_id_ += 1;
   }
 
   // Removes an expr-view for an aux-policy name.
   void RemoveExprViewForAuxPolicy(absl::string_view aux_policy_name) {
-    revision_id_ += expr_view_by_aux_policy_name_.erase(aux_policy_name);
+    auto node = expr_view_by_aux_policy_name_.extract(aux_policy_name);
+    revision_id_ += !node.empty();
   }
 
   // Registers an expr-view member for a qtype.
@@ -195,14 +209,16 @@ class ExprViewRegistry {
                                       PyObject* absl_nonnull py_member) {
     DCHECK_NE(qtype, nullptr);
     if (qtype != nullptr) {
-      expr_view_by_qtype_[qtype].RegisterMember(member_name, py_member);
+      auto replaced_member =
+          expr_view_by_qtype_[qtype].RegisterMember(member_name, py_member);
       revision_id_ += 1;
     }
   }
 
   // Removes an expr-view for a qtype.
   void RemoveExprViewForQType(QTypePtr absl_nonnull qtype) {
-    revision_id_ += expr_view_by_qtype_.erase(qtype);
+    auto node = expr_view_by_qtype_.extract(qtype);
+    revision_id_ += !node.empty();
   }
 
   // Registers an expr-view member for a qtype family.
@@ -211,8 +227,9 @@ class ExprViewRegistry {
       PyObject* absl_nonnull py_member) {
     DCHECK(!qtype_specialization_key.empty());
     if (!qtype_specialization_key.empty()) {
-      expr_view_by_qtype_specialization_key_[qtype_specialization_key]
-          .RegisterMember(member_name, py_member);
+      auto replaced_member =
+          expr_view_by_qtype_specialization_key_[qtype_specialization_key]
+              .RegisterMember(member_name, py_member);
       revision_id_ += 1;
     }
   }
@@ -220,8 +237,9 @@ class ExprViewRegistry {
   // Removes an expr-view for a qtype family.
   void RemoveExprViewForQTypeSpecializationKey(
       absl::string_view qtype_specialization_key) {
-    revision_id_ +=
-        expr_view_by_qtype_specialization_key_.erase(qtype_specialization_key);
+    auto node = expr_view_by_qtype_specialization_key_.extract(
+        qtype_specialization_key);
+    revision_id_ += !node.empty();
   }
 
   // Returns an expr-view corresponding to the given operator.
@@ -294,38 +312,44 @@ void ExprViewProxy::Actualize(const ExprNodePtr absl_nonnull& node) {
   static const auto operator_registry_rev_id_fn =
       ::arolla::expr::ExprOperatorRegistry::GetInstance()->AcquireRevisionIdFn(
           "");
-  const int64_t actual_operator_registry_revision_id =
-      operator_registry_rev_id_fn();
-  const int64_t actual_expr_view_registry_revision_id =
-      ExprViewRegistry::instance().revision_id();
-
-  // Check if operators or expr-views could have changed.
-  //
-  // 1) A change in ExprViewRegistry can invalidate ExprView pointers; thus,
-  //    we must be extra careful and recompute the ExprView list every time
-  //    the registry changes.
-  //
-  // 2) Testing the operator registry revision id is a heuristic. While
-  //    the operator registry revision id covers changes within the registry,
-  //    and registered operators are currently the only "stateless"
-  //    operators (which can dynamically change the aux-policy or
-  //    "begin annotation" property), this behaviour may change in the future.
-  //
-  //    Additionally, not every change in the registry invalidates all
-  //    expr-views.
-  //
-  // NOTE: We should consider using a more robust heuristic in the future, and
-  // it may be worth making the check more specific.
-  //
-  if (actual_operator_registry_revision_id == operator_registry_revision_id_ &&
-      actual_expr_view_registry_revision_id == expr_view_registry_revision_id_)
-      [[likely]] {
-    return;
+  // Note: Releasing the outdated quick members can run arbitrary python code,
+  // including code that changes the registries; hence the loop.
+  for (;;) {
+    const int64_t actual_operator_registry_revision_id =
+        operator_registry_rev_id_fn();
+    const int64_t actual_expr_view_registry_revision_id =
+        ExprViewRegistry::instance().revision_id();
+
+    // Check if operators or expr-views could have changed.
+    //
+    // 1) A change in ExprViewRegistry can invalidate ExprView pointers; thus,
+    //    we must be extra careful and recompute the ExprView list every time
+    //    the registry changes.
+    //
+    // 2) Testing the operator registry revision id is a heuristic. While
+    //    the operator registry revision id covers changes within the registry,
+    //    and registered operators are currently the only "stateless"
+    //    operators (which can dynamically change the aux-policy or
+    //    "begin annotation" property), this behaviour may change in the future.
+    //
+    //    Additionally, not every change in the registry invalidates all
+    //    expr-views.
+    //
+    // NOTE: We should consider using a more robust heuristic in the future, and
+    // it may be worth making the check more specific.
+    //
+    if (actual_operator_registry_revision_id ==
+            operator_registry_revision_id_ &&
+        actual_expr_view_registry_revision_id ==
+            expr_view_registry_revision_id_) [[likely]] {
+      return;
+    }
+    operator_registry_revision_id_ = actual_operator_registry_revision_id;
+    expr_view_registry_revision_id_ = actual_expr_view_registry_revision_id;
+    auto outdated_quick_members = std::exchange(quick_members_, {});
+    RecomputeExprViews(node.get());
+    RecomputeQuickMembers();
   }
-  operator_registry_revision_id_ = actual_operator_registry_revision_id;
-  expr_view_registry_revision_id_ = actual_expr_view_registry_revision_id;
-  RecomputeExprViews(node.get());
-  RecomputeQuickMembers();
 }
 
 void ExprViewProxy::RecomputeExprViews(const ExprNode* absl_nonnull node) {
@@ -387,7 +411,6 @@ void ExprViewProxy::RecomputeQuickMembers() {
     update_ptr(quick_members_.getitem, expr_view.getitem_member_or_null());
     update_ptr(quick_members_.call, expr_view.call_member_or_null());
   };
-  quick_members_ = {};
   for (auto* expr_view : expr_views_) {
     update_quick_members(*expr_view);
   }
-- 
2.43.0


From 5a09ca3b836e92ae0988866c98aa084237da48eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:52:33 +0000
Subject: [PATCH 22/23] fix: destroy replaced repr functions outside the
 registry lock

OpReprRegistry and LabeledQTypeReprRegistry destroyed a replaced (or removed)
function while holding their mutex. When that function comes from Python, its
destruction acquires the GIL and runs arbitrary code: a finalizer that
generates a text representation deadlocks on the mutex, and so does another
thread that waits for the mutex while holding the GIL.
---
 arolla/derived_qtype/labeled_qtype.cc  |  6 +++++-
 arolla/expr/operator_repr_functions.cc | 17 ++++++++++++-----
 2 files changed, 17 insertions(+), 6 deletions(-)

diff --git a/arolla/derived_qtype/labeled_qtype.cc b/arolla/derived_qtype/labeled_qtype.cc
index a536335..2f2b064 100644
--- a/arolla/derived_qtype/labeled_qtype.cc
+++ b/arolla/derived_qtype/labeled_qtype.cc
@@ -50,6 +50,10 @@ class LabeledQTypeReprRegistry {
  public:
   absl::Status Set(std::string label, LabeledQTypeReprFn repr_fn, bool override)
       ABSL_LOCKS_EXCLUDED(mutex_) {
+    // Note: `value` also receives the previously registered function, if any,
+    // so that it gets destroyed after the lock is released. Its destructor may
+    // run arbitrary code, e.g. acquire the Python GIL or use this registry.
+    auto value = std::make_shared<const LabeledQTypeReprFn>(std::move(repr_fn));
     absl::MutexLock lock(mutex_);
     auto& record = registry_[label];
     if (record != nullptr && *record != nullptr && !override) {
@@ -57,7 +61,7 @@ class LabeledQTypeReprRegistry {
           absl::StrFormat("label '%s' already has a registered repr function",
                           EscapeLabel(label)));
     }
-    record = std::make_shared<const LabeledQTypeReprFn>(std::move(repr_fn));
+    record.swap(value);
     return absl::OkStatus();
   }
 
diff --git a/arolla/expr/operator_repr_functions.cc b/arolla/expr/operator_repr_functions.cc
index 96de524..fc482e7 100644
--- a/arolla/expr/operator_repr_functions.cc
+++ b/arolla/expr/operator_repr_functions.cc
@@ -261,12 +261,19 @@ class OpReprRegistry {
  public:
   void Set(std::string key, OperatorReprFn op_repr_fn)
       ABSL_LOCKS_EXCLUDED(mutex_) {
+    // Note: `value` also receives the previously registered function, if any,
+    // so that it gets destroyed after the lock is released. Its destructor may
+    // run arbitrary code, e.g. acquire the Python GIL or use this registry.
+    std::shared_ptr<const OperatorReprFn> value;
+    if (op_repr_fn != nullptr) {
+      value = std::make_shared<const OperatorReprFn>(std::move(op_repr_fn));
+    }
     absl::MutexLock lock(mutex_);
-    if (op_repr_fn == nullptr) {
-      registry_.erase(key);
-    } else {
-      registry_[std::move(key)] =
-          std::make_shared<const OperatorReprFn>(std::move(op_repr_fn));
+    if (value != nullptr) {
+      registry_[std::move(key)].swap(value);
+    } else if (auto it = registry_.find(key); it != registry_.end()) {
+      value = std::move(it->second);
+      registry_.erase(it);
     }
   }
 
-- 
2.43.0


From 33d44c68c4388be5b562fdd0d7efaa069ffc1e84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:33:40 +0000
Subject: [PATCH 23/23] fix: convert a snapshot of a Python list into a dense
 array

PySequence_Fast() returns the caller's own list, and the items were read
through borrowed pointers while their conversion (__index__, __float__,
__bytes__, __repr__ for an error) ran Python code. If that code, or another
thread meanwhile, changed the list, freed memory was read.
---
 py/arolla/types/qtype/array_boxing.cc | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/py/arolla/types/qtype/array_boxing.cc b/py/arolla/types/qtype/array_boxing.cc
index 879003d..78de32d 100644
--- a/py/arolla/types/qtype/array_boxing.cc
+++ b/py/arolla/types/qtype/array_boxing.cc
@@ -144,6 +144,14 @@ PyObject* PyDenseArrayTFromValues(PyObject* /*self*/, PyObject* py_arg) {
   if (py_sequence_fast == nullptr) {
     return nullptr;
   }
+  if (py_sequence_fast.get() == py_arg && PyList_CheckExact(py_arg)) {
+    // Converting an item may execute Python code, which may modify the list.
+    // Work with a snapshot, because the item pointers below are borrowed.
+    py_sequence_fast = PyObjectPtr::Own(PyList_AsTuple(py_arg));
+    if (py_sequence_fast == nullptr) {
+      return nullptr;
+    }
+  }
   const int64_t size = PySequence_Fast_GET_SIZE(py_sequence_fast.get());
   const absl::Span<PyObject*> py_values(
       PySequence_Fast_ITEMS(py_sequence_fast.get()), size);
-- 
2.43.0

