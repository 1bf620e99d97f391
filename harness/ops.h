// Operators for evaluation harnesses.  The operators shipped with arolla are
// generated by Bazel and absent from this tree, so the harnesses bring their own
// backend operators; the expression, compilation and evaluation layers are real.
#ifndef VERIF_HARNESS_OPS_H_
#define VERIF_HARNESS_OPS_H_
#include <cstdint>
#include <string>
#include <vector>
#include "h.h"
#include "absl/status/status.h"
#include "absl/status/statusor.h"
#include "arolla/dense_array/dense_array.h"
#include "arolla/dense_array/qtype/types.h"
#include "arolla/expr/annotation_expr_operators.h"
#include "arolla/expr/backend_wrapping_operator.h"
#include "arolla/expr/eval/eval.h"
#include "arolla/expr/eval/extensions/prepare_core_map_operator.h"
#include "arolla/expr/eval/extensions/seq_map_operator.h"
#include "arolla/expr/eval/extensions/seq_reduce_operator.h"
#include "arolla/expr/expr.h"
#include "arolla/expr/expr_node.h"
#include "arolla/expr/lambda_expr_operator.h"
#include "arolla/expr/operators/bootstrap_operators.h"
#include "arolla/expr/operators/while_loop/while_loop.h"
#include "arolla/expr/registered_expr_operator.h"
#include "arolla/memory/optional_value.h"
#include "arolla/qexpr/eval_context.h"
#include "arolla/qexpr/operator_factory.h"
#include "arolla/qexpr/operators.h"
#include "arolla/qtype/base_types.h"
#include "arolla/qtype/qtype_traits.h"
#include "arolla/qtype/typed_value.h"
#include "arolla/sequence/mutable_sequence.h"
#include "arolla/sequence/sequence.h"
#include "arolla/sequence/sequence_qtype.h"
#include "arolla/util/init_arolla.h"
#include "arolla/util/text.h"

namespace ops {
using namespace arolla;
using namespace arolla::expr;

// Called at the start of every operator of this file.
inline thread_local void (*on_op)(const char* name) = nullptr;
// Whether the current test.check is to fail (fault injection).
inline thread_local bool (*fail_op)() = nullptr;
inline void hook(const char* name) { if (on_op) on_op(name); }

inline int64_t wrap(uint64_t v) { return static_cast<int64_t>(v & 0xffffffffull); }
inline int64_t add(int64_t a, int64_t b) { return wrap(static_cast<uint64_t>(a) + static_cast<uint64_t>(b)); }
inline int64_t mul(int64_t a, int64_t b) { return wrap(static_cast<uint64_t>(a) * static_cast<uint64_t>(b) + 1); }
inline bool bad(int64_t a) { return a % 5 == 3; }
inline bool pos(int64_t a) { return a % 3 != 0; }
inline int64_t step(int64_t s, int64_t c) { return s + 1 + (c & 1); }
inline bool less(int64_t s, int64_t) { return s < 8; }
inline int64_t start(int64_t a) { return a & 7; }

inline expr::BackendWrappingOperator::TypeMetaEvalStrategy Ret(QTypePtr q) {
  return [q](absl::Span<const QTypePtr>) -> absl::StatusOr<QTypePtr> { return q; };
}
template <typename F>
void Def(const char* name, const char* sig, QTypePtr out, F f) {
  auto op = QExprOperatorFromFunction(f);
  if (!op.ok()) { fprintf(stderr, "%s: %s\n", name, op.status().ToString().c_str()); abort(); }
  auto st = OperatorRegistry::GetInstance()->RegisterOperator(name, *op);
  if (!st.ok()) { fprintf(stderr, "%s: %s\n", name, st.ToString().c_str()); abort(); }
  auto s = ExprOperatorSignature::Make(sig);
  auto e = RegisterBackendOperator(name, *s, Ret(out));
  if (!e.ok()) { fprintf(stderr, "%s: %s\n", name, e.status().ToString().c_str()); abort(); }
}
inline void Register() {
  const QTypePtr i = GetQType<int64_t>();
  Def("test.add", "x, y", i, [](int64_t a, int64_t b) { hook("add"); return add(a, b); });
  Def("test.mul", "x, y", i, [](int64_t a, int64_t b) { hook("mul"); return mul(a, b); });
  Def("test.check", "x", i, [](int64_t a) -> absl::StatusOr<int64_t> {
    hook("check");
    if (fail_op && fail_op()) return absl::UnavailableError("injected operator failure");
    if (bad(a)) return absl::OutOfRangeError("bad " + std::to_string(a));
    return a;
  });
  Def("test.pos", "x", GetOptionalQType<Unit>(), [](int64_t a) -> OptionalUnit { hook("pos"); return OptionalUnit(pos(a)); });
  Def("test.start", "x", i, [](int64_t a) { hook("start"); return start(a); });
  Def("test.less", "s, c", GetOptionalQType<Unit>(), [](int64_t s, int64_t c) -> OptionalUnit { hook("less"); return OptionalUnit(less(s, c)); });
  Def("test.step", "s, c", i, [](int64_t s, int64_t c) { hook("step"); return step(s, c); });
  Def("test.vec", "x", GetDenseArrayQType<int64_t>(), [](EvaluationContext* ctx, int64_t a) -> DenseArray<int64_t> {
    hook("vec");
    Buffer<int64_t>::Builder b(3, &ctx->buffer_factory());
    for (int k = 0; k < 3; ++k) b.Set(k, add(a, k));
    return DenseArray<int64_t>{std::move(b).Build()};
  });
  Def("test.text", "x", GetQType<Text>(), [](int64_t a) { hook("text"); return Text(std::string(20, ' ') + std::to_string(a)); });
  Def("test.parse", "x", i, [](const Text& t) -> int64_t { hook("parse"); return std::stoll(std::string(t.view())); });
  Def("test.forever", "s, c", GetOptionalQType<Unit>(), [](int64_t, int64_t) -> OptionalUnit { hook("forever"); return OptionalUnit(kPresent); });
  Def("test.sum", "x", i, [](const DenseArray<int64_t>& v) -> int64_t {
    hook("sum");
    int64_t s = 0;
    for (int64_t k = 0; k < v.size(); ++k) s = add(s, v.values[k]);
    return s;
  });
  Def("core.where", "cond, x, y", i, [](OptionalUnit c, int64_t a, int64_t b) { hook("where"); return c ? a : b; });
  // The jump-based conditional is recognised by the compiler.
  (void)RegisterBackendOperator("core._short_circuit_where", *ExprOperatorSignature::Make("cond, x, y"),
                                [](absl::Span<const QTypePtr> q) -> absl::StatusOr<QTypePtr> { return q[1]; });
}

// Expression trees with a reference evaluation that shares no code with arolla.
enum { kX, kY, kLit, kV, kAdd, kMul, kCheck, kWhere, kVec, kSeq, kWhile, kText, kKinds, kForever };
struct Tree {
  int kind = 0;
  int64_t lit = 0;
  std::vector<Tree> sub;
  std::string key() const {  // structure, for identifying equal trees
    std::string s = std::to_string(kind) + ":" + std::to_string(lit) + "(";
    for (auto& t : sub) s += t.key() + ",";
    return s + ")";
  }
  bool has_op() const { return kind > kLit; }
  bool has_leaf() const {
    if (kind == kX || kind == kY || kind == kV) return true;
    for (auto& t : sub) if (t.has_leaf()) return true;
    return false;
  }
};

inline Tree Gen(int depth, bool checks) {
  Tree t;
  t.kind = depth <= 0 ? h::range(0, 3) : h::range(0, kKinds - 1);
  if (t.kind == kCheck && !checks) t.kind = kAdd;
  switch (t.kind) {
    case kX: case kY: case kV: break;
    case kLit: t.lit = h::range(0, 20); break;
    case kAdd: case kMul: {
      Tree a = Gen(depth - 1, checks);
      Tree b = h::one_in(4) ? a : Gen(depth - 1, checks);
      t.sub = {a, b};
      break;
    }
    case kCheck: case kVec: case kSeq: case kText: t.sub = {Gen(depth - 1, checks)}; break;
    case kWhere: {
      t.sub = {Gen(depth - 2, checks), Gen(depth - 1, false), Gen(depth - 1, false)};
      // Arolla folds conditionals with literal conditions elsewhere.
      if (!t.sub[0].has_leaf()) { Tree leaf; t.sub[0] = leaf; }
      break;
    }
    case kWhile: t.sub = {Gen(depth - 1, checks), Gen(depth - 2, checks)}; break;
  }
  return t;
}
struct Env { int64_t x = 0, y = 0; std::vector<int64_t> v; };
struct Val { bool err = false; int64_t v = 0; };
// Reference evaluation; collects the failing checks that evaluation may meet.
inline Val Ref(const Tree& t, const Env& e, std::vector<int64_t>* bads) {
  if (t.kind == kWhere) {
    Val c = Ref(t.sub[0], e, bads);
    if (c.err) return c;
    return Ref(t.sub[pos(c.v) ? 1 : 2], e, bads);
  }
  std::vector<Val> s;
  bool err = false;
  for (auto& u : t.sub) { s.push_back(Ref(u, e, bads)); err = err || s.back().err; }
  if (err) return {true, 0};
  switch (t.kind) {
    case kX: return {false, e.x};
    case kY: return {false, e.y};
    case kV: { int64_t r = 0; for (int64_t k : e.v) r = add(r, k); return {false, r}; }
    case kLit: return {false, t.lit};
    case kAdd: return {false, add(s[0].v, s[1].v)};
    case kMul: return {false, mul(s[0].v, s[1].v)};
    case kCheck: if (bad(s[0].v) && bads) bads->push_back(s[0].v); return {bad(s[0].v), s[0].v};
    case kVec: { int64_t r = 0; for (int k = 0; k < 3; ++k) r = add(r, add(s[0].v, k)); return {false, r}; }
    case kSeq: { int64_t r = s[0].v; for (int k = 1; k <= 3; ++k) r = add(r, mul(k, k)); return {false, r}; }
    case kText: return {false, s[0].v};
    default: { int64_t r = start(s[0].v); while (less(r, 0)) r = step(r, s[1].v); return {false, r}; }
  }
}
// Whether a part without inputs fails (then compilation may fail too).
inline bool LiteralFailure(const Tree& t) {
  if (!t.has_leaf() && Ref(t, {}, nullptr).err) return true;
  for (auto& u : t.sub) if (LiteralFailure(u)) return true;
  return false;
}
inline ExprNodePtr Must(absl::StatusOr<ExprNodePtr> e) {
  if (!e.ok()) sim_fail("expr-failed", "%s", e.status().ToString().c_str());
  return *std::move(e);
}
inline ExprNodePtr Build(const Tree& t) {
  std::vector<ExprNodePtr> s;
  for (auto& u : t.sub) s.push_back(Build(u));
  switch (t.kind) {
    case kX: return Leaf("x");
    case kY: return Leaf("y");
    case kLit: return Literal<int64_t>(t.lit);
    case kV: return Must(CallOp("test.sum", {Leaf("v")}));
    case kText: return Must(CallOp("test.parse", {CallOp("test.text", {s[0]})}));
    case kAdd: return Must(CallOp("test.add", {s[0], s[1]}));
    case kMul: return Must(CallOp("test.mul", {s[0], s[1]}));
    case kCheck: return Must(CallOp("test.check", {s[0]}));
    case kVec: return Must(CallOp("test.sum", {CallOp("test.vec", {s[0]})}));
    case kWhere: return Must(CallOp("core._short_circuit_where", {CallOp("test.pos", {s[0]}), s[1], s[2]}));
    case kSeq: {
      const int64_t items[] = {1, 2, 3};
      auto m = MutableSequence::Make(GetQType<int64_t>(), 3);
      for (int k = 0; k < 3; ++k) m->UnsafeSetRef(k, TypedRef::FromValue(items[k]));
      auto seq = Literal(MakeSequenceQValue(std::move(*m).Finish()));
      auto mul_op = Literal(TypedValue::FromValue<ExprOperatorPtr>(*LookupOperator("test.mul")));
      auto add_op = Literal(TypedValue::FromValue<ExprOperatorPtr>(*LookupOperator("test.add")));
      return Must(CallOp("seq.reduce", {add_op, CallOp("seq.map", {mul_op, seq, seq}), s[0]}));
    }
    default: {
      auto sig = *ExprOperatorSignature::Make("s, c");
      auto cond = MakeLambdaOperator(sig, CallOp(t.kind == kForever ? "test.forever" : "test.less", {Placeholder("s"), Placeholder("c")}));
      auto body = MakeLambdaOperator(sig, CallOp("test.step", {Placeholder("s"), Placeholder("c")}));
      auto w = expr_operators::WhileLoopOperator::Make(sig, *cond, *body);
      if (!w.ok()) sim_fail("expr-failed", "%s", w.status().ToString().c_str());
      return Must(CallOp(*w, {CallOp("test.start", {s[0]}), s[1]}));
    }
  }
}
}  // namespace ops
#endif
