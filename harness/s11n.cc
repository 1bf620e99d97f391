// Stored models: encoding and decoding on a storage that fails, tears, loses,
// repeats and damages records, by several threads at once.
#include <map>
#include <set>
#include "ops.h"
#include "arolla/array/array.h"
#include "arolla/array/edge.h"
#include "arolla/array/qtype/types.h"
#include "arolla/decision_forest/decision_forest.h"
#include "arolla/decision_forest/expr_operator/forest_model.h"
#include "arolla/decision_forest/split_conditions/interval_split_condition.h"
#include "arolla/decision_forest/split_conditions/set_of_values_split_condition.h"
#include "arolla/dense_array/edge.h"
#include "arolla/derived_qtype/labeled_qtype.h"
#include "arolla/expr/expr_debug_string.h"
#include "arolla/expr/operator_loader/backend_operator.h"
#include "arolla/expr/operator_loader/dispatch_operator.h"
#include "arolla/expr/operator_loader/dummy_operator.h"
#include "arolla/expr/operator_loader/generic_operator.h"
#include "arolla/expr/operator_loader/restricted_lambda_operator.h"
#include "arolla/expr/overloaded_expr_operator.h"
#include "arolla/expr/quote.h"
#include "arolla/expr/tuple_expr_operator.h"
#include "arolla/jagged_shape/array/jagged_shape.h"
#include "arolla/jagged_shape/array/qtype/qtype.h"
#include "arolla/jagged_shape/dense_array/jagged_shape.h"
#include "arolla/jagged_shape/dense_array/qtype/qtype.h"
#include "arolla/objects/object_qtype.h"
#include "arolla/qtype/derived_qtype.h"
#include "arolla/qtype/dict/dict_types.h"
#include "arolla/qtype/optional_qtype.h"
#include "arolla/qtype/shape_qtype.h"
#include "arolla/qtype/slice_qtype.h"
#include "arolla/qtype/tuple_qtype.h"
#include "arolla/qtype/unspecified_qtype.h"
#include "arolla/qtype/weak_qtype.h"
#include "arolla/qexpr/operators/bootstrap/qtype_operator.h"
#include "arolla/qexpr/operators/bootstrap/make_tuple_operator.h"
#include "arolla/serialization/decode.h"
#include "arolla/serialization/encode.h"
#include "arolla/serialization/riegeli.h"
#include "arolla/serialization/utils.h"
#include "arolla/util/bytes.h"
#include "arolla/util/repr.h"
#include "arolla/util/unit.h"
#include "riegeli/sim_records.h"

using namespace arolla;
using namespace arolla::expr;
using arolla::serialization_base::ContainerProto;
using arolla::serialization_base::DecodingStepProto;
extern "C" const char* const sim_harness_name = "s11n";
void sim_init() {
  InitArolla();
  ops::Register();
  (void)GetQType<KeyToRowDict<int32_t>>(); (void)GetQType<KeyToRowDict<int64_t>>(); (void)GetQType<KeyToRowDict<uint64_t>>();
  (void)GetQType<KeyToRowDict<bool>>(); (void)GetQType<KeyToRowDict<Text>>(); (void)GetQType<KeyToRowDict<Bytes>>();
  RegisterOperatorFamily<MakeTupleOperatorFamily>("core.make_tuple");
  RegisterOperatorFamily<ParseInputQTypeSequenceOpFamily>("qtype._parse_input_qtype_sequence");
  auto o = QExprOperatorFromFunction([](OptionalUnit a, OptionalUnit b) { return a ? a : b; });
  if (!o.ok() || !OperatorRegistry::GetInstance()->RegisterOperator("core.presence_or", *o).ok()) abort();
}
namespace {
template <typename T> T Ok(absl::StatusOr<T> r, const char* what) {
  if (!r.ok()) sim_fail("harness", "%s: %s", what, r.status().ToString().c_str());
  return *std::move(r);
}
// ---- Content -------------------------------------------------------------
const char* kNames[] = {"a", "b", "x_1", "some.name", "long_identifier_0123456789"};
const char* kTexts[] = {"", "a", "\xd0\xb6\xe2\x82\xac", "line\nwith \"quotes\"", "a longer text that does not fit into a small string buffer"};
const char* name() { return kNames[h::range(0, 4)]; }
std::string raw_bytes() {
  std::string s;
  int n = h::range(0, 5);
  for (int i = 0; i < n; ++i) s.push_back(static_cast<char>(h::range(0, 3) == 0 ? h::range(0, 255) : 'a' + i));
  return s;
}
template <typename T> T scalar();
template <> bool scalar() { return h::coin(); }
template <> Unit scalar() { return kUnit; }
template <> Bytes scalar() { return Bytes(raw_bytes()); }
template <> Text scalar() { return Text(kTexts[h::range(0, 4)]); }
template <typename I> I integer() {
  switch (h::range(0, 3)) {
    case 0: return static_cast<I>(h::range(0, 9));
    case 1: return std::numeric_limits<I>::min();
    case 2: return std::numeric_limits<I>::max();
    default: return static_cast<I>(static_cast<int64_t>(h::range(0, 1 << 20)) * -40503);
  }
}
template <> int32_t scalar() { return integer<int32_t>(); }
template <> int64_t scalar() { return integer<int64_t>(); }
template <> uint64_t scalar() { return integer<uint64_t>(); }
template <typename F> F floating() {
  switch (h::range(0, 6)) {
    case 0: return static_cast<F>(h::range(0, 9));
    case 1: return F(-0.0);
    case 2: return std::numeric_limits<F>::infinity();
    case 3: return -std::numeric_limits<F>::infinity();
    case 4: return std::numeric_limits<F>::quiet_NaN();
    case 5: return std::numeric_limits<F>::denorm_min();
    default: return static_cast<F>(h::range(-1000, 1000)) / F(7);
  }
}
template <> float scalar() { return floating<float>(); }
template <> double scalar() { return floating<double>(); }
// Calls f with a value of the `i`-th scalar type.
template <typename F> auto with_type(int i, F f) {
  switch (i) {
    case 0: return f(bool());
    case 1: return f(Unit());
    case 2: return f(Bytes());
    case 3: return f(Text());
    case 4: return f(int32_t());
    case 5: return f(int64_t());
    case 6: return f(uint64_t());
    case 7: return f(float());
    default: return f(double());
  }
}
template <typename T> OptionalValue<T> optional() { return h::coin() ? OptionalValue<T>(scalar<T>()) : OptionalValue<T>(); }
template <typename T> DenseArray<T> dense(int n, bool slices = true) {
  std::vector<OptionalValue<T>> v;
  bool full = h::coin();
  int lead = slices && h::one_in(3) ? h::range(1, 40) : 0, tail = lead ? h::range(0, 3) : 0;
  for (int i = 0; i < lead + n + tail; ++i) v.push_back(full || (i >= lead && i < lead + n ? h::coin() : i % 3 > 0) ? OptionalValue<T>(i >= lead && i < lead + n ? scalar<T>() : T()) : OptionalValue<T>());
  DenseArray<T> a = CreateDenseArray<T>(v);
  if (lead || tail) { sim_probe("slice"); a = a.Slice(lead, n); }
  return a;
}
int some_size() { return h::one_in(8) ? h::range(30, 70) : h::range(0, 6); }
template <typename T> Array<T> array() {
  int n = some_size();
  if (n == 0) return Array<T>();  // empty arrays have one stored form
  switch (h::range(0, 3)) {
    case 0: return Array<T>(dense<T>(n));
    case 1: return Array<T>(n, optional<T>());
    default: {
      Array<T> a(dense<T>(n));
      OptionalValue<T> missing = h::coin() ? optional<T>() : OptionalValue<T>();
      std::vector<int64_t> ids;
      for (int i = 0; i < n; ++i) if (h::coin()) ids.push_back(i);
      int k = static_cast<int>(ids.size());
      Array<T> s = k == 0 || k == n ? Array<T>(dense<T>(n)) : Array<T>(n, IdFilter(n, Buffer<int64_t>::Create(ids.begin(), ids.end())), dense<T>(k, false), missing);
      if (n > 3 && h::coin()) { sim_probe("array-slice"); s = s.Slice(1, n - 2); }
      sim_probe("sparse");
      return s;
    }
  }
}
template <typename Edge, typename Arr> Edge edge() {
  std::vector<OptionalValue<int64_t>> v;
  if (h::coin()) {
    int n = h::range(1, 5);
    int64_t at = 0;
    for (int i = 0; i < n; ++i) { v.push_back(at); at += h::range(0, 3); }
    return Ok(Edge::FromSplitPoints(Arr(CreateDenseArray<int64_t>(v))), "split points");
  }
  int n = h::range(1, 5);  // (an empty array has one stored form)
  for (int i = 0; i < n; ++i) v.push_back(h::coin() ? OptionalValue<int64_t>(h::range(0, 3)) : OptionalValue<int64_t>());
  return Ok(Edge::FromMapping(Arr(CreateDenseArray<int64_t>(v)), h::range(4, 6)), "mapping");
}
template <typename Edge, typename Arr> JaggedShape<Edge> shape() {
  std::vector<Edge> e;
  int64_t parent = 1;
  int rank = h::range(0, 3);
  for (int i = 0; i < rank; ++i) {
    std::vector<OptionalValue<int64_t>> v;
    int64_t at = 0;
    v.push_back(at);
    for (int64_t k = 0; k < parent; ++k) { at += h::range(0, 2); v.push_back(at); }
    e.push_back(Ok(Edge::FromSplitPoints(Arr(CreateDenseArray<int64_t>(v))), "split points"));
    parent = at;
  }
  return Ok(JaggedShape<Edge>::FromEdges(std::move(e)), "jagged shape");
}
TypedValue V(int depth);
ExprNodePtr E(int depth);
ExprOperatorPtr Op(int depth);
QTypePtr scalar_type() { return with_type(h::range(0, 8), [](auto t) -> QTypePtr { return GetQType<decltype(t)>(); }); }
QTypePtr Q(int depth) {
  switch (h::range(0, depth > 0 ? 15 : 9)) {
    case 0: return scalar_type();
    case 1: return with_type(h::range(0, 8), [](auto t) -> QTypePtr { return GetOptionalQType<decltype(t)>(); });
    case 2: return with_type(h::range(0, 8), [](auto t) -> QTypePtr { return GetDenseArrayQType<decltype(t)>(); });
    case 3: return with_type(h::range(0, 8), [](auto t) -> QTypePtr { return GetArrayQType<decltype(t)>(); });
    case 4: { QTypePtr q[] = {GetWeakFloatQType(), GetOptionalWeakFloatQType(), GetUnspecifiedQType(), GetNothingQType(), GetQTypeQType()}; return q[h::range(0, 4)]; }
    case 5: { QTypePtr q[] = {GetQType<ExprQuote>(), GetQType<ExprOperatorPtr>(), GetQType<ScalarShape>(), GetQType<OptionalScalarShape>(), GetQType<ScalarToScalarEdge>()}; return q[h::range(0, 4)]; }
    case 6: { QTypePtr q[] = {GetQType<DenseArrayEdge>(), GetQType<DenseArrayGroupScalarEdge>(), GetQType<DenseArrayShape>(), GetQType<ArrayEdge>(), GetQType<ArrayGroupScalarEdge>(), GetQType<ArrayShape>()}; return q[h::range(0, 5)]; }
    case 7: { QTypePtr q[] = {GetQType<JaggedDenseArrayShape>(), GetQType<JaggedArrayShape>(), GetQType<Object>(), GetQType<DecisionForestPtr>()}; return q[h::range(0, 3)]; }
    case 8: { QTypePtr k[] = {GetQType<int32_t>(), GetQType<Text>(), GetQType<int64_t>(), GetQType<Bytes>(), GetQType<bool>(), GetQType<uint64_t>()}; QTypePtr key = k[h::range(0, 5)]; return h::coin() ? Ok(GetKeyToRowDictQType(key), "dict") : Ok(GetDictQType(key, scalar_type()), "dict"); }
    case 9: return MakeTupleQType({});
    case 10: return MakeTupleQType({Q(depth - 1), Q(depth - 1)});
    case 11: return Ok(MakeNamedTupleQType({"f", h::coin() ? "g" : "h"}, MakeTupleQType({Q(depth - 1), Q(depth - 1)})), "namedtuple");
    case 12: return MakeSliceQType(Q(depth - 1), Q(depth - 1), Q(depth - 1));
    case 13: return GetSequenceQType(Q(depth - 1));
    default: return GetLabeledQType(Q(depth - 1), name());
  }
}
DecisionForestPtr Forest() {
  std::vector<DecisionTree> trees(h::range(0, 3));
  const bool sets = h::coin();
  for (auto& t : trees) {
    int n = h::range(0, 4);  // splits; a right-leaning comb
    for (int i = 0; i <= n; ++i) t.adjustments.push_back(scalar<float>());
    for (int i = 0; i < n; ++i) {
      SplitNode s;
      s.child_if_false = DecisionTreeNodeId::AdjustmentId(i);
      s.child_if_true = i + 1 < n ? DecisionTreeNodeId::SplitNodeId(i + 1) : DecisionTreeNodeId::AdjustmentId(n);
      if (sets && h::coin()) {
        absl::flat_hash_set<int64_t> vals;
        for (int k = h::range(0, 6); k > 0; --k) vals.insert(h::range(-3, 20));
        s.condition = SetOfValuesSplit<int64_t>(1, vals, h::coin());
      } else {
        s.condition = IntervalSplit(0, scalar<float>(), scalar<float>());
      }
      t.split_nodes.push_back(s);
    }
    t.weight = scalar<float>();
    t.tag.step = h::range(0, 3);
    t.tag.submodel_id = h::range(0, 2);
  }
  sim_probe("forest");
  return Ok(DecisionForest::FromTrees(std::move(trees)), "forest");
}
TypedValue V(int depth) {
  switch (h::range(0, depth > 0 ? 22 : 8)) {
    case 0: return with_type(h::range(0, 8), [](auto t) { return TypedValue::FromValue(scalar<decltype(t)>()); });
    case 1: return with_type(h::range(0, 8), [](auto t) { return TypedValue::FromValue(optional<decltype(t)>()); });
    case 2: return with_type(h::range(0, 8), [](auto t) { return TypedValue::FromValue(dense<decltype(t)>(some_size())); });
    case 3: return with_type(h::range(0, 8), [](auto t) { return TypedValue::FromValue(array<decltype(t)>()); });
    case 4:
      switch (h::range(0, 4)) {
        case 0: return GetUnspecifiedQValue();
        case 1: return Ok(TypedValue::FromValueWithQType(scalar<double>(), GetWeakFloatQType()), "weak float");
        case 2: return Ok(TypedValue::FromValueWithQType(optional<double>(), GetOptionalWeakFloatQType()), "optional weak float");
        case 3: return TypedValue::FromValue(ScalarShape{});
        default: return TypedValue::FromValue(ScalarToScalarEdge{});
      }
    case 5: return TypedValue::FromValue(OptionalScalarShape{});
    case 6:
      switch (h::range(0, 5)) {
        case 0: return TypedValue::FromValue(DenseArrayShape{h::range(0, 9)});
        case 1: return TypedValue::FromValue(ArrayShape{h::range(0, 9)});
        case 2: return TypedValue::FromValue(DenseArrayGroupScalarEdge(h::range(0, 9)));
        case 3: return TypedValue::FromValue(ArrayGroupScalarEdge(h::range(0, 9)));
        case 4: return TypedValue::FromValue(edge<DenseArrayEdge, DenseArray<int64_t>>());
        default: return TypedValue::FromValue(edge<ArrayEdge, Array<int64_t>>());
      }
    case 7: return h::coin() ? TypedValue::FromValue(shape<DenseArrayEdge, DenseArray<int64_t>>()) : TypedValue::FromValue(shape<ArrayEdge, Array<int64_t>>());
    case 8: return TypedValue::FromValue(Q(0));
    case 9: return TypedValue::FromValue(Q(2));
    case 10: case 11: { std::vector<TypedValue> f; for (int n = h::range(0, 3); n > 0; --n) f.push_back(V(depth - 1)); return MakeTuple(f); }
    case 12: return Ok(MakeNamedTuple({"f", h::coin() ? "g" : "h"}, std::vector<TypedValue>{V(depth - 1), V(depth - 1)}), "namedtuple");
    case 13: { TypedValue t = MakeTuple(std::vector<TypedValue>{V(depth - 1), V(depth - 1), V(depth - 1)}); return UnsafeDowncastDerivedQValue(MakeSliceQType(t.GetField(0).GetType(), t.GetField(1).GetType(), t.GetField(2).GetType()), t); }
    case 14: {
      sim_probe("sequence");
      std::vector<TypedValue> v;
      int n = h::range(0, 3);
      QTypePtr q;
      if (h::coin()) {
        q = GetQType<int64_t>();
        for (int i = 0; i < n; ++i) v.push_back(TypedValue::FromValue(scalar<int64_t>()));
      } else {
        TypedValue e = V(depth - 1);
        q = e.GetType();
        for (int i = 0; i < n; ++i) v.push_back(e);
      }
      auto s = Ok(MutableSequence::Make(q, n), "sequence");
      for (int i = 0; i < n; ++i) s.UnsafeSetRef(i, v[i].AsRef());
      return Ok(TypedValue::FromValueWithQType(std::move(s).Finish(), GetSequenceQType(q)), "sequence");
    }
    case 15: {
      sim_probe("object");
      std::optional<Object> proto;
      for (int levels = h::range(1, 2); levels > 0; --levels) {
        std::vector<std::pair<std::string, TypedValue>> kv;
        for (int n = h::range(0, 4); n > 0; --n) kv.emplace_back(kNames[n], V(depth - 1));
        if (h::coin()) std::reverse(kv.begin(), kv.end());
        Object::Attributes a;
        for (auto& p : kv) a.emplace(p.first, p.second);
        proto = Object(std::move(a), proto);
      }
      return TypedValue::FromValue(*proto);
    }
    case 16: {
      TypedValue base = V(depth - 1);
      QTypePtr q = GetLabeledQType(base.GetType(), name());
      if (DecayDerivedQType(q) != base.GetType()) return base;
      sim_probe("labeled");
      return UnsafeDowncastDerivedQValue(q, base);
    }
    case 17: return TypedValue::FromValue(ExprQuote(E(depth - 1)));
    case 18: case 19: return TypedValue::FromValue(Op(depth - 1));
    case 20: return TypedValue::FromValue(Forest());
    case 21: return with_type(h::range(0, 8), [](auto t) {  // parts of one array
      using T = decltype(t);
      sim_probe("parts");
      Array<T> a = array<T>();
      std::vector<TypedValue> f;
      int k = a.size() > 3 ? h::range(1, static_cast<int>(a.size()) - 3) : 0;
      for (int i = 0; k && i < 3; ++i) f.push_back(TypedValue::FromValue(a.Slice(h::range(0, static_cast<int>(a.size()) - k), k)));
      return MakeTuple(f);
    });
    default: return V(depth - 1);
  }
}
std::string doc() { return h::coin() ? "" : kTexts[h::range(1, 4)]; }
// A signature of one or two parameters, perhaps with defaults.
ExprOperatorSignature Sig(int depth) {
  switch (h::range(0, 3)) {
    case 0: return Ok(ExprOperatorSignature::Make("x"), "signature");
    case 1: return Ok(ExprOperatorSignature::Make("x, y=", {V(depth)}), "signature");
    case 2: return Ok(ExprOperatorSignature::Make("x, *y"), "signature");
    default: return Ok(ExprOperatorSignature::Make("x, y"), "signature");
  }
}
ExprNodePtr Body(int depth, bool two) {
  auto tuple = [](std::vector<ExprNodePtr> d) { return ExprNode::UnsafeMakeOperatorNode(expr::ExprOperatorPtr(MakeTupleOperator::Make()), std::move(d), {}); };
  std::vector<ExprNodePtr> d = {Placeholder("x")};
  if (two) d.push_back(Placeholder("y"));
  if (depth > 0 && h::coin()) d.push_back(Literal(V(depth - 1)));
  return tuple(std::move(d));
}
ExprNodePtr Condition() {  // a predicate on input types
  return Ok(CallOp("core.presence_or", {Literal(OptionalUnit(kPresent)), Literal(OptionalUnit(kMissing))}), "condition");
}
// Operators with conditions cannot be read without type inference.
bool conditions = false;
ExprOperatorPtr Op(int depth) {
  switch (h::range(0, depth > 0 ? 12 : 3)) {
    case 0: { const char* n[] = {"test.add", "core.where", "test.not_registered", "test.check"}; return std::make_shared<RegisteredOperator>(n[h::range(0, 3)]); }
    case 1: return MakeTupleOperator::Make();
    case 2: return Ok(GetNthOperator::Make(h::range(0, 5)), "get_nth");
    case 3: return std::make_shared<operator_loader::DummyOperator>(name(), Ok(ExprOperatorSignature::Make("x"), "signature"), doc(), Q(1));
    case 4: case 5: {
      sim_probe("lambda");
      ExprOperatorSignature s = Sig(depth - 1);
      return Ok(LambdaOperator::Make(name(), s, Body(depth, s.parameters.size() > 1), doc()), "lambda");
    }
    case 6: return std::make_shared<OverloadedOperator>(name(), std::vector<ExprOperatorPtr>{Op(depth - 1), Op(depth - 1)});
    case 7: {
      sim_probe("restricted-lambda"); conditions = true;
      auto base = Ok(LambdaOperator::Make(name(), Ok(ExprOperatorSignature::Make("x"), "signature"), Body(depth, false), doc()), "lambda");
      std::vector<operator_loader::QTypeConstraint> c;
      for (int n = h::range(0, 2); n > 0; --n) c.push_back({Condition(), kTexts[h::range(1, 4)]});
      return Ok(operator_loader::RestrictedLambdaOperator::Make(std::dynamic_pointer_cast<const LambdaOperator>(base), c), "restricted lambda");
    }
    case 8: {
      sim_probe("backend-operator"); conditions = true;
      std::vector<operator_loader::QTypeConstraint> c;
      for (int n = h::range(0, 2); n > 0; --n) c.push_back({Condition(), kTexts[h::range(1, 4)]});
      return Ok(operator_loader::BackendOperator::Make(name(), Sig(depth - 1), doc(), c, h::coin() ? Placeholder("x") : Literal(GetQType<float>())), "backend operator");
    }
    case 9: {
      sim_probe("dispatch"); conditions = true;
      ExprOperatorSignature s = Sig(depth - 1);
      auto some = [&]() -> ExprOperatorPtr { return Ok(LambdaOperator::Make(name(), s, Body(depth, s.parameters.size() > 1), doc()), "lambda"); };
      std::vector<operator_loader::DispatchOperator::Overload> o;
      int n = h::range(0, 2);
      for (int i = 0; i < n; ++i) o.push_back({kNames[i], some(), Condition()});
      return Ok(operator_loader::DispatchOperator::Make(name(), s, doc(), o, h::coin() ? some() : nullptr), "dispatch");
    }
    case 10: {
      sim_probe("generic"); conditions = true;
      if (h::coin()) return Ok(operator_loader::GenericOperator::Make("some.name", Sig(depth - 1), doc()), "generic");
      ExprOperatorSignature s = Ok(ExprOperatorSignature::Make(h::coin() ? "x" : "x, y"), "signature");
      ExprOperatorPtr base = Ok(LambdaOperator::Make(name(), s, Body(depth, s.parameters.size() > 1), doc()), "lambda");
      return Ok(operator_loader::GenericOperatorOverload::Make(name(), s, Condition(), base), "generic overload");
    }
    case 11: {
      sim_probe("while-loop");
      auto l = [](const char* n, ExprNodePtr e) { return Ok(MakeLambdaOperator(n, Ok(ExprOperatorSignature::Make("s, c"), "signature"), e), "lambda"); };
      return Ok(expr_operators::WhileLoopOperator::Make(name(), Ok(ExprOperatorSignature::Make("s, c"), "signature"), l("cond", Ok(CallOp("test.less", {Placeholder("s"), Placeholder("c")}), "less")), l("body", Ok(CallOp("test.step", {Placeholder("s"), Placeholder("c")}), "step"))), "while");
    }
    default: {
      sim_probe("forest-model");
      ForestModel::ConstructorArgs a;
      a.forest = Forest();
      int n = std::max<int>(1, a.forest->submodel_count());
      std::vector<int> ids;
      for (int i = 0; i < n; ++i) ids.push_back(i);
      a.submodel_ids["m"] = ids;
      a.inputs.push_back({"p", h::coin() ? Ok(CallOp("test.check", {Placeholder("v")}), "pre") : nullptr});
      if (h::coin() || a.forest->GetRequiredQTypes().size() > 1) a.inputs.push_back({"q"});
      a.expression = Placeholder("m");
      auto r = ForestModel::Create(a);
      if (r.ok()) { sim_probe("forest-model-made"); return *r; }
      return MakeTupleOperator::Make();
    }
  }
}
bool maybe_unregistered(const ExprNodePtr& e) { return ToDebugString(e).find("not_registered") != std::string::npos; }
ExprNodePtr E(int depth) {
  switch (h::range(0, depth > 0 ? 7 : 1)) {
    case 0: return Leaf(name());
    case 1: return Placeholder(name());
    case 2: return Literal(V(depth - 1));
    case 3: { auto r = CallOp("test.add", {E(depth - 1), E(depth - 1)}); if (r.ok()) return *r; return Leaf("z"); }
    case 4: {
      auto op = Op(depth - 1);
      auto r = MakeOpNode(op, {E(depth - 1)});
      if (r.ok()) return *r;
      return Leaf("w");
    }
    case 5: { auto e = E(depth - 1); auto r = MakeOpNode(MakeTupleOperator::Make(), {e, e, E(depth - 1)}); return Ok(r, "tuple"); }
    default: { auto r = CallOp("annotation.qtype", {E(depth - 1), Literal(Q(1))}); if (r.ok()) return *r; return E(depth - 1); }
  }
}
struct Content {
  std::vector<TypedValue> values;
  std::vector<ExprNodePtr> exprs;
};
std::string noaddr(std::string s) {
  for (size_t p; (p = s.find(" at 0x")) != std::string::npos;) { size_t e = p + 6; while (e < s.size() && isxdigit(s[e])) ++e; s.erase(p, e - p); }
  return s;
}
std::string full(const TypedValue& v) {
  std::string s = noaddr(v.Repr());
  for (int t = 0; t < 9; ++t) with_type(t, [&](auto x) {  // all of it, not only the first elements
    using T = decltype(x);
    auto all = [&](const auto& a) { for (int64_t i = 0; i < a.size() && i < 300; ++i) { s += ' '; auto o = a[i]; s += o.present ? GenReprToken(T(o.value)).str : std::string("NA"); } };
    if (v.GetType() == GetDenseArrayQType<T>()) all(v.UnsafeAs<DenseArray<T>>());
    if (v.GetType() == GetArrayQType<T>()) { all(v.UnsafeAs<Array<T>>()); if (v.UnsafeAs<Array<T>>().size() < 1000) all(v.UnsafeAs<Array<T>>().ToDenseForm().dense_data()); }
  });
  if (v.GetType() == GetQType<ExprOperatorPtr>()) {
    const auto& op = v.UnsafeAs<ExprOperatorPtr>();
    auto d = op->GetDoc();
    auto g = op->GetSignature();
    s += d.ok() ? *d : "?";
    if (g.ok()) s += GetExprOperatorSignatureSpec(**g);
    if (auto* f = dynamic_cast<const ForestModel*>(op.get())) s += f->forest()->fingerprint().AsString();
  }
  if (v.GetType() == GetQType<Text>()) s += v.UnsafeAs<Text>().view();
  return s;
}
void Same(const char* how, const TypedValue& a, const TypedValue& b) {
  SIM_CHECK(a.GetType() == b.GetType(), "changed", "%s: %s of type %s came back as %s", how, a.Repr().c_str(), std::string(a.GetType()->name()).c_str(), std::string(b.GetType()->name()).c_str());
  SIM_CHECK(full(a) == full(b), "changed", "%s: %s came back as %s", how, full(a).c_str(), full(b).c_str());
  SIM_CHECK(a.GetFingerprint() == b.GetFingerprint(), "changed", "%s: %s came back as something else", how, a.Repr().c_str());
}
void Same(const char* how, const ExprNodePtr& a, const ExprNodePtr& b) {
  SIM_CHECK(a->fingerprint() == b->fingerprint(), "changed", "%s: %s came back as %s", how, ToDebugString(a, true).c_str(), ToDebugString(b, true).c_str());
  SIM_CHECK(a->qtype() == b->qtype(), "changed", "%s: the type of %s changed", how, ToDebugString(a, true).c_str());
}
void Same(const char* how, const Content& c, const serialization::DecodeResult& r) {
  SIM_CHECK(c.values.size() == r.values.size() && c.exprs.size() == r.exprs.size(), "changed", "%s: %zu+%zu items came back as %zu+%zu", how, c.values.size(), c.exprs.size(), r.values.size(), r.exprs.size());
  for (size_t i = 0; i < c.values.size(); ++i) Same(how, c.values[i], r.values[i]);
  for (size_t i = 0; i < c.exprs.size(); ++i) Same(how, c.exprs[i], r.exprs[i]);
}
// ---- Storage -------------------------------------------------------------
thread_local int fail_at = -1;  // record to fail at
thread_local char fail_what = 0;
thread_local int fails = 0;
absl::Status storage_fault(char what, uint64_t i) {
  if (what == fail_what && static_cast<int>(i) == fail_at) { ++fails; return what == 'w' || what == 'c' ? absl::ResourceExhaustedError("disk full") : absl::UnavailableError("read error"); }
  return absl::OkStatus();
}
struct Injected {
  Injected(char what, int at) { fail_what = what; fail_at = at; fails = 0; riegeli::sim::fault = &storage_fault; }
  ~Injected() { riegeli::sim::fault = nullptr; }
};
std::vector<std::string> Records(const std::string& file) {
  std::vector<std::string> v;
  for (size_t p = 0; p + 8 <= file.size();) {
    uint32_t hdr[2];
    memcpy(hdr, file.data() + p, 8);
    v.push_back(file.substr(p + 8, hdr[0]));
    p += 8 + hdr[0];
  }
  return v;
}
std::string File(const std::vector<std::string>& recs) {
  std::string s;
  for (auto& r : recs) riegeli::sim::Append(s, r);
  return s;
}
std::string Bytes_(const ContainerProto& p) { std::string s; p.SerializeToString(&s); return s; }
// Usage counts as the format describes them.
std::vector<uint64_t> Uses(const std::vector<DecodingStepProto>& steps) {
  std::vector<uint64_t> n(steps.size());
  auto use = [&](uint64_t i) { if (i < n.size()) ++n[i]; };
  for (auto& s : steps) {
    switch (s.type_case()) {
      case DecodingStepProto::kLiteralNode: use(s.literal_node().literal_value_index()); break;
      case DecodingStepProto::kOperatorNode: use(s.operator_node().operator_value_index()); for (auto i : s.operator_node().input_expr_indices()) use(i); break;
      case DecodingStepProto::kValue: for (auto i : s.value().input_value_indices()) use(i); for (auto i : s.value().input_expr_indices()) use(i); break;
      case DecodingStepProto::kOutputValueIndex: use(s.output_value_index()); break;
      case DecodingStepProto::kOutputExprIndex: use(s.output_expr_index()); break;
      default: break;
    }
  }
  return n;
}
// The same content in the layout of version 1.
ContainerProto Older(const ContainerProto& p) {
  ContainerProto o;
  o.set_version(1);
  std::vector<uint64_t> at(p.decoding_steps_size());
  for (int i = 0; i < p.decoding_steps_size(); ++i) {
    DecodingStepProto s = p.decoding_steps(i);
    switch (s.type_case()) {
      case DecodingStepProto::kCodec: at[i] = o.codecs_size(); *o.add_codecs() = s.codec(); continue;
      case DecodingStepProto::kOutputValueIndex: o.add_output_value_indices(at[s.output_value_index()]); continue;
      case DecodingStepProto::kOutputExprIndex: o.add_output_expr_indices(at[s.output_expr_index()]); continue;
      case DecodingStepProto::kLiteralNode: s.mutable_literal_node()->set_literal_value_index(at[s.literal_node().literal_value_index()]); break;
      case DecodingStepProto::kOperatorNode: {
        auto* n = s.mutable_operator_node();
        n->set_operator_value_index(at[n->operator_value_index()]);
        for (int k = 0; k < n->input_expr_indices_size(); ++k) n->set_input_expr_indices(k, at[n->input_expr_indices(k)]);
        break;
      }
      case DecodingStepProto::kValue: {
        auto* n = s.mutable_value();
        n->set_codec_index(at[n->codec_index()]);
        for (int k = 0; k < n->input_value_indices_size(); ++k) n->set_input_value_indices(k, at[n->input_value_indices(k)]);
        for (int k = 0; k < n->input_expr_indices_size(); ++k) n->set_input_expr_indices(k, at[n->input_expr_indices(k)]);
        break;
      }
      default: break;
    }
    at[i] = o.decoding_steps_size();
    *o.add_decoding_steps() = s;
  }
  return o;
}
// Whatever could be read from damaged data has to be usable.
void Usable(const serialization::DecodeResult& r, bool inferred = true) {
  for (auto& v : r.values) (void)full(v);
  for (auto& e : r.exprs) (void)ToDebugString(e, true);
  if (!inferred) { sim_probe("damaged-uninferred"); return; }
  // What was accepted is as good as anything else: it can be stored and read.
  auto again = serialization::Encode(r.values, r.exprs);
  SIM_CHECK(again.ok(), "not-encodable", "read from damaged data: %s", again.status().ToString().c_str());
  auto back = serialization::Decode(*again);
  SIM_CHECK(back.ok(), "not-readable", "read from damaged data: %s", back.status().ToString().c_str());
  Same("read from damaged data", Content{r.values, r.exprs}, *back);
  sim_probe("damaged-readable");
}
bool AllFrom(const char* how, const Content& c, const serialization::DecodeResult& r) {
  // A subsequence of what was stored, possibly repeated.
  absl::flat_hash_set<Fingerprint> v, e;
  for (auto& x : c.values) v.insert(x.GetFingerprint());
  for (auto& x : c.exprs) e.insert(x->fingerprint());
  for (auto& x : r.values) SIM_CHECK(v.count(x.GetFingerprint()), "invented", "%s: %s was never stored", how, x.Repr().c_str());
  for (auto& x : r.exprs) SIM_CHECK(e.count(x->fingerprint()), "invented", "%s: %s was never stored", how, ToDebugString(x, true).c_str());
  return true;
}
void Damage(std::string& s) {
  if (s.empty()) return;
  int n = h::range(1, 3);
  for (int i = 0; i < n && !s.empty(); ++i) {
    size_t p = h::range(0, static_cast<int>(s.size()) - 1);
    switch (h::range(0, 4)) {
      case 0: s[p] ^= static_cast<char>(1 << h::range(0, 7)); break;
      case 1: s[p] = static_cast<char>(h::range(0, 255)); break;
      case 2: s.erase(p, 1); break;
      case 3: s.insert(p, 1, static_cast<char>(h::range(0, 255))); break;
      default: s[p] = static_cast<char>(s[p] + (h::coin() ? 1 : -1)); break;
    }
  }
}
// Whether damage made something so large that merely going through it takes
// forever (a size field is all it takes for an array of units).
bool Huge(const google::protobuf::Message& m) {
  using F = google::protobuf::FieldDescriptor;
  const auto* r = m.GetReflection();
  std::vector<const F*> fs;
  r->ListFields(m, &fs);
  for (const F* f : fs) {
    if (f->cpp_type() == F::CPPTYPE_MESSAGE) {
      if (!f->is_repeated()) { if (Huge(r->GetMessage(m, f))) return true; continue; }
      for (int i = 0; i < r->FieldSize(m, f); ++i) if (Huge(r->GetRepeatedMessage(m, f, i))) return true;
    } else if (f->cpp_type() == F::CPPTYPE_INT64 && !f->is_repeated() && f->name().find("size") != std::string::npos && r->GetInt64(m, f) > 4096) {
      sim_probe("damaged-huge");
      return true;
    }
  }
  return false;
}
bool HugeRecords(const std::vector<std::string>& recs) {
  for (auto& x : recs) { DecodingStepProto p; if (p.ParseFromString(x) && Huge(p)) return true; }
  return false;
}
// Damage to one field of a message, however deep.
void Mangle(google::protobuf::Message& m) {
  using F = google::protobuf::FieldDescriptor;
  const auto* r = m.GetReflection();
  std::vector<const F*> fs;
  r->ListFields(m, &fs);
  if (fs.empty()) return;
  const F* f = fs[h::range(0, static_cast<int>(fs.size()) - 1)];
  if (!h::one_in(3)) for (const F* g : fs) if (g->cpp_type() == F::CPPTYPE_MESSAGE) f = g;  // mostly the deep ones
  if (h::one_in(12)) { r->ClearField(&m, f); return; }
  auto number = [](int64_t v) -> int64_t {
    switch (h::range(0, 6)) {
      case 0: return v + 1;
      case 1: return v - 1;
      case 2: return 0;
      case 3: return -1;
      case 4: return h::coin() ? std::numeric_limits<int32_t>::max() : std::numeric_limits<int64_t>::max();
      case 5: return h::coin() ? std::numeric_limits<int32_t>::min() : std::numeric_limits<int64_t>::min();
      default: return h::range(0, 40);
    }
  };
  const bool rep = f->is_repeated();
  const int n = rep ? r->FieldSize(m, f) : 1;
  const int i = h::coin() ? 0 : h::coin() ? n - 1 : h::range(0, n - 1);
  if (rep && h::one_in(4)) { if (h::coin()) r->RemoveLast(&m, f); else r->SwapElements(&m, f, i, h::range(0, n - 1)); return; }
  switch (f->cpp_type()) {
    case F::CPPTYPE_MESSAGE: Mangle(rep ? *r->MutableRepeatedMessage(&m, f, i) : *r->MutableMessage(&m, f)); break;
#define NUM(K, G, T) case F::CPPTYPE_##K: if (rep) { r->SetRepeated##G(&m, f, i, static_cast<T>(number(static_cast<int64_t>(r->GetRepeated##G(m, f, i))))); if (h::one_in(4)) r->Add##G(&m, f, static_cast<T>(number(0))); } else { r->Set##G(&m, f, static_cast<T>(number(static_cast<int64_t>(r->Get##G(m, f))))); } break;
    NUM(INT32, Int32, int32_t)
    NUM(INT64, Int64, int64_t)
    NUM(UINT32, UInt32, uint32_t)
    NUM(UINT64, UInt64, uint64_t)
#undef NUM
    case F::CPPTYPE_ENUM: if (!rep) r->SetEnumValue(&m, f, static_cast<int>(number(r->GetEnumValue(m, f)))); break;
    case F::CPPTYPE_BOOL: if (!rep) r->SetBool(&m, f, !r->GetBool(m, f)); break;
    case F::CPPTYPE_STRING: {
      std::string v = rep ? r->GetRepeatedString(m, f, i) : r->GetString(m, f);
      if (h::one_in(6)) v = kTexts[h::range(0, 4)]; else Damage(v);
      if (f->type() == F::TYPE_STRING) for (char& c : v) if (c & 0x80) c = '?';
      if (rep) r->SetRepeatedString(&m, f, i, v); else r->SetString(&m, f, v);
      break;
    }
    default: break;
  }
}
void Session(const Content& c) {
  // Encoding.
  auto p = serialization::Encode(c.values, c.exprs);
  SIM_CHECK(p.ok(), "not-encodable", "%s", p.status().ToString().c_str());
  const std::string bytes = Bytes_(*p);
  std::string file;
  {
    auto r = serialization::EncodeAsRiegeliData(c.values, c.exprs, "");
    SIM_CHECK(r.ok(), "not-encodable", "%s", r.status().ToString().c_str());
    file = *std::move(r);
  }
  std::vector<std::string> recs = Records(file);
  for (int rounds = h::range(1, 3); rounds > 0; --rounds) {
    switch (h::range(0, 12)) {
      case 0: {
        ContainerProto q;
        SIM_CHECK(q.ParseFromString(bytes), "harness", "parse");
        auto r = serialization::Decode(q);
        SIM_CHECK(r.ok(), "not-readable", "%s", r.status().ToString().c_str());
        Same("container", c, *r);
        sim_probe("container");
        break;
      }
      case 1: {
        auto r = serialization::DecodeFromRiegeliData(file);
        SIM_CHECK(r.ok(), "not-readable", "%s", r.status().ToString().c_str());
        Same("records", c, *r);
        sim_probe("records");
        break;
      }
      case 2: {  // the same content again, from objects built anew
        auto r = serialization::Decode(*p);
        SIM_CHECK(r.ok(), "not-readable", "%s", r.status().ToString().c_str());
        auto q = serialization::Encode(r->values, r->exprs);
        SIM_CHECK(q.ok(), "not-encodable", "%s", q.status().ToString().c_str());
        SIM_CHECK(Bytes_(*q) == bytes, "not-deterministic", "encoding what was read gives other bytes");
        sim_probe("same-bytes");
        break;
      }
      case 3: {
        ContainerProto old = Older(*p);
        if (h::coin()) {  // values without the index of their codec
          for (auto& s : *old.mutable_decoding_steps()) if (s.has_value()) s.mutable_value()->clear_codec_index();
          sim_probe("codec-detected");
        }
        auto r = serialization::Decode(old);
        SIM_CHECK(r.ok(), "not-readable", "older layout: %s", r.status().ToString().c_str());
        Same("older layout", c, *r);
        sim_probe("older-layout");
        break;
      }
      case 4: {  // hints about usage
        std::vector<DecodingStepProto> steps(recs.size() - 1);
        for (size_t i = 0; i < steps.size(); ++i) SIM_CHECK(steps[i].ParseFromString(recs[i]), "harness", "parse");
        auto uses = Uses(steps);
        if (steps.empty()) break;
        const bool wrong = sim_fault("wrong-hints", 300);
        if (wrong) { auto& u = uses[h::range(0, static_cast<int>(uses.size()) - 1)]; u = h::coin() ? u + 1 : u ? u - 1 : 1; }
        int at = h::range(0, static_cast<int>(steps.size()) - 1);
        int upto = h::coin() ? static_cast<int>(uses.size()) : h::range(1, static_cast<int>(uses.size()));
        for (int i = 0; i < upto; ++i) steps[at].mutable_decoder_hints()->add_decoding_step_result_usage_counts(uses[i]);
        auto rs = recs;
        rs[at] = steps[at].SerializeAsString();
        auto r = serialization::DecodeFromRiegeliData(File(rs));
        if (wrong) { if (r.ok()) Same("wrong hints", c, *r); break; }
        SIM_CHECK(r.ok(), "not-readable", "with usage hints: %s", r.status().ToString().c_str());
        Same("usage hints", c, *r);
        sim_probe("hints");
        break;
      }
      case 5: {  // the disk is full
        Injected f('w', h::range(0, static_cast<int>(recs.size())));
        auto r = serialization::EncodeAsRiegeliData(c.values, c.exprs, "");
        if (!fails) { SIM_CHECK(r.ok() && *r == file, "not-deterministic", "another encoding of the same content differs"); break; }
        SIM_CHECK(!r.ok(), "failure-lost", "a full disk was reported as success");
        SIM_CHECK(r.status().code() == absl::StatusCode::kResourceExhausted, "wrong-error", "a full disk became %s", r.status().ToString().c_str());
        sim_probe("fault:disk-full");
        break;
      }
      case 6: {
        Injected f('c', 0);
        auto r = serialization::EncodeAsRiegeliData(c.values, c.exprs, "");
        SIM_CHECK(!r.ok(), "failure-lost", "closing a file failed and was reported as success");
        sim_probe("fault:close-failed");
        break;
      }
      case 7: {  // a read error
        const bool close = h::one_in(4);
        Injected f(close ? 'C' : 'r', close ? 0 : h::range(0, static_cast<int>(recs.size()) - 1));
        auto r = serialization::DecodeFromRiegeliData(file);
        SIM_CHECK(fails, "harness", "no read error");
        SIM_CHECK(!r.ok() && r.status().code() == absl::StatusCode::kUnavailable, "failure-lost", "a read error became %s", r.status().ToString().c_str());
        sim_probe("fault:read-error");
        break;
      }
      case 8: {  // a crash while writing: only a part survived
        size_t cut = 0;
        if (h::coin()) { auto rs = recs; rs.resize(h::range(0, static_cast<int>(recs.size()) - 1)); cut = File(rs).size(); sim_probe("fault:lost-tail"); }
        else { cut = h::range(0, static_cast<int>(file.size()) - 1); sim_probe("fault:torn-record"); }
        auto r = serialization::DecodeFromRiegeliData(file.substr(0, cut));
        SIM_CHECK(!r.ok(), "partial-accepted", "%zu of %zu bytes of a file were accepted as a complete one", cut, file.size());
        break;
      }
      case 9: {  // a record that got lost in the middle
        auto rs = recs;
        if (rs.size() < 2) break;
        rs.erase(rs.begin() + h::range(0, static_cast<int>(rs.size()) - 2));
        auto r = serialization::DecodeFromRiegeliData(File(rs));
        if (r.ok()) { Usable(*r); sim_probe("fault:lost-record"); sim_probe("lost-record-readable"); } else sim_probe("fault:lost-record"); sim_probe("lost-record-refused");
        break;
      }
      case 10: {  // a record written twice, or two of them swapped, or bytes damaged
        auto rs = recs;
        int k = h::range(0, static_cast<int>(rs.size()) - 1);
        if (h::coin()) { Damage(rs[k]); sim_probe("fault:damaged-record"); }
        else if (h::coin()) { rs.insert(rs.begin() + k, rs[k]); sim_probe("fault:repeated-record"); }
        else { std::swap(rs[k], rs[h::range(0, static_cast<int>(rs.size()) - 1)]); sim_probe("fault:swapped-records"); }
        if (HugeRecords(rs)) break;
        auto r = serialization::DecodeFromRiegeliData(File(rs));
        if (r.ok()) Usable(*r); else sim_probe("damaged-refused");
        break;
      }
      case 11: {
        if (h::coin()) {  // containers, damaged
          for (int tries = bytes.size() < 400 ? h::range(10, 30) : h::range(1, 6); tries > 0; --tries) {
            ContainerProto q;
            if (h::one_in(4)) {
              std::string b = bytes;
              Damage(b);
              if (!q.ParseFromString(b)) { sim_probe("fault:damaged-bytes"); continue; }
            } else {
              q = *p;
              if (q.decoding_steps_size() == 0) break;
              for (int k = h::one_in(3) ? 2 : 1; k > 0; --k) Mangle(*q.mutable_decoding_steps(h::range(0, q.decoding_steps_size() - 1)));
              sim_probe("fault:damaged-field");
            }
            if (Huge(q)) continue;
            serialization::DecodingOptions o;
            o.infer_attributes_for_operator_nodes = !h::one_in(4);
            auto r = serialization::Decode(q, o);
            if (r.ok()) Usable(*r, o.infer_attributes_for_operator_nodes); else sim_probe("damaged-refused");
          }
        } else {  // containers that lack steps at the end, or have one twice
          ContainerProto q = *p;
          if (q.decoding_steps_size() == 0) break;
          int k = h::range(0, q.decoding_steps_size() - 1);
          if (h::coin()) q.mutable_decoding_steps()->DeleteSubrange(k, q.decoding_steps_size() - k);
          else { *q.add_decoding_steps() = q.decoding_steps(k); }
          auto r = serialization::Decode(q);
          if (r.ok()) AllFrom("shortened", c, *r);
          sim_probe("fault:shortened");
        }
        break;
      }
      case 12: {  // without looking operators up
        serialization::DecodingOptions o;
        o.infer_attributes_for_operator_nodes = false;
        auto r = serialization::Decode(*p, o);
        if (conditions && !r.ok()) break;
        SIM_CHECK(r.ok(), "not-readable", "%s", r.status().ToString().c_str());
        SIM_CHECK(r->values.size() == c.values.size() && r->exprs.size() == c.exprs.size(), "changed", "%zu+%zu items came back", r->values.size(), r->exprs.size());
        for (size_t i = 0; i < c.exprs.size(); ++i) SIM_CHECK(noaddr(ToDebugString(c.exprs[i])) == noaddr(ToDebugString(r->exprs[i])), "changed", "%s came back as %s", ToDebugString(c.exprs[i]).c_str(), ToDebugString(r->exprs[i]).c_str());
        sim_probe("without-inference");
        break;
      }
    }
  }
}
void Sets(std::vector<ExprNodePtr> exprs) {
  for (int n = h::coin() ? h::range(1, 20) : 0; n > 0; --n) exprs.push_back(Leaf(name()));
  absl::flat_hash_map<std::string, ExprNodePtr> a, b;
  const bool alike = h::coin();
  auto set_name = [&](size_t i) { return alike ? "some_long_prefix_" + std::to_string(i) : std::string(kNames[i % 5]); };
  if (h::coin()) b.reserve(h::range(1, 60));
  for (size_t i = 0; i < exprs.size(); ++i) a.emplace(set_name(i), exprs[i]);
  for (size_t i = exprs.size(); i-- > 0;) if (a.at(set_name(i)) == exprs[i]) b.emplace(set_name(i), exprs[i]);
  auto p = serialization::EncodeExprSet(a), q = serialization::EncodeExprSet(b);
  SIM_CHECK(p.ok() && q.ok(), "not-encodable", "%s", p.status().ToString().c_str());
  SIM_CHECK(Bytes_(*p) == Bytes_(*q), "not-deterministic", "a set of expressions was encoded in two ways");
  auto r = serialization::DecodeExprSet(*p);
  SIM_CHECK(r.ok() && r->size() == a.size(), "not-readable", "%s", r.status().ToString().c_str());
  for (auto& [n, e] : a) { SIM_CHECK(r->count(n), "changed", "%s is gone", n.c_str()); Same("set", e, r->at(n)); }
  sim_probe("set");
}
}  // namespace

void sim_scenario() {
  const int nt = h::one_in(3) ? h::range(2, 3) : 1;
  const int depth = h::range(0, 3);
  std::vector<Content> contents;
  for (int n = h::range(1, nt); n > 0; --n) {
    Content c;
    for (int k = h::range(0, 3); k > 0; --k) c.values.push_back(V(depth));
    for (int k = h::range(0, 2); k > 0; --k) c.exprs.push_back(E(depth));
    if (!c.values.empty() && h::coin()) c.values.push_back(c.values[0]);
    contents.push_back(c);
  }
  for (auto& c : contents) {
    for (auto& v : c.values) sim_note("value %s", noaddr(v.Repr()).c_str());
    for (auto& e : c.exprs) sim_note("expr %s", noaddr(ToDebugString(e, true)).c_str());
  }
  if (nt == 1) {
    Session(contents[0]);
    if (h::one_in(4)) Sets(contents[0].exprs);
    return;
  }
  sim_probe("parallel");
  h::Threads ts;
  for (int i = 0; i < nt; ++i) ts.go([&, i] {
    Session(contents[i % contents.size()]);
    if (h::one_in(4)) Sets(contents[i % contents.size()].exprs);
  });
  ts.join();
}
