// Process-wide registries used while others register: every one behaves as an
// atomic map (or list) with its documented rule for a second registration.
#include <map>
#include "h.h"
#include "lin.h"
#include "arolla/codegen/expr/optimizations.h"
#include "arolla/codegen/expr/types.h"
#include "arolla/derived_qtype/labeled_qtype.h"
#include "arolla/expr/basic_expr_operator.h"
#include "arolla/expr/eval/extensions.h"
#include "arolla/expr/expr.h"
#include "arolla/expr/operator_repr_functions.h"
#include "arolla/expr/registered_expr_operator.h"
#include "arolla/jagged_shape/qtype/qtype.h"
#include "arolla/qexpr/operator_metadata.h"
#include "arolla/qtype/derived_qtype.h"
#include "arolla/qtype/tuple_qtype.h"
#include "arolla/qtype/typed_value.h"
#include "arolla/serialization_base/encoder.h"
#include "arolla/serialization_base/container.h"
#include "arolla/serialization_codecs/registry.h"
#include "arolla/util/init_arolla.h"

using namespace arolla;
using namespace arolla::expr;
extern "C" const char* const sim_harness_name = "regmaps";
namespace {
using lin::Op;
using lin::State;

// A type (over INT32) with specialization keys for itself and its values.
class Keyed final : public BasicDerivedQType {
 public:
  Keyed(std::string name, std::string type_key, std::string value_key)
      : BasicDerivedQType(ConstructorArgs{.name = std::move(name), .base_qtype = GetQType<int32_t>(), .qtype_specialization_key = std::move(type_key)}),
        value_key_(std::move(value_key)) {}
  absl::string_view UnsafePyQValueSpecializationKey(const void*) const final { return value_key_; }
 private:
  std::string value_key_;
};
// types[i]: type key k(i%2), value key p(i%2) for i<2, none for others
std::vector<QTypePtr>* types;
std::vector<TypedValue>* values;
std::vector<ExprNodePtr>* nodes;   // nodes[i]: x.op<i>() of registered operator
std::vector<ExprNodePtr>* direct;  // direct[i]: node whose operator has specialization key "sk<i>"

class Nop final : public ExprOperatorWithFixedSignature {
 public:
  Nop(std::string name, std::string key)
      : ExprOperatorWithFixedSignature(name, ExprOperatorSignature{}, "doc", FingerprintHasher("Nop").Combine(name, key).Finish()), key_(std::move(key)) {}
  absl::StatusOr<ExprAttributes> InferAttributes(absl::Span<const ExprAttributes>) const final { return ExprAttributes(GetQType<int32_t>()); }
  absl::string_view py_qvalue_specialization_key() const final { return key_; }
 private:
  std::string key_;
};

struct Adapter {
  std::string name;
  std::vector<std::string> kinds;
  std::function<Op()> gen;
  std::function<long(const Op&)> run;
  lin::Model model;
  State init;
  std::function<void()> setup = [] {};
};
struct NullContainer final : serialization_base::ContainerBuilder {
  absl::StatusOr<uint64_t> Add(serialization_base::DecodingStepProto&&) final { return 0; }
};
template <typename S> long code(const S& s) { return s.ok() ? 0 : -static_cast<long>(s.code()); }

Adapter encoders() {
  // state: by type 0..2, by key k0 k1 p0 p1 (3..6)
  static std::vector<std::string> keys = {"k0", "k1", "p0", "p1"};
  Adapter a;
  a.name = "value-encoders";
  a.kinds = {"by-type", "by-key", "encode-type", "encode-value"};
  a.init = State(7, 0);
  a.gen = [] {
    Op o; o.kind = h::range(0, 3); o.a = o.kind == 1 ? h::range(0, 3) : h::range(0, 2); o.b = h::range(1, 1000); return o;
  };
  a.run = [](const Op& o) -> long {
    auto enc = [v = o.b](TypedRef, serialization_base::Encoder&) -> absl::StatusOr<serialization_base::ValueProto> {
      serialization_base::ValueProto p; p.set_codec_index(v); return p; };
    if (o.kind == 0) return code(serialization_codecs::RegisterValueEncoderByQType((*types)[o.a], enc));
    if (o.kind == 1) return code(serialization_codecs::RegisterValueEncoderByQValueSpecialisationKey(keys[o.a], enc));
    NullContainer nc;
    serialization_codecs::CodecBasedValueEncoder e;
    serialization_base::Encoder encoder(e, nc);
    absl::StatusOr<serialization_base::ValueProto> r;
    if (o.kind == 2) { auto v = TypedValue::FromValue((*types)[o.a]); r = e(v.AsRef(), encoder); }
    else r = e((*values)[o.a].AsRef(), encoder);
    return r.ok() ? static_cast<long>(r->codec_index()) : -static_cast<long>(r.status().code());
  };
  a.model = [](State& s, const Op& o) {
    const long exists = -static_cast<long>(absl::StatusCode::kInvalidArgument), none = -static_cast<long>(absl::StatusCode::kUnimplemented);
    if (o.kind <= 1) {
      long& slot = s[o.kind == 0 ? o.a : 3 + o.a];
      if (slot) return o.res == exists;
      slot = o.b;
      return o.res == 0;
    }
    const long by_type = s[o.a], by_tkey = o.a < 2 ? s[3 + o.a] : 0, by_vkey = o.a < 2 ? s[5 + o.a] : 0;
    long want = o.kind == 2 ? (by_type ? by_type : by_tkey) : (by_vkey ? by_vkey : by_type ? by_type : by_tkey);
    return o.res == (want ? want : none);
  };
  return a;
}
Adapter decoders() {
  static std::vector<std::string> names = {"c0", "c1"};
  Adapter a;
  a.name = "value-decoders";
  a.kinds = {"register", "lookup", "list"};
  a.init = State(2, 0);
  a.gen = [] { Op o; o.kind = h::range(0, 2); o.a = h::range(0, 1); o.b = h::range(1, 1000); return o; };
  a.run = [](const Op& o) -> long {
    using R = absl::StatusOr<serialization_base::ValueDecoderResult>;
    if (o.kind == 0)
      return code(serialization_codecs::RegisterValueDecoder(names[o.a], [v = o.b](const serialization_base::ValueProto&, absl::Span<const TypedValue>, absl::Span<const ExprNodePtr>) -> R {
        return TypedValue::FromValue<int32_t>(v); }));
    if (o.kind == 2) {
      long m = 0;
      auto v = serialization_codecs::GetRegisteredValueDecoderCodecNames();
      for (size_t i = 0; i + 1 < v.size(); ++i) SIM_CHECK(v[i] < v[i + 1], "bad-list", "codec names not sorted or repeated");
      for (int i = 0; i < 2; ++i) if (std::count(v.begin(), v.end(), names[i])) m |= 1 << i;
      return m;
    }
    serialization_codecs::CodecBasedValueDecoderProvider p;
    auto d = p(names[o.a]);
    if (!d.ok()) return -static_cast<long>(d.status().code());
    auto r = (*d)(serialization_base::ValueProto(), {}, {});
    return std::get<TypedValue>(*r).UnsafeAs<int32_t>();
  };
  a.model = [](State& s, const Op& o) {
    if (o.kind == 0) { s[o.a] = o.b; return o.res == 0; }
    if (o.kind == 2) return o.res == (s[0] ? 1 : 0) + (s[1] ? 2 : 0);
    return o.res == (s[o.a] ? s[o.a] : -static_cast<long>(absl::StatusCode::kInvalidArgument));
  };
  return a;
}
Adapter metadata() {
  // state per name (2): family value, op value for 2 signatures
  static std::vector<std::string> names = {"vv.m0", "vv.m1"};
  static std::vector<std::vector<QTypePtr>> sigs = {{GetQType<int32_t>()}, {GetQType<float>(), GetQType<float>()}};
  Adapter a;
  a.name = "operator-metadata";
  a.kinds = {"family", "operator", "lookup", "list"};
  a.init = State(6, 0);
  a.gen = [] { Op o; o.kind = h::range(0, 3); o.a = h::range(0, 1); o.b = h::range(1, 1000); o.c = h::range(0, 1); return o; };
  a.run = [](const Op& o) -> long {
    auto& reg = QExprOperatorMetadataRegistry::GetInstance();
    BuildDetails d; d.build_target = "//t:" + std::to_string(o.b);
    if (o.kind == 0) return code(reg.AddOperatorFamilyMetadata({.name = names[o.a], .family_build_details = d}));
    if (o.kind == 1) return code(reg.AddOperatorMetadata({.name = names[o.a], .input_qtypes = sigs[o.c], .build_details = d}));
    if (o.kind == 3) {
      auto deps = reg.OperatorBuildDependencies();
      long m = 0;
      for (auto& [k, v] : deps)
        for (int i = 0; i < 2; ++i) {
          if (k == names[i] + "(...)") m |= 1 << (3 * i);
          else if (k == names[i] + "(INT32)") m |= 2 << (3 * i);
          else if (k == names[i] + "(FLOAT32,FLOAT32)") m |= 4 << (3 * i);
        }
      return m;
    }
    auto r = reg.LookupOperatorMetadata(names[o.a], sigs[o.c]);
    if (!r.ok()) return -static_cast<long>(r.status().code());
    SIM_CHECK(r->name == names[o.a] && r->input_qtypes == sigs[o.c], "wrong-entry", "metadata of another operator: %s", r->name.c_str());
    return atol(r->build_details.build_target.c_str() + 4);
  };
  a.model = [](State& s, const Op& o) {
    long* p = &s[3 * o.a];
    const long exists = -static_cast<long>(absl::StatusCode::kAlreadyExists);
    if (o.kind == 0) { if (p[0] || p[1] || p[2]) return o.res == exists; p[0] = o.b; return o.res == 0; }
    if (o.kind == 1) { if (p[0] || p[1 + o.c]) return o.res == exists; p[1 + o.c] = o.b; return o.res == 0; }
    if (o.kind == 3) { long m = 0; for (int i = 0; i < 6; ++i) if (s[i]) m |= 1 << i; return o.res == m; }
    long want = p[0] ? p[0] : p[1 + o.c];
    return o.res == (want ? want : -static_cast<long>(absl::StatusCode::kNotFound));
  };
  return a;
}
Adapter reprs() {
  // state: by name n0 n1, by key sk0 sk1
  Adapter a;
  a.name = "operator-repr";
  a.kinds = {"by-name", "by-key", "format-registered", "format-direct"};
  a.init = State(4, 0);
  a.gen = [] { Op o; o.kind = h::range(0, 3); o.a = h::range(0, 1); o.b = h::one_in(4) ? 0 : h::range(1, 1000); return o; };
  a.run = [](const Op& o) -> long {
    OperatorReprFn fn;
    if (o.b) fn = [v = o.b](const ExprNodePtr&, const absl::flat_hash_map<Fingerprint, ReprToken>&) -> std::optional<ReprToken> { return ReprToken{std::to_string(v)}; };
    else fn = nullptr;
    if (o.kind == 0) { RegisterOpReprFnByByRegistrationName("vv.op" + std::to_string(o.a), std::move(fn)); return 0; }
    if (o.kind == 1) { RegisterOpReprFnByQValueSpecializationKey("sk" + std::to_string(o.a), std::move(fn)); return 0; }
    absl::flat_hash_map<Fingerprint, ReprToken> tokens;
    auto r = FormatOperatorNodePretty(o.kind == 2 ? (*nodes)[o.a] : (*direct)[o.a], tokens);
    return r ? atol(r->str.c_str()) : 0;
  };
  a.model = [](State& s, const Op& o) {
    if (o.kind == 0) { s[o.a] = o.b; return true; }
    if (o.kind == 1) { s[2 + o.a] = o.b; return true; }
    return o.res == s[o.kind == 2 ? o.a : 2 + o.a];
  };
  return a;
}
// Registered functions run in registration order; a snapshot is consistent.
thread_local std::vector<int> order_seen;
Adapter extensions() {
  Adapter a;
  a.name = "compiler-extensions";
  a.kinds = {"node-fn", "compile-fn", "snapshot-node", "snapshot-compile"};
  a.init = State(2, 0);
  static int next_fn;
  a.setup = [] { next_fn = 0; };
  a.gen = [] { Op o; o.kind = h::range(0, 3); o.b = next_fn < 15 ? ++next_fn : 15; if (o.kind < 2 && o.b == 15) o.kind += 2; return o; };
  a.run = [](const Op& o) -> long {
    auto& reg = eval_internal::CompilerExtensionRegistry::GetInstance();
    if (o.kind == 0) {
      reg.RegisterNodeTransformationFn([v = o.b](const DynamicEvaluationEngineOptions&, const ExprNodePtr& n, const ExprOperatorPtr&) -> absl::StatusOr<ExprNodePtr> { order_seen.push_back(v); return n; });
      return 0;
    }
    if (o.kind == 1) {
      reg.RegisterCompileOperatorFn([v = o.b](const eval_internal::CompileOperatorFnArgs&) -> std::optional<absl::Status> { order_seen.push_back(v); return std::nullopt; });
      return 0;
    }
    auto set = reg.GetCompilerExtensionSet();
    long first = -1;
    for (int round = 0; round < 2; ++round) {  // a snapshot does not change
      order_seen.clear();
      DynamicEvaluationEngineOptions opts;
      ExprOperatorPtr op = (*direct)[0]->op();
      if (o.kind == 2) (void)set.node_transformation_fn(opts, (*direct)[0], op);
      else {
        FrameLayout::Builder b;
        eval_internal::CompileOperatorFnArgs args{.options = opts, .decayed_op = op, .node = (*direct)[0], .input_slots = {}, .output_slot = TypedSlot::FromSlot(b.AddSlot<int32_t>()), .executable_builder = nullptr};
        (void)set.compile_operator_fn(args);
      }
      long r = 0;
      for (int v : order_seen) r = r * 16 + v;
      if (first >= 0) SIM_CHECK(first == r, "snapshot-changed", "a set of compiler extensions changed after it was obtained");
      first = r;
    }
    return first;
  };
  a.model = [](State& s, const Op& o) {
    if (o.kind < 2) { s[o.kind] = s[o.kind] * 16 + o.b; return true; }
    return o.res == s[o.kind - 2];
  };
  return a;
}
Adapter codegen_types() {
  Adapter a;
  a.name = "codegen-types";
  a.kinds = {"register", "type-name", "literal", "construction"};
  a.init = State(3, 0);
  a.gen = [] { Op o; o.kind = h::range(0, 3); o.a = h::range(0, 2); o.b = h::range(1, 1000); return o; };
  a.run = [](const Op& o) -> long {
    QTypePtr t = (*types)[o.a];
    if (o.kind == 0) return code(codegen::RegisterCppType(t, std::to_string(o.b), [v = o.b](TypedRef) -> absl::StatusOr<std::string> { return std::to_string(v); }));
    auto r = o.kind == 1 ? codegen::CppTypeName(t) : o.kind == 2 ? codegen::CppLiteralRepr((*values)[o.a]) : codegen::CppQTypeConstruction(t);
    if (!r.ok()) return -static_cast<long>(r.status().code());
    return atol(r->c_str() + (o.kind == 3 ? sizeof("::arolla::GetQType<") - 1 : 0));
  };
  a.model = [](State& s, const Op& o) {
    if (o.kind == 0) { if (s[o.a]) return o.res == -static_cast<long>(absl::StatusCode::kFailedPrecondition); s[o.a] = o.b; return o.res == 0; }
    return o.res == (s[o.a] ? s[o.a] : -static_cast<long>(absl::StatusCode::kUnimplemented));
  };
  return a;
}
Adapter optimizers() {
  Adapter a;
  a.name = "codegen-optimizers";
  a.kinds = {"register", "get"};
  a.init = State(2, 0);
  a.gen = [] { Op o; o.kind = h::range(0, 1); o.a = h::range(0, 1); o.b = h::range(1, 1000); return o; };
  a.run = [](const Op& o) -> long {
    std::string n = "opt" + std::to_string(o.a);
    if (o.kind == 0) return code(codegen::RegisterOptimization(n, [v = o.b](ExprNodePtr) -> absl::StatusOr<ExprNodePtr> { return absl::InternalError(std::to_string(v)); }));
    auto r = codegen::GetOptimizer(n);
    if (!r.ok()) return -static_cast<long>(r.status().code());
    return atol(std::string((*r)(nullptr).status().message()).c_str());
  };
  a.model = [](State& s, const Op& o) {
    if (o.kind == 0) { if (s[o.a]) return o.res == -static_cast<long>(absl::StatusCode::kFailedPrecondition); s[o.a] = o.b; return o.res == 0; }
    return o.res == (s[o.a] ? s[o.a] : -static_cast<long>(absl::StatusCode::kNotFound));
  };
  return a;
}
Adapter shapes() {
  Adapter a;
  a.name = "jagged-shape-types";
  a.kinds = {"set", "get"};
  a.init = State(3, 0);
  a.gen = [] { Op o; o.kind = h::range(0, 1); o.a = h::range(0, 2); o.b = h::range(0, 2); return o; };
  a.run = [](const Op& o) -> long {
    if (o.kind == 0) return code(SetEdgeQTypeToJaggedShapeQType((*types)[o.a], (*types)[o.b]));
    auto r = GetJaggedShapeQTypeFromEdgeQType((*types)[o.a]);
    if (!r.ok()) return -static_cast<long>(r.status().code());
    return 1 + (std::find(types->begin(), types->end(), *r) - types->begin());
  };
  a.model = [](State& s, const Op& o) {
    const long bad = -static_cast<long>(absl::StatusCode::kInvalidArgument);
    if (o.kind == 0) { if (s[o.a]) return o.res == bad; s[o.a] = 1 + o.b; return o.res == 0; }
    return o.res == (s[o.a] ? s[o.a] : bad);
  };
  return a;
}
Adapter labels() {
  Adapter a;
  a.name = "label-repr";
  a.kinds = {"register", "override", "repr"};
  a.init = State(2, 0);
  a.gen = [] { Op o; o.kind = h::range(0, 2); o.a = h::range(0, 1); o.b = h::range(1, 1000); return o; };
  a.run = [](const Op& o) -> long {
    std::string label = "vv" + std::to_string(o.a);
    if (o.kind < 2) return code(RegisterLabeledQTypeReprFn(label, [v = o.b](TypedRef) -> std::optional<ReprToken> { return ReprToken{"=" + std::to_string(v)}; }, o.kind == 1));
    auto r = (*values)[3 + o.a].Repr();
    return r[0] == '=' ? atol(r.c_str() + 1) : 0;
  };
  a.model = [](State& s, const Op& o) {
    if (o.kind == 2) return o.res == s[o.a];
    if (o.kind == 0 && s[o.a]) return o.res == -static_cast<long>(absl::StatusCode::kInvalidArgument);
    s[o.a] = o.b;
    return o.res == 0;
  };
  return a;
}
std::vector<Adapter> make() { return {encoders(), decoders(), metadata(), reprs(), extensions(), codegen_types(), optimizers(), shapes(), labels()}; }
}  // namespace

void sim_init() {
  InitArolla();
  types = new std::vector<QTypePtr>{new Keyed("KA", "k0", "p0"), new Keyed("KB", "k1", "p1"), new Keyed("KC", "", "")};
  values = new std::vector<TypedValue>();
  for (QTypePtr t : *types) values->push_back(*TypedValue::FromValueWithQType<int32_t>(7, t));
  for (int i = 0; i < 2; ++i) values->push_back(*TypedValue::FromValueWithQType<int32_t>(7, GetLabeledQType(GetQType<int32_t>(), "vv" + std::to_string(i))));
  nodes = new std::vector<ExprNodePtr>();
  direct = new std::vector<ExprNodePtr>();
  for (int i = 0; i < 2; ++i) {
    auto name = "vv.op" + std::to_string(i);
    auto op = *RegisterOperator(name, std::make_shared<Nop>(name, ""));
    nodes->push_back(*CallOp(op, {}));
    direct->push_back(*CallOp(std::make_shared<Nop>("direct" + std::to_string(i), "sk" + std::to_string(i)), {}));
  }
}
void sim_scenario() {
  auto all = make();
  Adapter& a = all[h::range(0, static_cast<int>(all.size()) - 1)];
  a.setup();
  lin::History hist;
  const int n = h::range(1, 4);
  std::vector<std::vector<Op>> prog(n);
  for (auto& p : prog) for (int i = h::range(1, n > 2 ? 3 : 5); i > 0; --i) p.push_back(a.gen());
  {
    h::Threads ts;
    for (auto& p : prog) ts.go([&] { for (auto& o : p) { lin::record(hist, o, [&] { return a.run(o); }); } });
  }
  // What everybody finds afterwards.
  for (int i = h::range(0, 3); i > 0; --i) {
    Op o = a.gen();
    lin::record(hist, o, [&] { return a.run(o); });
  }
  sim_nopreempt_begin();
  hist.use([&](std::vector<Op>& v) {
    bool refused = false;
    for (auto& o : v) refused |= o.res < 0 && o.kind == 0;
    if (refused) sim_probe("refused");
    sim_probe(a.name.c_str());
    if (!lin::linearizable(v, a.init, a.model)) sim_fail(("not-linearizable:" + a.name).c_str(), "%s", lin::show(v, a.kinds).c_str());
  });
  sim_nopreempt_end();
}
