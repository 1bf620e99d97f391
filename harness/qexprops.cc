// The registry of backend (QExpr) operators under concurrent registration.
#include <map>
#include "h.h"
#include "lin.h"
#include "arolla/derived_qtype/labeled_qtype.h"
#include "arolla/qexpr/bound_operators.h"
#include "arolla/qexpr/operators.h"
#include "arolla/qexpr/qexpr_operator_signature.h"
#include "arolla/qtype/base_types.h"
#include "arolla/qtype/optional_qtype.h"
#include "arolla/qtype/tuple_qtype.h"
#include "arolla/util/init_arolla.h"

using namespace arolla;
extern "C" const char* const sim_harness_name = "qexprops";
namespace {
using lin::Op;
using lin::State;
const std::vector<std::string> kKinds = {"register", "family", "lookup", "list", "held-family"};
const char* const kNames[] = {"vv.a", "vv.b"};
struct Sig { std::vector<QTypePtr> in; QTypePtr out; };
// What can be registered (first kReg) and asked for.
constexpr int kReg = 4, kAsk = 10;
// Two operators may share argument types and differ in the result: those of signature 0
// with such an id return INT64, and only questions 8 and 9 ask for that.
bool Wide(long id) { return id % 3 == 0; }
std::vector<Sig>* sigs;
// Which registrable signatures answer question `q`, best first (spelled out by hand: the
// rules are: same types; then derived types decay; then implicit casts to a wider type).
const std::vector<std::vector<int>> kAnswers = {
    {0, 3},  // (INT32)->INT32; else (INT64)->INT32 by widening
    {1},     // (INT32,INT32)->INT32
    {2},     // (FLOAT32)->FLOAT32
    {3},     // (INT64)->INT32
    {0},     // (label INT32)->INT32: derived types are not cast implicitly
    {0},     // (label INT32)->label INT32
    {1},     // (INT32,label INT32)->INT32
    {},      // (TEXT)->INT32
    {0},     // (INT32)->INT64
    {0},     // (label INT32)->INT64
};

class MyOp final : public QExprOperator {
 public:
  MyOp(int id, const Sig& s) : QExprOperator(s.in, s.out), id(id) {}
  const int id;
  int payload[4] = {1, 2, 3, 4};
 private:
  absl::StatusOr<std::unique_ptr<BoundOperator>> DoBind(absl::Span<const TypedSlot>, TypedSlot) const final { return absl::UnimplementedError(""); }
};
class MyFamily final : public OperatorFamily {
 public:
  explicit MyFamily(int id) : id(id) {}
  const int id;
 private:
  absl::StatusOr<OperatorPtr> DoGetOperator(absl::Span<const QTypePtr> in, QTypePtr out) const final { return std::make_shared<MyOp>(id, Sig{{in.begin(), in.end()}, out}); }
};
template <typename S> long code(const S& s) { return s.ok() ? 0 : -static_cast<long>(s.code()); }
// Per name: family id, then per signature: id of priority 0, of priority 1.
constexpr int kPer = 1 + 2 * kReg;
}  // namespace

void sim_init() {
  InitArolla();
  auto i32 = GetQType<int32_t>(), i64 = GetQType<int64_t>(), f32 = GetQType<float>();
  auto l = GetLabeledQType(i32, "vv");
  sigs = new std::vector<Sig>{{{i32}, i32}, {{i32, i32}, i32}, {{f32}, f32}, {{i64}, i32}, {{l}, i32}, {{l}, l}, {{i32, l}, i32}, {{GetQType<Text>()}, i32}, {{i32}, i64}, {{l}, i64}};
}
void sim_scenario() {
  OperatorRegistry reg;
  lin::History hist;
  auto gen = [&] {
    Op o;
    o.kind = h::range(0, 9);
    if (o.kind > 4) o.kind = o.kind > 7 ? 2 : 0;
    if (o.kind == 4 && h::coin()) o.kind = 2;
    o.a = h::one_in(4);
    o.c = h::range(1, 1000);  // id
    if (o.kind == 0) o.b = h::range(0, kReg - 1) + 16 * (h::one_in(12) ? h::range(2, 70) : h::one_in(3));
    else o.b = h::range(0, kAsk - 1);
    return o;
  };
  auto run = [&](const Op& o) -> long {
    switch (o.kind) {
      case 0: { auto s = (*sigs)[o.b % 16]; if (o.b % 16 == 0 && Wide(o.c)) s.out = GetQType<int64_t>(); return code(reg.RegisterOperator(kNames[o.a], std::make_shared<MyOp>(o.c, s), o.b / 16)); }
      case 1: return code(reg.RegisterOperatorFamily(kNames[o.a], std::make_unique<MyFamily>(o.c)));
      case 3: {
        auto v = reg.ListRegisteredOperators();
        long m = 0;
        for (auto& n : v) for (int i = 0; i < 2; ++i) if (n == kNames[i]) { SIM_CHECK(!(m >> i & 1), "listed-twice", "%s", n.c_str()); m |= 1 << i; }
        return m;
      }
      default: {
        auto s = (*sigs)[o.b];
        auto r = reg.LookupOperator(kNames[o.a], s.in, s.out);
        if (!r.ok()) return -static_cast<long>(r.status().code());
        auto* p = static_cast<const MyOp*>(r->get());
        SIM_CHECK(p != nullptr, "null-operator", "a lookup returned no operator");
        SIM_CHECK(p->payload[0] + p->payload[3] == 5, "half-made", "half made operator");
        SIM_CHECK(p->signature() == QExprOperatorSignature::Get(p->signature()->input_types(), p->signature()->output_type()), "signature-twice", "one signature has two objects");
        return p->id;
      }
    }
  };
  auto model = [&](State& s, const Op& o) {
    long* p = &s[kPer * o.a];
    bool any = false;
    for (int i = 1; i < kPer; ++i) any |= p[i] != 0;
    const long exists = -static_cast<long>(absl::StatusCode::kAlreadyExists), invalid = -static_cast<long>(absl::StatusCode::kInvalidArgument);
    if (o.kind == 0) {
      if (p[0]) return o.res == exists;
      int pr = o.b / 16;
      if (pr > 1) return o.res == invalid;
      long& slot = p[1 + 2 * (o.b % 16) + pr];
      if (slot) return o.res == exists;
      slot = o.c;
      return o.res == 0;
    }
    if (o.kind == 1) { if (p[0] || any) return o.res == exists; p[0] = o.c; return o.res == 0; }
    if (o.kind == 3) {
      long m = 0;
      for (int n = 0; n < 2; ++n) for (int i = 0; i < kPer; ++i) if (s[kPer * n + i]) m |= 1 << n;
      return o.res == m;
    }
    if (p[0]) return o.res == p[0];
    for (int g : kAnswers[o.b]) {
      long id = p[1 + 2 * g + 1] ? p[1 + 2 * g + 1] : p[1 + 2 * g];
      if (id && (g != 0 || Wide(id) == (o.b >= 8))) return o.res == id;
    }
    return o.res == -static_cast<long>(absl::StatusCode::kNotFound);
  };
  const int n = h::range(1, 4);
  std::vector<std::vector<Op>> prog(n);
  for (auto& p : prog) for (int i = h::range(1, n > 2 ? 3 : 5); i > 0; --i) p.push_back(gen());
  auto go = [&](const Op& o) { lin::record(hist, o, [&] { return run(o); }); };
  for (int i = h::range(0, 3); i > 0; --i) go(gen());
  { h::Threads ts; for (auto& p : prog) ts.go([&] { for (auto& o : p) go(o); }); }
  for (int i = h::range(0, 2); i > 0; --i) { Op o = gen(); o.kind = 2; o.b %= kAsk; go(o); }
  sim_nopreempt_begin();
  hist.use([&](std::vector<Op>& v) {
    for (auto& o : v) {
      if (o.kind == 0 && o.res == 0 && o.b / 16 == 1) sim_probe("priority");
      if (o.kind == 0 && o.b / 16 > 1) sim_probe("bad-priority");
      if (o.kind <= 1 && o.res < 0) sim_probe("refused");
      if (o.kind == 2 && o.res > 0) sim_probe(o.b >= 8 ? "other-result" : o.b >= kReg ? "derived" : "found");
    }
    if (!lin::linearizable(v, State(2 * kPer, 0), model)) sim_fail("not-linearizable", "%s", lin::show(v, kKinds).c_str());
  });
  sim_nopreempt_end();
}
