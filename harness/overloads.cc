// Operators with cases: generic operators whose cases are being registered, dispatch operators,
// and operators with constraints on the types of their inputs, used by many threads.
#include <algorithm>
#include <map>
#include <set>
#include "ops.h"
#include "arolla/expr/basic_expr_operator.h"
#include "arolla/expr/operator_loader/backend_operator.h"
#include "arolla/expr/operator_loader/dispatch_operator.h"
#include "arolla/expr/operator_loader/generic_operator.h"
#include "arolla/expr/operator_loader/qtype_inference.h"
#include "arolla/expr/operator_loader/restricted_lambda_operator.h"
#include "arolla/qexpr/operators/bootstrap/make_tuple_operator.h"
#include "arolla/qexpr/operators/bootstrap/qtype_operator.h"
#include "arolla/qtype/tuple_qtype.h"
#include "arolla/util/cancellation.h"

using namespace arolla;
using namespace arolla::expr;
using namespace arolla::operator_loader;
extern "C" const char* const sim_harness_name = "overloads";
namespace {
constexpr int kUnknown = -1, kNothing = 4, kTypes = 4;
QTypePtr types[5];
using In = std::vector<int>;  // the types of the inputs of a call

// ---- what the calling thread is doing -------------------------------------------------
struct Call {
  int fail_in = 0;                      // the fail_in-th evaluation of a condition fails
  bool failed = false;                  // it did
  int base_fail = 0;                    // the operator of the case fails
  int dawdle = 0;
  std::function<void()> inside;         // done once while a condition is evaluated
  const In* in = nullptr;
};
thread_local Call* call = nullptr;
absl::Status Enter() {
  Call* c = call;
  if (c == nullptr) return absl::OkStatus();
  if (c->dawdle) h::dawdle(1);
  if (c->inside) { auto f = std::move(c->inside); c->inside = nullptr; f(); }
  if (c->fail_in && --c->fail_in == 0) { c->failed = true; return absl::UnavailableError("injected"); }
  return absl::OkStatus();
}

// ---- conditions -----------------------------------------------------------------------
enum { kTrue, kIs, kSame, kFirst, kLen, kAnd, kOr };
struct Cond { int kind = kTrue, p = 0, q = 0, k = 0; std::vector<Cond> sub; };
// Parameters: name and whether it takes all the remaining inputs.
struct Sig { const char* text; std::vector<std::pair<const char*, bool>> par; };
const Sig kFixed[] = {{"x, y", {{"x", false}, {"y", false}}}, {"a, b", {{"a", false}, {"b", false}}},
                      {"x, *args", {{"x", false}, {"args", true}}}, {"*args", {{"args", true}}}};
ExprNodePtr Must(absl::StatusOr<ExprNodePtr> r) { SIM_CHECK(r.ok(), "refused", "%s", r.status().ToString().c_str()); return *r; }
Cond Gen(const Sig& s, int depth) {
  Cond c;
  int n = h::range(0, depth > 0 ? 9 : 7);
  c.p = h::range(0, static_cast<int>(s.par.size()) - 1);
  c.k = h::range(0, kTypes - 1);
  if (n >= 8) { c.kind = n == 8 ? kAnd : kOr; c.sub = {Gen(s, depth - 1), Gen(s, depth - 1)}; return c; }
  if (n == 7) return c;
  if (s.par[c.p].second) { c.kind = n < 3 ? kLen : kFirst; if (n < 3) c.k = n; return c; }
  c.q = h::range(0, static_cast<int>(s.par.size()) - 1);
  c.kind = n == 6 && !s.par[c.q].second ? kSame : kIs;
  return c;
}
ExprNodePtr Build(const Sig& s, const Cond& c) {
  auto P = [&](int i) { return Placeholder(s.par[i].first); };
  auto op = [&](const char* n, std::vector<ExprNodePtr> d) { return Must(MakeOpNode(std::make_shared<RegisteredOperator>(n), std::move(d))); };
  switch (c.kind) {
    case kIs: return op("test.q_is", {P(c.p), Literal(types[c.k])});
    case kSame: return op("test.q_is", {P(c.p), P(c.q)});
    case kFirst: return op("test.q_is", {op("test.q_first", {P(c.p)}), Literal(types[c.k])});
    case kLen: return op("test.q_len", {P(c.p), Literal<int64_t>(c.k)});
    case kAnd: return op("test.q_and", {Build(s, c.sub[0]), Build(s, c.sub[1])});
    case kOr: return op("test.q_or", {Build(s, c.sub[0]), Build(s, c.sub[1])});
    default: return Literal(OptionalUnit(kPresent));
  }
}
void Used(const Cond& c, std::set<int>& u) {
  if (c.kind == kIs || c.kind == kFirst || c.kind == kLen) u.insert(c.p);
  if (c.kind == kSame) { u.insert(c.p); u.insert(c.q); }
  for (auto& t : c.sub) Used(t, u);
}
int At(const Sig& s, int p, const In& in) { return in[p]; }
bool Ready(const Sig& s, const std::set<int>& u, const In& in) {
  for (int p : u) {
    if (!s.par[p].second) { if (in[p] == kUnknown) return false; continue; }
    for (size_t i = p; i < in.size(); ++i) if (in[i] == kUnknown) return false;
  }
  return true;
}
bool Holds(const Sig& s, const Cond& c, const In& in) {
  switch (c.kind) {
    case kIs: return At(s, c.p, in) == c.k;
    case kSame: return At(s, c.p, in) == At(s, c.q, in);
    case kFirst: return c.p < static_cast<int>(in.size()) && in[c.p] == c.k;
    case kLen: return static_cast<int>(in.size()) - c.p == c.k;
    case kAnd: return Holds(s, c.sub[0], in) && Holds(s, c.sub[1], in);
    case kOr: return Holds(s, c.sub[0], in) || Holds(s, c.sub[1], in);
    default: return true;
  }
}

// ---- the operators of the cases: recognisable -------------------------------------------
class Base final : public ExprOperatorWithFixedSignature {
 public:
  explicit Base(int id) : ExprOperatorWithFixedSignature("base", *ExprOperatorSignature::Make("*args"), "doc", FingerprintHasher("Base").Combine(id).Finish()), id_(id) {}
  absl::StatusOr<ExprAttributes> InferAttributes(absl::Span<const ExprAttributes> in) const final {
    Check(in.size(), [&](size_t i) { return in[i].qtype(); });
    if (call->base_fail) return absl::OutOfRangeError("base " + std::to_string(id_));
    return ExprAttributes(TypedValue::FromValue(int64_t{id_}));
  }
  absl::StatusOr<ExprNodePtr> ToLowerLevel(const ExprNodePtr& node) const final {
    Check(node->node_deps().size(), [&](size_t i) { return node->node_deps()[i]->qtype(); });
    SIM_CHECK(node->op().get() == this || node->op()->fingerprint() == fingerprint(), "wrong-node", "a case got a node of another operator");
    if (call->base_fail) return absl::OutOfRangeError("base " + std::to_string(id_));
    return Literal(int64_t{id_});
  }
 private:
  template <typename F> void Check(size_t n, F type) const {
    SIM_CHECK(n == call->in->size(), "wrong-inputs", "case %d got %zu inputs, not %zu", id_, n, call->in->size());
    for (size_t i = 0; i < n; ++i) SIM_CHECK(type(i) == ((*call->in)[i] == kUnknown ? nullptr : types[(*call->in)[i]]), "wrong-inputs", "case %d got another type for input %zu", id_, i);
  }
  int id_;
};

// ---- operators under test ---------------------------------------------------------------
struct Case { std::string name; int id; const Sig* sig; Cond cond; };
// One registration of a name.
struct Version { Case c; bool overload; uint64_t reg0, reg1 = ~0ull, un0 = ~0ull, un1 = ~0ull; };
struct Name { std::string name; std::vector<Version> v; };
struct World {
  std::vector<Name> names;  // under the namespace of the generic operator
  bool variadic;
};
std::vector<ExprOperatorPtr>* lib;  // cases registered elsewhere, for aliases
Case* lib_case;

std::string Multi(absl::StatusCode code, std::vector<std::string> names) {
  std::sort(names.begin(), names.end());
  std::string r = "multi " + std::to_string(static_cast<int>(code));
  for (auto& n : names) r += " " + n;
  return r;
}
// What a call made with such cases (of a generic operator) is to return.
std::string Expect(const std::vector<const Case*>& cs, const In& in, bool base_fail) {
  std::vector<const Case*> m;
  bool wait = false;
  for (auto* c : cs) {
    std::set<int> u;
    Used(c->cond, u);
    if (!Ready(*c->sig, u, in)) wait = true;
    else if (Holds(*c->sig, c->cond, in)) m.push_back(c);
  }
  if (m.size() > 1) { std::vector<std::string> n; for (auto* c : m) n.push_back(c->name); return Multi(absl::StatusCode::kInvalidArgument, n); }
  if (wait) return "wait";
  if (m.empty()) return "none";
  return (base_fail ? "base-failed " : "case ") + std::to_string(m[0]->id);
}

std::string Outcome(const absl::Status& s) {
  auto m = std::string(s.message());
  if (s.code() == absl::StatusCode::kUnavailable && (m.find("injected") != m.npos)) return "injected";
  if (s.code() == absl::StatusCode::kCancelled) return "cancelled";
  if (s.code() == absl::StatusCode::kOutOfRange && (m.find("base ") != m.npos)) { auto i = m.find("base "); return "base-failed " + std::to_string(atoi(m.c_str() + i + 5)); }
  if (auto i = m.find("multiple overload cases matched: "); i != m.npos) {
    std::vector<std::string> names;
    size_t j = i;
    while ((j = m.find('\'', j)) != m.npos) { auto e = m.find('\'', j + 1); if (e == m.npos) break; names.push_back(m.substr(j + 1, e - j - 1)); j = e + 1; if (m.compare(j, 2, ", ") != 0) break; }
    return Multi(s.code(), names);
  }
  if (s.code() == absl::StatusCode::kInvalidArgument && (m.find("no suitable overload") != m.npos)) return "none";
  if (s.code() == absl::StatusCode::kInvalidArgument && (m.find("NOTHING are unsupported") != m.npos)) return "nothing";
  if (s.code() == absl::StatusCode::kInvalidArgument && (m.find("constraint ") != m.npos)) return m.substr(m.find("constraint "));
  return s.ToString();
}
std::string Outcome(const absl::StatusOr<ExprAttributes>& r) {
  if (!r.ok()) return Outcome(r.status());
  if (r->qtype() == nullptr) return "wait";
  if (r->qvalue().has_value() && r->qtype() == GetQType<int64_t>()) return "case " + std::to_string(r->qvalue()->UnsafeAs<int64_t>());
  return std::string("type ") + std::string(r->qtype()->name());
}

struct Plan {  // one call
  In in;
  bool lower = false, cancelled = false, via_name = false;
  int fail_in = 0, base_fail = 0, dawdle = 0;
};
int max_in = 2, min_in = 2;
Plan GenPlan(bool faults) {
  Plan p;
  p.in.resize(h::range(min_in, max_in));
  for (auto& t : p.in) { t = h::range(0, 9); t = t < 8 ? t % kTypes : t == 8 ? kUnknown : h::one_in(4) ? kNothing : kUnknown; }
  p.lower = h::one_in(3);
  p.via_name = h::one_in(3);
  p.dawdle = h::one_in(2);
  if (faults && h::one_in(4)) { int f = h::range(0, 3); if (f < 2) p.fail_in = h::range(1, 6); else if (f == 2) p.base_fail = 1; else p.cancelled = true; }
  return p;
}
// Calls the operator as planned; `inside` runs while a condition is evaluated.
std::string Do(const ExprOperatorPtr& op, const Plan& p, Call& c) {
  c.fail_in = p.fail_in; c.base_fail = p.base_fail; c.dawdle = p.dawdle; c.in = &p.in;
  Call* outer = call;
  std::string res;
  CancellationContextPtr cc;
  if (p.cancelled) { cc = CancellationContext::Make(); cc->Cancel(absl::CancelledError("stop")); }
  CancellationContext::ScopeGuard guard(cc);
  if (!p.lower) {
    std::vector<ExprAttributes> in;
    for (int t : p.in) in.push_back(t == kUnknown ? ExprAttributes{} : ExprAttributes(types[t]));
    call = &c;
    auto r = op->InferAttributes(in);
    call = outer;
    res = Outcome(r);
  } else {
    std::vector<ExprNodePtr> deps;
    for (size_t i = 0; i < p.in.size(); ++i)
      deps.push_back(p.in[i] == kUnknown ? Leaf("l" + std::to_string(i)) : ExprNode::UnsafeMakeOperatorNode(std::make_shared<Base>(100000 + i), {}, ExprAttributes(types[p.in[i]])));
    auto node = ExprNode::UnsafeMakeOperatorNode(ExprOperatorPtr(op), std::move(deps), ExprAttributes(GetQType<int64_t>()));
    call = &c;
    auto r = op->ToLowerLevel(node);
    call = outer;
    if (!r.ok()) res = Outcome(r.status());
    else if ((*r)->fingerprint() == node->fingerprint()) res = "wait";
    else if ((*r)->qvalue().has_value() && (*r)->qtype() == GetQType<int64_t>()) res = "case " + std::to_string((*r)->qvalue()->UnsafeAs<int64_t>());
    else res = "lowered";
  }
  return res;
}
std::string Show(const Plan& p) {
  std::string s = p.lower ? "lower(" : "infer(";
  for (int t : p.in) s += t == kUnknown ? "? " : std::string(types[t]->name()) + " ";
  return s + ")";
}
void Judge(const char* what, const Plan& p, const Call& c, const std::string& got, const std::set<std::string>& ok) {
  bool nothing = std::find(p.in.begin(), p.in.end(), kNothing) != p.in.end();
  std::set<std::string> want = ok;
  if (nothing) want = {"nothing"};
  else if (c.failed) want = {"injected"};
  if (p.cancelled) want.insert("cancelled");
  if (want.count(got)) { std::string k = got.substr(0, got.find(' ')); sim_probe(k.c_str()); if (p.lower) sim_probe("lowered"); return; }
  std::string w;
  for (auto& s : want) w += " [" + s + "]";
  sim_fail("wrong-outcome", "%s %s returned [%s]; expected one of%s", what, Show(p).c_str(), got.c_str(), w.c_str());
}

// ---- fixed operators --------------------------------------------------------------------
struct Fixed {
  ExprOperatorPtr op;
  std::function<std::string(const In&, const Plan&)> expect;
  const char* what;
};
Fixed MakeDispatch(const Sig* sig) {
  struct S { std::vector<Case> cs; bool def; const Sig* sig; std::set<int> used; };
  auto s = std::make_shared<S>();
  s->sig = sig;
  std::vector<DispatchOperator::Overload> ov;
  for (int i = h::range(1, 3); i > 0; --i) {
    s->cs.push_back({"d" + std::to_string(i), 500 + i, sig, Gen(*sig, 1)});
    Used(s->cs.back().cond, s->used);
    ov.push_back({s->cs.back().name, std::make_shared<Base>(500 + i), Build(*sig, s->cs.back().cond)});
  }
  s->def = h::coin();
  auto r = DispatchOperator::Make("disp", *ExprOperatorSignature::Make(sig->text), "doc", std::move(ov), s->def ? std::make_shared<Base>(599) : nullptr);
  SIM_CHECK(r.ok(), "refused", "%s", r.status().ToString().c_str());
  return {*r, [s](const In& in, const Plan& p) -> std::string {
    if (!Ready(*s->sig, s->used, in)) return "wait";
    std::vector<std::string> m;
    int id = 599;
    for (auto& c : s->cs) if (Holds(*c.sig, c.cond, in)) { m.push_back(c.name); id = c.id; }
    if (m.size() > 1) return Multi(absl::StatusCode::kFailedPrecondition, m);
    if (m.empty() && !s->def) return "none";
    return (p.base_fail ? "base-failed " : "case ") + std::to_string(id);
  }, "a dispatch operator"};
}
// Constraints with a result type (backend operator) or with a body (lambda).
Fixed MakeConstrained(const Sig* sig, bool lambda) {
  struct S { std::vector<Cond> cs; std::vector<std::string> msg; const Sig* sig; int pick, other; };
  auto s = std::make_shared<S>();
  s->sig = sig;
  std::vector<QTypeConstraint> qc;
  for (int i = h::range(0, 2); i >= 0; --i) {
    s->cs.push_back(Gen(*sig, 1));
    s->msg.push_back("constraint " + std::to_string(i));
    qc.push_back({Build(*sig, s->cs.back()), s->msg.back() + ": {" + sig->par[0].first + "} " + (sig->par[0].second ? "!" : "") + "{*" + sig->par.back().first + "}"});
  }
  s->pick = h::range(0, 1);
  ExprOperatorPtr op;
  auto esig = *ExprOperatorSignature::Make(sig->text);
  auto P = [&](int i) { return Placeholder(sig->par[i].first); };
  if (lambda) {
    auto base = LambdaOperator::Make("lam", esig, P(0));
    SIM_CHECK(base.ok(), "refused", "%s", base.status().ToString().c_str());
    auto r = RestrictedLambdaOperator::Make(*base, qc);
    SIM_CHECK(r.ok(), "refused", "%s", r.status().ToString().c_str());
    op = *r;
  } else {
    auto r = BackendOperator::Make("test.backend", esig, "doc", qc, Must(MakeOpNode(std::make_shared<RegisteredOperator>("test.q_pick"), {P(0), P(1)})));
    SIM_CHECK(r.ok(), "refused", "%s", r.status().ToString().c_str());
    op = *r;
  }
  return {op, [s, lambda](const In& in, const Plan&) -> std::string {
    auto name = [](int t) { return t == kUnknown ? std::string("?") : std::string(types[t]->name()); };
    bool wait = false;
    for (size_t i = 0; i < s->cs.size(); ++i) {
      std::set<int> u;
      Used(s->cs[i], u);
      if (!Ready(*s->sig, u, in)) { wait = true; continue; }
      if (!Holds(*s->sig, s->cs[i], in)) {
        std::string m = s->msg[i] + ": " + (in[0] == kUnknown ? std::string("{") + s->sig->par[0].first + "}" : name(in[0])) + " ";
        auto& last = s->sig->par.back();
        bool known = last.second;
        for (size_t k = 1; k < in.size(); ++k) known &= in[k] != kUnknown;
        if (!known) return m + "{*" + last.first + "}";
        for (size_t k = 1; k < in.size(); ++k) m += (k > 1 ? ", " : "") + name(in[k]);
        return m;
      }
    }
    if (wait) return "wait";
    if (lambda) return in[0] == kUnknown ? "wait" : "type " + name(in[0]);
    if (!Ready(*s->sig, {0, 1}, in)) return "wait";
    bool first = in.size() < 2 || in[0] != in[1] || s->sig->par[1].second;
    return first ? "type " + name(in[0]) : "type FLOAT64";
  }, lambda ? "a restricted lambda" : "a backend operator"};
}
}  // namespace

void sim_init() {
  InitArolla();
  types[0] = GetQType<int32_t>(); types[1] = GetQType<int64_t>(); types[2] = GetQType<float>(); types[3] = GetQType<Text>(); types[4] = GetNothingQType();
  auto fam = [](const char* n, std::unique_ptr<OperatorFamily> f) {
    auto s = OperatorRegistry::GetInstance()->RegisterOperatorFamily(n, std::move(f));
    if (!s.ok()) { fprintf(stderr, "%s\n", s.ToString().c_str()); abort(); }
  };
  fam("core.make_tuple", std::make_unique<MakeTupleOperatorFamily>());
  fam("qtype._parse_input_qtype_sequence", std::make_unique<ParseInputQTypeSequenceOpFamily>());
  const QTypePtr u = GetQType<OptionalUnit>(), q = GetQTypeQType();
  using R = absl::StatusOr<OptionalUnit>;
  ops::Def("test.q_is", "p, k", u, [](QTypePtr p, QTypePtr k) -> R { if (auto s = Enter(); !s.ok()) return s; return OptionalUnit(p == k); });
  ops::Def("test.q_len", "p, n", u, [](QTypePtr p, int64_t n) -> R { if (auto s = Enter(); !s.ok()) return s; return OptionalUnit(IsTupleQType(p) && static_cast<int64_t>(p->type_fields().size()) == n); });
  ops::Def("test.q_first", "p", q, [](QTypePtr p) -> absl::StatusOr<QTypePtr> { if (auto s = Enter(); !s.ok()) return s; return p->type_fields().empty() ? GetNothingQType() : p->type_fields()[0].GetType(); });
  ops::Def("test.q_and", "a, b", u, [](OptionalUnit a, OptionalUnit b) { return OptionalUnit(a.present && b.present); });
  ops::Def("test.q_or", "a, b", u, [](OptionalUnit a, OptionalUnit b) { return OptionalUnit(a.present || b.present); });
  ops::Def("test.q_pick", "a, b", q, [](QTypePtr a, QTypePtr b) -> absl::StatusOr<QTypePtr> { if (auto s = Enter(); !s.ok()) return s; return a == b ? GetQType<double>() : a; });
  static const Sig lsig = {"x, *args", {{"x", false}, {"args", true}}};
  lib_case = new Case{"over", 900, &lsig, Cond{kIs, 0, 0, 0, {}}};
  auto r = RegisterOperator("lib.over", *GenericOperatorOverload::Make("over", *ExprOperatorSignature::Make("x, *args"), Build(lsig, lib_case->cond), std::make_shared<Base>(900)));
  if (!r.ok()) { fprintf(stderr, "%s\n", r.status().ToString().c_str()); abort(); }
}

namespace {
void RunFixed() {
  static const Sig var = {"x, *args", {{"x", false}, {"args", true}}};
  const bool v = h::coin();
  min_in = v ? 1 : 2; max_in = v ? 3 : 2;
  const Sig* sig = v ? &var : &kFixed[0];
  Fixed f = h::coin() ? MakeDispatch(sig) : MakeConstrained(sig, h::coin());
  const int n = h::range(1, 3);
  std::vector<std::vector<Plan>> prog(n);
  for (auto& p : prog) for (int i = h::range(1, 4); i > 0; --i) p.push_back(GenPlan(true));
  auto use = [&](const Plan& p0) {
    Plan p = p0;
    if (p.lower && f.what[2] != 'd') p.lower = false;  // only cases are lowered
    Call c;
    // Now and then the same operator is used while one of its conditions is evaluated.
    Plan q = p0;
    q.fail_in = q.base_fail = q.dawdle = 0;
    q.lower = false; q.cancelled = false;
    if (h::one_in(4)) c.inside = [&, q] { sim_probe("nested"); Call d; auto got = Do(f.op, q, d); Judge(f.what, q, d, got, {f.expect(q.in, q)}); };
    auto got = Do(f.op, p, c);
    Judge(f.what, p, c, got, {f.expect(p.in, p)});
  };
  { h::Threads ts; for (auto& pr : prog) ts.go([&] { for (auto& p : pr) use(p); }); }
  Plan last;
  last.in.assign(min_in, 0);
  use(last);
}

void RunGeneric() {
  const bool v = h::coin();
  min_in = v ? 1 : 2; max_in = v ? 3 : 2;
  const int nsig = v ? 2 : 4, sig0 = v ? 2 : 0;
  auto* reg = ExprOperatorRegistry::GetInstance();
  auto gen = GenericOperator::Make("g", *ExprOperatorSignature::Make(v ? "x, *rest" : "x, y"), "doc");
  SIM_CHECK(gen.ok(), "refused", "%s", gen.status().ToString().c_str());
  ExprOperatorPtr direct = *gen;
  auto by_name = RegisterOperator("g", direct);
  SIM_CHECK(by_name.ok(), "refused", "%s", by_name.status().ToString().c_str());
  const int nnames = h::range(1, 4);
  static const char* const kNames[] = {"g.o0", "g.o1", "g.sub.o2", "g.o3"};
  h::Book<World> world;
  world.use([&](World& w) { for (int i = 0; i < nnames; ++i) w.names.push_back({kNames[i], {}}); });
  std::atomic<int> next_id{1};
  // Registers something under names[i]; only the owner of the name calls it.
  struct Item { Case c; bool overload = true, alias = false; ExprOperatorPtr op; };
  auto make = [&](int i) {
    Item it;
    int id = next_id++;
    int kind = h::range(0, 9);
    if (kind == 9) { it.overload = false; it.op = std::make_shared<Base>(id); return it; }
    if (kind == 8 && v) { it.alias = true; it.c = *lib_case; it.op = std::make_shared<RegisteredOperator>("lib.over"); return it; }
    const Sig* s = &kFixed[sig0 + h::range(0, nsig - 1)];
    it.c = {"case" + std::to_string(id), id, s, Gen(*s, 1)};
    auto r = GenericOperatorOverload::Make(it.c.name, *ExprOperatorSignature::Make(s->text), Build(*s, it.c.cond), std::make_shared<Base>(id));
    SIM_CHECK(r.ok(), "refused", "%s", r.status().ToString().c_str());
    it.op = *r;
    return it;
  };
  auto add = [&](int i, Item it) {
    world.use([&](World& w) { w.names[i].v.push_back({it.c, it.overload, sim_seq()}); });
    auto r = reg->Register(kNames[i], it.op);
    SIM_CHECK(r.ok(), "refused", "%s", r.status().ToString().c_str());
    world.use([&](World& w) { w.names[i].v.back().reg1 = sim_seq(); });
    if (it.alias) sim_probe("alias");
  };
  auto remove = [&](int i) {
    world.use([&](World& w) { w.names[i].v.back().un0 = sim_seq(); });
    reg->UnsafeUnregister(kNames[i]);
    world.use([&](World& w) { w.names[i].v.back().un1 = sim_seq(); });
    sim_probe("removed");
  };
  // What the call made during [a, b] may have seen under each name.
  auto allowed = [&](const Plan& p, uint64_t a, uint64_t b) {
    return world.use([&](World& w) {
      std::vector<std::vector<const Version*>> opt;
      for (auto& n : w.names) {
        std::vector<const Version*> o;
        uint64_t gone = 0;  // when the name may have become absent
        for (auto& x : n.v) {
          if (gone <= b && x.reg1 >= a) o.push_back(nullptr);
          if (x.reg0 <= b && x.un1 >= a) o.push_back(&x);
          gone = x.un0;
        }
        if (gone <= b) o.push_back(nullptr);
        opt.push_back(o);
      }
      std::set<std::string> res;
      std::vector<const Case*> cs;
      int seen = 0;
      std::function<void(size_t)> rec = [&](size_t i) {
        if (++seen > 5000) return;
        if (i == opt.size()) { res.insert(Expect(cs, p.in, p.base_fail)); return; }
        for (auto* x : opt[i]) {
          bool push = x != nullptr && x->overload;
          if (push) cs.push_back(&x->c);
          rec(i + 1);
          if (push) cs.pop_back();
        }
      };
      rec(0);
      if (res.size() > 1) sim_probe("ambiguous");
      return res;
    });
  };
  std::function<void(const Plan&, Call&)> use = [&](const Plan& p, Call& c) {
    uint64_t a = sim_seq();
    auto got = Do(p.via_name ? *by_name : direct, p, c);
    uint64_t b = sim_seq();
    auto ok = allowed(p, a, b);
    Judge("a generic operator", p, c, got, ok);
  };
  // Names outside the namespace do not matter.
  if (h::one_in(3)) (void)reg->Register("gx.o0", make(0).op);
  for (int i = 0; i < nnames; ++i) if (h::coin()) add(i, make(i));
  const int n = h::range(1, 3);
  struct Act { int kind; Plan p; bool nest; Plan q; };
  std::vector<std::vector<Act>> prog(n);
  for (auto& p : prog) for (int i = h::range(1, 4); i > 0; --i) p.push_back({h::range(0, 3), GenPlan(true), h::one_in(4), GenPlan(false)});
  auto change = [&](int t) {
    std::vector<int> mine;
    for (int i = 0; i < nnames; ++i) if (i % n == t) mine.push_back(i);
    if (mine.empty()) return;
    int i = mine[h::range(0, static_cast<int>(mine.size()) - 1)];
    bool there = world.use([&](World& w) { auto& x = w.names[i].v; return !x.empty() && x.back().un0 == ~0ull; });
    if (there) remove(i); else add(i, make(i));
  };
  auto act = [&](int t, Act& x) {
    if (x.kind == 0) { change(t); return; }
    Call c;
    if (x.nest) {
      if (h::coin()) c.inside = [&, t] { sim_probe("changed-inside"); change(t); };
      else c.inside = [&] { sim_probe("nested"); Call d; use(x.q, d); };
    }
    use(x.p, c);
  };
  {
    h::Threads ts;
    for (int t = 0; t < n; ++t) ts.go([&, t] { for (auto& x : prog[t]) act(t, x); });
  }
  // Alone again: one answer only.
  for (int i = h::range(1, 2); i > 0; --i) { Plan p = GenPlan(false); Call c; use(p, c); }
  if (h::one_in(3)) change(0);
  { Plan p = GenPlan(false); Call c; use(p, c); }
}
}  // namespace

void sim_scenario() {
  if (h::one_in(3)) RunFixed(); else RunGeneric();
}
