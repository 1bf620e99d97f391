// Compiled models over the operators of ops.h, under every thread-safety policy.
#ifndef VERIF_HARNESS_MODEL_H_
#define VERIF_HARNESS_MODEL_H_
#include "ops.h"
#include "arolla/expr/eval/model_executor.h"
#include "arolla/expr/eval/thread_safe_model_executor.h"
#include "arolla/io/input_loader.h"
#include "arolla/io/slot_listener.h"
#include "arolla/serving/expr_compiler.h"

namespace model {
using namespace arolla;
using namespace arolla::expr;

struct In {
  ops::Env e;
  bool fail = false;  // the loader fails
};
struct Side {
  bool fail = false;  // the listener fails
  bool set = false;
  int64_t s = 0;
};
struct Res {
  absl::Status st;
  std::vector<int64_t> v;
};
inline thread_local bool loader_failed = false;
class Loader final : public InputLoader<In> {
  const QType* GetQTypeOf(absl::string_view n) const final {
    if (n == "x" || n == "y") return GetQType<int64_t>();
    if (n == "v") return GetDenseArrayQType<int64_t>();
    return nullptr;
  }
  std::vector<std::string> SuggestAvailableNames() const final { return {"x", "y", "v"}; }
  absl::StatusOr<BoundInputLoader<In>> BindImpl(const absl::flat_hash_map<std::string, TypedSlot>& m) const final {
    FrameLayout::Slot<int64_t> x = FrameLayout::Slot<int64_t>::UnsafeUninitializedSlot(), y = x;
    FrameLayout::Slot<DenseArray<int64_t>> v = FrameLayout::Slot<DenseArray<int64_t>>::UnsafeUninitializedSlot();
    bool hx = m.count("x"), hy = m.count("y"), hv = m.count("v");
    if (hx) x = *m.at("x").ToSlot<int64_t>();
    if (hy) y = *m.at("y").ToSlot<int64_t>();
    if (hv) v = *m.at("v").ToSlot<DenseArray<int64_t>>();
    return BoundInputLoader<In>([=](const In& in, FramePtr f, RawBufferFactory* bf) -> absl::Status {
      sim_yield();
      if (hx) f.Set(x, in.e.x);
      if (in.fail) { loader_failed = true; return absl::UnavailableError("injected loader failure"); }
      if (hy) f.Set(y, in.e.y);
      if (hv) { Buffer<int64_t>::Builder b(in.e.v.size(), bf); for (size_t k = 0; k < in.e.v.size(); ++k) b.Set(k, in.e.v[k]); f.Set(v, DenseArray<int64_t>{std::move(b).Build()}); }
      return absl::OkStatus();
    });
  }
};
class Listener final : public SlotListener<Side> {
  const QType* GetQTypeOf(absl::string_view n, const QType*) const final { return n == "s" ? GetQType<int64_t>() : nullptr; }
  std::vector<std::string> SuggestAvailableNames() const final { return {"s"}; }
  absl::StatusOr<BoundSlotListener<Side>> BindImpl(const absl::flat_hash_map<std::string, TypedSlot>& m) const final {
    auto s = *m.at("s").ToSlot<int64_t>();
    return BoundSlotListener<Side>([=](ConstFramePtr f, Side* o) -> absl::Status {
      sim_yield();
      if (o->fail) return absl::UnavailableError("injected listener failure");
      o->set = true;
      o->s = f.Get(s);
      return absl::OkStatus();
    });
  }
};

enum Policy { kAlwaysClone, kCloneWhenBusy, kPool, kDefault, kUnsafe, kThreadLocal, kSmallPool, kOnHeap, kPolicies };
inline const char* const kPolicyNames[] = {"always-clone", "clone-when-busy", "pool", "default", "unsafe-copied", "thread-local", "small-pool", "on-heap-and-clone"};
struct Opts {
  int policy = 0;
  int out = 0;  // 0 int64, 1 DenseArray, 2 vector, 3 TypedValue
  bool side = false;
  int arena = 0;  // page size, 0 for none
  bool fold = true, trace = false;
  int cache = 0;  // for kSmallPool
};
inline std::string Describe(const Opts& o) {
  return std::string(kPolicyNames[o.policy]) + " out=" + std::to_string(o.out) + " side=" + std::to_string(o.side) + " arena=" + std::to_string(o.arena) + " fold=" + std::to_string(o.fold);
}
using Fn = std::function<Res(const In&, Side*)>;
// A function and a way to obtain one to be used by a single thread.
struct Model {
  Fn fn;
  bool per_thread = false;  // only copies may be called
};
inline std::vector<int64_t> Items(int64_t v) { return {v}; }
inline std::vector<int64_t> Items(const std::vector<int64_t>& v) { return v; }
inline std::vector<int64_t> Items(const DenseArray<int64_t>& v) {
  std::vector<int64_t> r;
  for (int64_t i = 0; i < v.size(); ++i) r.push_back(v.present(i) ? v.values[i] : -1);
  return r;
}
inline std::vector<int64_t> Items(const TypedValue& v) { return Items(*v.As<int64_t>()); }
// Results are kept alive here and verified once more at the end of a run.
struct Kept { virtual ~Kept() = default; virtual std::vector<int64_t> get() = 0; };
template <typename O> struct KeptOf : Kept {
  explicit KeptOf(O&& o) : v(std::move(o)) {}
  std::vector<int64_t> get() override { return Items(v); }
  O v;
};
inline thread_local std::vector<std::unique_ptr<Kept>>* keep = nullptr;
template <typename O> Res Result(absl::StatusOr<O> r) {
  if (!r.ok()) return {r.status(), {}};
  Res x{absl::OkStatus(), Items(*r)};
  if (keep) keep->push_back(std::make_unique<KeptOf<O>>(*std::move(r)));
  return x;
}
template <typename O, typename S, typename F> Fn Wrap(F f) {
  // Moved, never copied: copying a thread-unsafe model is an operation that a cancelled scope may fail.
  return [f = std::move(f)](const In& in, Side* s) -> Res {
    if constexpr (std::is_void_v<S>) return Result<O>(f(in)); else return Result<O>(f(in, s));
  };
}
template <typename O, typename S>
absl::StatusOr<Model> CompileT(const ExprNodePtr& e, const Opts& o) {
  if (o.policy >= kThreadLocal) {
    ModelExecutorOptions mo;
    mo.arena_page_size = o.arena;
    mo.force_non_optional_output = o.out == 2;
    if (!o.fold) mo.eval_options.enabled_preparation_stages &= ~DynamicEvaluationEngineOptions::PreparationStage::kLiteralFolding;
    mo.eval_options.enable_expr_stack_trace = o.trace;
    Loader loader;
    using ME = ModelExecutor<In, O, S>;
    absl::StatusOr<ME> me = absl::InternalError("");
    if constexpr (std::is_void_v<S>) {
      me = ME::Compile(e, static_cast<const InputLoader<In>&>(loader), nullptr, mo);
    } else {
      Listener l;
      me = ME::Compile(e, static_cast<const InputLoader<In>&>(loader), &l, mo);
    }
    if (!me.ok()) return me.status();
    if (o.policy == kThreadLocal) return Model{Wrap<O, S>(ThreadSafeModelExecutor<In, O, S>(*std::move(me)))};
    if (o.policy == kSmallPool) return Model{Wrap<O, S>(ThreadSafePoolModelExecutor<In, O, S>(*std::move(me), o.cache))};
    auto sh = std::make_shared<const ME>(*std::move(me));
    return Model{[sh](const In& in, Side* s) -> Res {
      if (h::coin()) {
        auto c = sh->Clone();
        if (!c.ok()) return {c.status(), {}};
        return Result<O>(c->Execute({}, in, static_cast<S*>(s)));
      }
      if (h::coin() && sh->CanExecuteOnStack(2048)) return Result<O>(sh->template ExecuteOnStack<2048>({}, in, static_cast<S*>(s)));
      return Result<O>(sh->ExecuteOnHeap({}, in, static_cast<S*>(s)));
    }};
  }
  ExprCompiler<In, O, S> c;
  c.SetInputLoader(InputLoaderPtr<In>(new Loader));
  if constexpr (!std::is_void_v<S>) c.SetSlotListener(std::unique_ptr<const SlotListener<Side>>(new Listener));
  if (o.arena) c.SetExperimentalArenaAllocator(o.arena);
  if (o.out == 2) c.ForceNonOptionalOutput();
  c.EnableLiteralFolding(o.fold);
  c.EnableExprStackTrace(o.trace);
  switch (o.policy) {
    case kAlwaysClone: c.SetAlwaysCloneThreadSafetyPolicy(); break;
    case kCloneWhenBusy: c.SetCloneWhenBusyThreadSafetyPolicy(); break;
    case kPool: c.SetPoolThreadSafetyPolicy(); break;
    case kUnsafe: c.SetThreadUnsafe_I_SWEAR_TO_COPY_MODEL_FUNCTION_BEFORE_CALL(); break;
    default: break;
  }
  auto f = c.Compile(e);
  if (!f.ok()) return f.status();
  return Model{Wrap<O, S>(*std::move(f)), o.policy == kUnsafe};
}
// The expression: main tree (through test.vec for array outputs), plus an
// exported side output.
inline ExprNodePtr Expr(const ops::Tree& t, const ops::Tree& side, const Opts& o) {
  ExprNodePtr e = ops::Build(t);
  if (o.side) {
    ExprNodePtr s = ops::Must(CallOp(ExportAnnotation::Make(), {ops::Build(side), Literal(Text("s"))}));
    e = ops::Must(CallOp("test.add", {e, s}));
  }
  if (o.out == 1 || o.out == 2) e = ops::Must(CallOp("test.vec", {e}));
  return e;
}
inline absl::StatusOr<Model> Compile(const ExprNodePtr& e, const Opts& o) {
  if (o.side) return o.out == 1 ? CompileT<DenseArray<int64_t>, Side>(e, o) : CompileT<int64_t, Side>(e, o);
  switch (o.out) {
    case 0: return CompileT<int64_t, void>(e, o);
    case 1: return CompileT<DenseArray<int64_t>, void>(e, o);
    case 2: return CompileT<std::vector<int64_t>, void>(e, o);
    default: return CompileT<TypedValue, void>(e, o);
  }
}
inline Opts GenOpts() {
  Opts o;
  o.policy = h::range(0, kPolicies - 1);
  o.out = h::range(0, 3);
  o.side = h::one_in(3);
  if (o.side) o.out &= 1;
  const int pages[] = {0, 0, 8, 64, 4096};
  o.arena = o.out == 3 ? 0 : pages[h::range(0, 4)];
  o.fold = !h::one_in(4);
  o.trace = h::one_in(4);
  o.cache = h::range(0, 2);
  return o;
}
struct Expected {
  bool err = false;
  std::vector<int64_t> v, bads;
  int64_t side = 0;
};
inline Expected Expect(const ops::Tree& t, const ops::Tree& side, const Opts& o, const ops::Env& e) {
  Expected x;
  ops::Val r = ops::Ref(t, e, &x.bads);
  if (o.side) {
    ops::Val s = ops::Ref(side, e, &x.bads);
    x.side = s.v;
    r.err = r.err || s.err;
    r.v = ops::add(r.v, s.v);
  }
  x.err = r.err;
  if (o.out == 1 || o.out == 2) { for (int k = 0; k < 3; ++k) x.v.push_back(ops::add(r.v, k)); } else { x.v = {r.v}; }
  return x;
}
inline std::string Str(const std::vector<int64_t>& v) {
  std::string s = "[";
  for (auto i : v) s += std::to_string(i) + " ";
  return s + "]";
}
inline bool Contains(const absl::Status& s, const std::string& what) { return std::string(s.message()).find(what) != std::string::npos; }
inline ops::Env GenEnv() {
  ops::Env e;
  e.x = h::range(0, 30);
  e.y = h::range(0, 30);
  int n = h::range(0, 3);
  for (int i = 0; i < n; ++i) e.v.push_back(h::range(0, 30));
  return e;
}
}  // namespace model
#endif
