// Input loaders and slot listeners shared by threads: whatever they are composed
// of, each call sees exactly its own input, slots and errors.
#include <map>
#include "h.h"
#include "arolla/dense_array/dense_array.h"
#include "arolla/dense_array/qtype/types.h"
#include "arolla/io/accessors_input_loader.h"
#include "arolla/io/accessors_slot_listener.h"
#include "arolla/io/chain_slot_listener.h"
#include "arolla/io/delegating_input_loader.h"
#include "arolla/io/delegating_slot_listener.h"
#include "arolla/io/input_loader.h"
#include "arolla/io/wildcard_input_loader.h"
#include "arolla/memory/frame.h"
#include "arolla/memory/memory_allocation.h"
#include "arolla/qtype/base_types.h"
#include "arolla/qtype/optional_qtype.h"
#include "arolla/qtype/typed_slot.h"
#include "arolla/util/init_arolla.h"

using namespace arolla;
extern "C" const char* const sim_harness_name = "inputs";
namespace {
struct Sub { int x; };
struct In { int a = 0; int fail = 0; Sub sub{0}; };
struct Out { int a = -1, a2 = -1; std::string t; struct S { int x = -1; } sub; int calls = 0; };
enum { kFailM = 2, kFailD = 4, kFailC = 8 };

const std::vector<std::string> kNames = {"a", "f", "t", "arr", "sub_x", "sub_t", "m[p]", "m[q]", "c:i", "c:f", "d0_v", "d1_v", "d1_w", "d2_v", "zz", "m[", "c:z", "sub_", "d0_z"};
constexpr int kGood = 13;  // the names before d2_v
QTypePtr TypeOf(const std::string& n) {
  if (n == "a" || n == "sub_x" || n == "c:i" || n == "d0_v" || n == "d1_v") return GetQType<int32_t>();
  if (n == "f" || n == "c:f" || n == "d1_w") return GetQType<float>();
  if (n == "t" || n == "sub_t") return GetQType<Text>();
  if (n == "arr") return GetDenseArrayQType<int32_t>();
  if (n == "m[p]" || n == "m[q]") return GetOptionalQType<int32_t>();
  return nullptr;
}
int FailBit(const std::string& n) {
  if (n[0] == 'm') return kFailM;
  if (n == "d1_w") return kFailD;
  if (n[0] == 'c') return kFailC;
  return 0;
}
absl::Status Err(const char* what) { return absl::OutOfRangeError(what); }
std::string Long(int v) { return "a text that does not fit into the string object itself " + std::to_string(v); }

struct Made { std::map<std::string, int> by_key; int parallel = 4; };
struct World {
  h::Book<Made> made;
  bool factory_faults = false;
};
World* world;
thread_local int factory_failures;

InputLoaderPtr<In> Make(bool parallel, bool filter, bool shared) {
  std::vector<InputLoaderPtr<In>> v;
  v.push_back(*CreateAccessorsInputLoader<In>(
      "a", [](const In& i) { return int32_t{i.a}; }, "f", [](const In& i, float* o) { *o = i.a / 2.0f; },
      "t", [](const In& i) { return Text(Long(i.a)); },
      "arr", [](const In& i, RawBufferFactory* f, DenseArray<int32_t>* o) {
        DenseArrayBuilder<int32_t> b(5, f);
        for (int k = 0; k < 5; k += 2) b.Set(k, i.a + k);
        *o = std::move(b).Build();
      }));
  v.push_back(*CreateDelegatingInputLoader<In>(
      *CreateAccessorsInputLoader<Sub>("x", [](const Sub& s) { return int32_t{s.x}; }, "t", [](const Sub& s) { return Text(Long(s.x)); }),
      [](const In& i) -> const Sub& { return i.sub; }, "sub_"));
  v.push_back(*WildcardInputLoader<In>::Build(
      [](const In& i, const std::string& key) -> absl::StatusOr<OptionalValue<int32_t>> {
        if (i.fail & kFailM) return Err("m");
        return key == "p" ? OptionalValue<int32_t>(i.a + 1) : OptionalValue<int32_t>();
      },
      absl::ParsedFormat<'s'>("m[%s]")));
  v.push_back(*WildcardInputLoader<In>::BuildFromCallbackAccessorFn(
      [](const In& i, const std::string& key, WildcardInputLoaderCallback cb) -> absl::Status {
        if (i.fail & kFailC) return Err("c");
        if (key == "i") return cb(int32_t{i.a + 2});
        float f = i.a + 0.5f;
        return cb(TypedRef::FromValue(f));
      },
      {{"i", GetQType<int32_t>()}, {"f", GetQType<float>()}}, absl::ParsedFormat<'s'>("c:%s")));
  v.push_back(*CreateDynamicDelegatingInputLoader<In>(
      [](absl::string_view k) -> absl::StatusOr<InputLoaderPtr<In>> {
        sim_yield();
        if (k == "2") { ++factory_failures; return Err("factory"); }
        if (world->factory_faults && sim_fault("factory-failure", 350)) { ++factory_failures; return Err("factory"); }
        std::string key(k);
        int made = world->made.use([&](Made& m) { return ++m.by_key[key]; });
        SIM_CHECK(made == 1, "made-twice", "the part for key %s was created %d times", key.c_str(), made);
        sim_probe("part-made");
        if (k == "0") return CreateAccessorsInputLoader<In>("d0_v", [](const In& i) { return int32_t{i.a * 3}; });
        return ChainInputLoader<In>::Build(
            *CreateAccessorsInputLoader<In>("d1_v", [](const In& i) { return int32_t{i.a * 5}; }),
            *WildcardInputLoader<In>::Build([](const In& i, const std::string&) -> absl::StatusOr<float> { if (i.fail & kFailD) return Err("d"); return i.a * 0.25f; },
                                            absl::ParsedFormat<'s'>("d1_w%s")));
      },
      [](absl::string_view n) -> std::optional<std::string> {
        if (n.size() < 4 || n[0] != 'd' || n[2] != '_') return std::nullopt;
        return std::string(n.substr(1, 1));
      },
      {"d*_*"}));
  InputLoaderPtr<In> l;
  if (parallel)
    l = *ChainInputLoader<In>::Build(std::move(v), [](absl::Span<const BoundInputLoader<In>> bound, const In& in, FramePtr frame, RawBufferFactory* f) -> absl::Status {
      if (world->made.use([](Made& m) { return m.parallel-- <= 0; })) return ChainInputLoader<In>::InvokeBoundLoaders(bound, in, frame, f);
      sim_probe("parallel-load");
      std::vector<absl::Status> st(bound.size());
      { h::Threads ts; for (size_t i = 0; i < bound.size(); ++i) ts.go([&, i] { st[i] = bound[i](in, frame, f); }); }
      for (auto& s : st) if (!s.ok()) return s;
      return absl::OkStatus();
    });
  else l = *ChainInputLoader<In>::Build(std::move(v));
  if (filter) l = MakeFilteringInputLoader<In>(std::move(l), [](absl::string_view n) { return n != "f" && n != "d1_v"; });
  if (shared) l = MakeSharedOwningInputLoader<In>(std::shared_ptr<const InputLoader<In>>(std::move(l)));
  return l;
}
std::unique_ptr<SlotListener<Out>> MakeListener() {
  auto acc = *CreateAccessorsSlotListener<Out>("a", [](int32_t v, Out* o) { o->a = v; ++o->calls; }, "t", [](const Text& t, Out* o) { o->t = std::string(t.view()); ++o->calls; });
  auto sub = *CreateDelegatingSlotListener<Out>(std::unique_ptr<SlotListener<Out::S>>(*CreateAccessorsSlotListener<Out::S>("x", [](int32_t v, Out::S* o) { o->x = v; })),
                                                [](Out* o) -> Out::S* { return &o->sub; }, "sub_");
  auto again = *CreateAccessorsSlotListener<Out>("a", [](int32_t v, Out* o) { o->a2 = v; ++o->calls; });
  return *ChainSlotListener<Out>::Build(std::move(acc), std::move(sub), std::move(again));
}

// Some slots in a frame of their own, each followed by a canary.
struct Frame {
  std::vector<std::string> names;
  absl::flat_hash_map<std::string, TypedSlot> slots;
  std::vector<FrameLayout::Slot<int64_t>> canaries;
  FrameLayout layout;
  explicit Frame(std::vector<std::string> n) : names(std::move(n)) {
    FrameLayout::Builder b;
    for (auto& s : names) {
      QTypePtr t = TypeOf(s);
      slots.emplace(s, AddSlot(t ? t : GetQType<int32_t>(), &b));
      canaries.push_back(b.AddSlot<int64_t>());
    }
    layout = std::move(b).Build();
  }
  void Prepare(FramePtr f) const { for (size_t i = 0; i < canaries.size(); ++i) f.Set(canaries[i], int64_t(0x5151 + i)); }
  void Check(FramePtr f, const In& in) const {
    for (size_t i = 0; i < canaries.size(); ++i) SIM_CHECK(f.Get(canaries[i]) == int64_t(0x5151 + i), "stray-write", "loading wrote outside its slots");
    for (auto& n : names) {
      const TypedSlot s = slots.at(n);
      auto i32 = [&](int want) { int got = f.Get(s.UnsafeToSlot<int32_t>()); SIM_CHECK(got == want, "wrong-value", "%s = %d, not %d", n.c_str(), got, want); };
      auto f32 = [&](float want) { float got = f.Get(s.UnsafeToSlot<float>()); SIM_CHECK(got == want, "wrong-value", "%s = %g, not %g", n.c_str(), got, want); };
      auto txt = [&](int v) { SIM_CHECK(f.Get(s.UnsafeToSlot<Text>()).view() == Long(v), "wrong-value", "%s", n.c_str()); };
      if (n == "a") i32(in.a);
      else if (n == "f") f32(in.a / 2.0f);
      else if (n == "t") txt(in.a);
      else if (n == "sub_x") i32(in.sub.x);
      else if (n == "sub_t") txt(in.sub.x);
      else if (n == "c:i") i32(in.a + 2);
      else if (n == "c:f") f32(in.a + 0.5f);
      else if (n == "d0_v") i32(in.a * 3);
      else if (n == "d1_v") i32(in.a * 5);
      else if (n == "d1_w") f32(in.a * 0.25f);
      else if (n == "m[p]" || n == "m[q]") {
        auto& v = f.Get(s.UnsafeToSlot<OptionalValue<int32_t>>());
        SIM_CHECK(v.present == (n == "m[p]") && (!v.present || v.value == in.a + 1), "wrong-value", "%s", n.c_str());
      } else if (n == "arr") {
        auto& v = f.Get(s.UnsafeToSlot<DenseArray<int32_t>>());
        SIM_CHECK(v.size() == 5, "wrong-value", "arr");
        for (int k = 0; k < 5; ++k) SIM_CHECK(v.present(k) == (k % 2 == 0) && (k % 2 || v.values[k] == in.a + k), "wrong-value", "arr[%d]", k);
      }
    }
  }
};
In GenIn(bool faults) {
  In i;
  i.a = h::range(0, 100) * 2; i.sub.x = h::range(0, 100);
  if (faults) for (int b : {kFailM, kFailD, kFailC}) if (sim_fault("accessor-failure", 60)) i.fail |= b;
  return i;
}
void Load(const BoundInputLoader<In>& bound, const Frame& fr, FramePtr f, const In& in) {
  fr.Prepare(f);
  int may = 0;
  for (auto& n : fr.names) may |= FailBit(n) & in.fail;
  auto st = bound(in, f);
  if (may) {
    SIM_CHECK(st.code() == absl::StatusCode::kOutOfRange, "error-lost", "a failing accessor gave %s", st.ToString().c_str());
    sim_probe("load-failed");
  } else {
    SIM_CHECK(st.ok(), "unexpected-error", "%s", st.ToString().c_str());
    fr.Check(f, in);
    sim_probe("loaded");
  }
}
void Listen(const BoundSlotListener<Out>& bound, const Frame& fr, ConstFramePtr f, const In& in) {
  Out o;
  auto st = bound(f, &o);
  SIM_CHECK(st.ok(), "listener-error", "%s", st.ToString().c_str());
  bool a = fr.slots.contains("a"), t = fr.slots.contains("t"), x = fr.slots.contains("sub_x");
  SIM_CHECK(o.calls == 2 * a + t, "listener-calls", "%d callbacks", o.calls);
  SIM_CHECK(o.a == (a ? in.a : -1) && o.a2 == o.a && o.t == (t ? Long(in.a) : "") && o.sub.x == (x ? in.sub.x : -1), "listener-value", "a listener got another call's values");
  sim_probe("listened");
}
std::vector<std::string> Pick(bool filter, bool bad) {
  std::vector<std::string> v;
  for (int i = 0; i < kGood; ++i) if (!(filter && (kNames[i] == "f" || kNames[i] == "d1_v")) && h::one_in(4)) v.push_back(kNames[i]);
  if (v.empty()) v.push_back(h::coin() ? "d0_v" : "a");
  if (bad) v.push_back(kNames[h::range(kGood, static_cast<int>(kNames.size()) - 1)]);
  return v;
}
absl::flat_hash_map<std::string, TypedSlot> Only(const Frame& f, std::initializer_list<const char*> names) {
  absl::flat_hash_map<std::string, TypedSlot> m;
  for (auto n : names) if (auto it = f.slots.find(n); it != f.slots.end()) m.emplace(*it);
  return m;
}
}  // namespace

void sim_init() { InitArolla(); }
void sim_scenario() {
  World w;
  world = &w;
  w.factory_faults = h::coin();
  const bool parallel = h::one_in(5), filter = h::one_in(3), shared = h::coin(), faults = h::coin();
  auto loader = std::shared_ptr<const InputLoader<In>>(Make(parallel, filter, shared));
  auto listener = std::shared_ptr<const SlotListener<Out>>(MakeListener());
  const auto suggested = loader->SuggestAvailableNames();
  auto bind = [&](const InputLoader<In>& l, const Frame& fr) -> std::optional<BoundInputLoader<In>> {
    factory_failures = 0;
    const bool bad = std::any_of(fr.names.begin(), fr.names.end(), [](auto& n) { return TypeOf(n) == nullptr; });
    auto b = l.Bind(fr.slots);
    if (bad || factory_failures) {
      SIM_CHECK(!b.ok(), "bound-anyway", "binding succeeded %s", bad ? "with an unsupported name" : "although a part could not be made");
      sim_probe(bad ? "bad-name" : "factory-failed");
      return std::nullopt;
    }
    SIM_CHECK(b.ok(), "not-bound", "%s", b.status().ToString().c_str());
    return *std::move(b);
  };
  // One binding that several threads use, on frames of their own.
  std::optional<Frame> common;
  std::optional<BoundInputLoader<In>> common_bound;
  if (h::coin()) { common.emplace(Pick(filter, false)); common_bound = bind(*loader, *common); }
  const int nt = h::range(1, 3);
  h::Threads ts;
  for (int t = 0; t < nt; ++t) {
    ts.go([&, l = loader, s = listener]() mutable {
      for (int n = h::range(1, 3); n > 0; --n) {
        switch (h::range(0, 4)) {
          case 0: {
            const auto& name = kNames[h::range(0, static_cast<int>(kNames.size()) - 1)];
            factory_failures = 0;
            QTypePtr got = l->GetQTypeOf(name);
            QTypePtr want = filter && (name == "f" || name == "d1_v") ? nullptr : TypeOf(name);
            // A wildcard takes any key.
            if (name == "m[") want = nullptr;
            SIM_CHECK(got == (factory_failures ? nullptr : want), "wrong-type", "type of %s is %s", name.c_str(), got ? std::string(got->name()).c_str() : "unknown");
            break;
          }
          case 1:
            SIM_CHECK(l->SuggestAvailableNames() == suggested, "wrong-names", "names differ");
            break;
          case 2:
            if (common_bound) {
              MemoryAllocation alloc(&common->layout);
              for (int k = h::range(1, 2); k > 0; --k) { In in = GenIn(faults); Load(*common_bound, *common, alloc.frame(), in); }
              sim_probe("shared-binding");
              break;
            }
            [[fallthrough]];
          default: {
            Frame fr(Pick(filter, h::one_in(8)));
            auto b = bind(*l, fr);
            if (!b) break;
            const bool drop = n == 1 && h::coin();
            if (drop) { l.reset(); sim_probe("binding-outlives-loader"); }
            MemoryAllocation alloc(&fr.layout);
            In in;
            for (int k = h::range(1, 2); k > 0; --k) { in = GenIn(faults); Load(*b, fr, alloc.frame(), in); }
            In clean = in; clean.fail = 0;
            Load(*b, fr, alloc.frame(), clean);  // a failed load leaves nothing behind
            auto m = Only(fr, {"a", "t", "sub_x"});
            auto sb = s->Bind(m);
            SIM_CHECK(sb.ok(), "listener-not-bound", "%s", sb.status().ToString().c_str());
            if (drop) s.reset();
            Listen(*sb, fr, alloc.frame(), clean);
            if (drop) n = 0;
          }
        }
      }
    });
  }
  if (h::coin()) { loader.reset(); listener.reset(); }
  ts.join();
  common_bound.reset();
}
