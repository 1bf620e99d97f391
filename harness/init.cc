// InitArolla(): ordering, exactly once, concurrent calls, late libraries, failures.
#include <algorithm>
#include <deque>
#include <map>
#include <set>
#include "h.h"
#include "absl/status/status.h"
#include "arolla/util/init_arolla.h"
#include "arolla/util/init_arolla_internal.h"

using namespace arolla;
using namespace arolla::init_arolla_internal;
extern "C" const char* const sim_harness_name = "init";
namespace {
constexpr int kMax = 24;
struct Spec {
  std::string name;
  std::vector<std::string> deps, rdeps;
  bool status_fn = false, none = false, fails = false;
  int batch = 0;
};
struct World {
  std::vector<Spec> specs;
  std::vector<int> order;  // execution order
  std::vector<int> runs = std::vector<int>(kMax, 0);
  std::vector<int> finished = std::vector<int>(kMax, 0);
};
World* w;
int plain[kMax];  // written by initializers, read by callers of InitArolla()
void Body(int i) {
  sim_nopreempt_begin(); sim_ignore_begin();
  w->order.push_back(i);
  int n = ++w->runs[i];
  sim_ignore_end(); sim_nopreempt_end();
  SIM_CHECK(n == 1, "ran-twice", "initializer %d ran %d times", i, n);
  plain[i] = 1;
  sim_yield();
  plain[i] = 2;
  w->finished[i] = 1;
}
template <int I> void VoidFn() { Body(I); }
template <int I> absl::Status StatusFn() {
  Body(I);
  if (w->specs[I].fails) return absl::UnavailableError("init failure " + std::to_string(I));
  return absl::OkStatus();
}
using V = void (*)();
using S = absl::Status (*)();
template <int... I> constexpr std::array<V, sizeof...(I)> Vs(std::integer_sequence<int, I...>) { return {&VoidFn<I>...}; }
template <int... I> constexpr std::array<S, sizeof...(I)> Ss(std::integer_sequence<int, I...>) { return {&StatusFn<I>...}; }
const auto vs = Vs(std::make_integer_sequence<int, kMax>());
const auto ss = Ss(std::make_integer_sequence<int, kMax>());

// initializer_list over a vector (the real ones are compile-time constants).
std::initializer_list<absl::string_view> List(const std::vector<std::string>& v, std::deque<std::vector<absl::string_view>>& store) {
  auto& s = store.emplace_back(v.begin(), v.end());
  struct Raw { const absl::string_view* p; size_t n; } raw{s.data(), s.size()};
  static_assert(sizeof(raw) == sizeof(std::initializer_list<absl::string_view>));
  std::initializer_list<absl::string_view> r;
  memcpy((void*)&r, &raw, sizeof raw);
  return r;
}
bool phony(const std::string& s) { return s.rfind("@phony", 0) == 0; }

// Reference: order constraints and validity of one batch.
struct Batch {
  std::map<std::string, std::set<std::string>> edges;  // node -> nodes that go first
  std::vector<std::string> keys;                       // of the batch's specs
  bool valid = true;
};
std::string key(const World& x, int i) { return x.specs[i].name.empty() ? "#" + std::to_string(i) : x.specs[i].name; }
bool reaches(const Batch& b, const std::string& from, const std::string& to, std::set<std::string>& seen) {
  auto it = b.edges.find(from);
  if (it == b.edges.end()) return false;
  for (auto& d : it->second) {
    if (d == to) return true;
    if (seen.insert(d).second && reaches(b, d, to, seen)) return true;
  }
  return false;
}
Batch Analyse(const World& x, int batch, const std::set<std::string>& completed) {
  Batch b;
  std::set<std::string> defined;
  for (int i = 0; i < (int)x.specs.size(); ++i) {
    const Spec& s = x.specs[i];
    if (s.batch != batch) continue;
    std::string k = key(x, i);
    b.keys.push_back(k);
    if (!defined.insert(k).second || completed.count(k)) b.valid = false;
    for (auto& d : s.deps) if (!completed.count(d)) b.edges[k].insert(d);
    for (auto& d : s.rdeps) { if (completed.count(d)) b.valid = false; b.edges[d].insert(k); }
  }
  // Everything a batch member needs, directly or not, must be defined or phony.
  std::set<std::string> seen;
  std::vector<std::string> todo = b.keys;
  while (!todo.empty()) {
    std::string k = todo.back();
    todo.pop_back();
    if (!seen.insert(k).second) continue;
    if (!defined.count(k) && !phony(k)) b.valid = false;
    std::set<std::string> tmp;
    if (reaches(b, k, k, tmp)) b.valid = false;
    for (auto& d : b.edges[k]) todo.push_back(d);
  }
  return b;
}
}  // namespace
void sim_init() {}
void sim_scenario() {
  World world;
  w = &world;
  const int n = h::range(1, kMax - 4);
  const int batches = h::range(1, 3);
  const bool tidy = !h::one_in(4);  // mostly valid graphs
  const std::vector<std::string> groups = {"@phony/a", "@phony/b", "@phony/c"};
  for (int i = 0; i < n; ++i) {
    Spec s;
    s.batch = h::range(0, batches - 1);
    s.name = h::one_in(5) ? "" : "n" + std::to_string(tidy ? i : h::range(0, 25));
    s.status_fn = h::coin();
    s.none = h::one_in(8);
    world.specs.push_back(s);
  }
  // Names are compared in scrambled order so that alphabetical order does not help.
  std::vector<int> rank(n);
  for (int i = 0; i < n; ++i) rank[i] = i;
  for (int i = n - 1; i > 0; --i) std::swap(rank[i], rank[h::range(0, i)]);
  for (int i = 0; i < n; ++i) {
    Spec& s = world.specs[i];
    int m = h::range(0, 3);
    for (int k = 0; k < m; ++k) {
      int j = h::range(0, n - 1);
      const Spec& o = world.specs[j];
      bool dep = h::coin();
      if (tidy) {
        if (j == i || o.name.empty()) continue;
        bool before = o.batch < s.batch || (o.batch == s.batch && rank[j] < rank[i]);
        if (o.batch > s.batch) continue;
        if (!before && o.batch != s.batch) continue;
        dep = before;
      }
      (dep ? s.deps : s.rdeps).push_back(o.name.empty() ? "n99" : o.name);
    }
    // Groups: low ranks provide, high ranks consume.
    if (h::one_in(3)) {
      bool provide = tidy ? rank[i] < n / 2 : h::coin();
      (provide ? s.rdeps : s.deps).push_back(groups[h::range(0, 2)]);
    }
  }
  // With groups a tidy graph may still be cyclic; the reference decides.
  std::deque<std::vector<absl::string_view>> store;
  std::deque<Initializer> inits;
  for (int i = 0; i < n; ++i) {
    const Spec& s = world.specs[i];
    Initializer in;
    in.name = s.name;
    in.deps = List(s.deps, store);
    in.reverse_deps = List(s.rdeps, store);
    if (!s.none) { if (s.status_fn) in.init_fn = ss[i]; else in.init_fn = vs[i]; }
    inits.push_back(in);
  }
  std::set<std::string> completed;
  std::vector<Batch> ref;
  bool valid = true;
  for (int b = 0; b < batches; ++b) {
    ref.push_back(Analyse(world, b, completed));
    valid = valid && ref.back().valid;
    for (auto& k : ref.back().keys) if (k[0] != '#') completed.insert(k);
    if (!valid) break;
  }
  bool failing = false;
  if (h::one_in(3)) {
    for (int i = 0; i < n; ++i) if (world.specs[i].status_fn && !world.specs[i].none && sim_fault("initializer-failure", 150)) { world.specs[i].fails = true; failing = true; }
  }
  auto check_order = [&](bool all, int upto) {
    std::map<std::string, int> pos;
    for (size_t p = 0; p < world.order.size(); ++p) pos[key(world, world.order[p])] = p;
    for (int b = 0; b <= upto && b < (int)ref.size(); ++b) {
      if (!ref[b].valid) continue;
      for (int i = 0; i < n; ++i) {
        if (world.specs[i].batch != b || world.specs[i].none) continue;
        if (all) SIM_CHECK(world.runs[i] == 1 && world.finished[i], "not-run", "initializer %d ('%s') of batch %d ran %d times", i, world.specs[i].name.c_str(), b, world.runs[i]);
        if (!world.runs[i]) continue;
        for (int j = 0; j < n; ++j) {
          if (j == i || world.specs[j].batch != b || world.specs[j].none) continue;
          std::set<std::string> seen;
          if (!reaches(ref[b], key(world, i), key(world, j), seen)) continue;
          SIM_CHECK(world.runs[j] && pos[key(world, j)] < pos[key(world, i)], "wrong-order", "initializer %s ran before %s, which has to precede it", key(world, i).c_str(), key(world, j).c_str());
          SIM_CHECK(!world.specs[j].fails, "ran-after-failure", "initializer %s ran although %s, which it needs, failed", key(world, i).c_str(), key(world, j).c_str());
        }
      }
      for (int i = 0; i < n; ++i) if (world.specs[i].batch > upto) SIM_CHECK(!world.runs[i], "ran-early", "initializer %d ran before its library was loaded", i);
    }
  };
  if (!valid || failing) {
    sim_probe(valid ? "failing" : "invalid-graph");
    Coordinator c;
    bool failed = false;
    for (int b = 0; b < batches && !failed; ++b) {
      std::vector<const Initializer*> v;
      for (int i = 0; i < n; ++i) if (world.specs[i].batch == b) v.push_back(&inits[i]);
      if (h::coin()) std::reverse(v.begin(), v.end());
      auto st = c.Run(v);
      bool should = b < (int)ref.size() && !ref[b].valid;
      bool fail_fn = false;
      for (int i = 0; i < n; ++i) if (world.specs[i].batch == b && world.specs[i].fails) fail_fn = true;
      if (st.ok()) SIM_CHECK(!should && !fail_fn, "error-lost", "batch %d %s, but the run succeeded", b, should ? "is not executable" : "has a failing initializer");
      else SIM_CHECK(should || fail_fn, "spurious-error", "batch %d is fine: %s", b, st.ToString().c_str());
      if (!st.ok() && fail_fn && !should) SIM_CHECK(st.code() == absl::StatusCode::kUnavailable && st.message().find("init failure") != absl::string_view::npos, "wrong-error", "%s", st.ToString().c_str());
      failed = !st.ok();
      check_order(!failed, b);
    }
    return;
  }
  sim_probe("valid-graph");
  std::deque<Registration> regs;
  auto load = [&](int b) {
    for (int i = 0; i < n; ++i) if (world.specs[i].batch == b) { regs.emplace_back(inits[i]); sim_probe("registered"); }
    int times = h::range(1, 2);
    for (int k = 0; k < times; ++k) InitArollaSecondary();
  };
  load(0);
  bool both = batches > 1 && h::one_in(3);
  SIM_CHECK(world.order.empty(), "ran-early", "an initializer ran before InitArolla()");
  {
    h::Threads ts;
    int nt = h::range(1, 3);
    for (int t = 0; t < nt; ++t) ts.go([&] {
      int times = h::range(1, 2);
      for (int k = 0; k < times; ++k) {
        InitArolla();
        for (int i = 0; i < n; ++i)
          if (world.specs[i].batch == 0 && !world.specs[i].none) SIM_CHECK(plain[i] == 2, "returned-early", "InitArolla() returned while initializer %d was at state %d", i, plain[i]);
      }
      if (h::coin()) CheckInitArolla();
    });
  }
  check_order(true, 0);
  for (int b = 1; b < batches; ++b) {
    load(b);
    check_order(true, b);
    if (both) InitArolla();
    sim_probe("late-library");
  }
  check_order(true, batches - 1);
}
