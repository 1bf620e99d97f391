// Decision forests: every compiled form of a forest, shared by threads, gives
// each caller the sum of the leaves its row leads to.
#include <cmath>
#include <cstring>
#include <limits>
#include <set>
#include "h.h"
#include "arolla/array/array.h"
#include "arolla/array/qtype/types.h"
#include "arolla/decision_forest/batched_evaluation/batched_forest_evaluator.h"
#include "arolla/decision_forest/decision_forest.h"
#include "arolla/decision_forest/pointwise_evaluation/forest_evaluator.h"
#include "arolla/decision_forest/split_conditions/interval_split_condition.h"
#include "arolla/decision_forest/split_conditions/set_of_values_split_condition.h"
#include "arolla/dense_array/dense_array.h"
#include "arolla/dense_array/qtype/types.h"
#include "arolla/memory/frame.h"
#include "arolla/memory/memory_allocation.h"
#include "arolla/memory/optional_value.h"
#include "arolla/qtype/base_types.h"
#include "arolla/qtype/optional_qtype.h"
#include "arolla/util/bytes.h"

extern "C" const char* const sim_harness_name = "forest";
namespace {
using namespace arolla;
enum Kind { F, I, B };
constexpr float kInf = std::numeric_limits<float>::infinity();
const float kMax = std::numeric_limits<float>::max();
const float kNan = std::numeric_limits<float>::quiet_NaN();
const float kFloats[] = {0, 1, 0.5f, 2, -1, 3, 1.5f, -0.0f, 0.25f, 100, -100, 3e38f, 3.2e38f, kMax, -kMax, -3e38f, kInf, -kInf, 1e-45f};
constexpr int64_t kI64Max = std::numeric_limits<int64_t>::max(), kI64Min = std::numeric_limits<int64_t>::min();
const int64_t kInts[] = {0, 1, 2, 3, 5, -1, 1000, kI64Max, kI64Max - 1, kI64Max - 2, kI64Min, kI64Min + 1, -7};
const char* const kBytes[] = {"", "a", "b", "ab"};

struct Val { bool present = false; float f = 0; int64_t i = 0; std::string b; };
using Row = std::vector<Val>;

// Independent description of a condition.
struct Cond {
  int input = 0, input2 = -1;
  Kind kind = F;
  bool interval = false, miss = false;
  float l = 0, r = 0;
  std::set<int64_t> ints;
  std::set<std::string> strs;
  bool eval(const Row& row) const {
    const Val& v = row[input];
    if (input2 >= 0) {
      const Val& w = row[input2];
      return v.present && w.present && v.f < w.f;
    }
    if (interval) return v.present && v.f >= l && v.f <= r;
    if (!v.present) return miss;
    return kind == I ? ints.count(v.i) > 0 : strs.count(v.b) > 0;
  }
};
struct Node { bool leaf = true; Cond c; int no = 0, yes = 0; float adj = 0; };
struct Tree { std::vector<Node> n; float weight = 1; int step = 0, sub = 0; };
struct Filter {
  int from = 0, to = -1;
  std::set<int> subs;
  bool operator()(const Tree& t) const {
    return t.step >= from && (to == -1 || t.step < to) && (subs.empty() || subs.count(t.sub));
  }
};

// A condition on two inputs, evaluated through its virtual function only.
class LessCondition final : public SplitCondition {
 public:
  LessCondition(int a, int b) : a_(a), b_(b) {}
  std::string ToString() const override { return "less"; }
  InputSignatures GetInputSignatures() const override {
    return {{a_, GetOptionalQType<float>()}, {b_, GetOptionalQType<float>()}};
  }
  std::shared_ptr<SplitCondition> RemapInputs(const absl::flat_hash_map<int, int>& m) const override {
    return std::make_shared<LessCondition>(m.contains(a_) ? m.at(a_) : a_, m.contains(b_) ? m.at(b_) : b_);
  }
  bool EvaluateCondition(const ConstFramePtr ctx, absl::Span<const TypedSlot> in) const override {
    auto v = ctx.Get(in[a_].UnsafeToSlot<OptionalValue<float>>());
    auto w = ctx.Get(in[b_].UnsafeToSlot<OptionalValue<float>>());
    return v.present && w.present && v.value < w.value;
  }
  void CombineToFingerprintHasher(FingerprintHasher* h) const override { h->Combine(a_, b_); }
  size_t StableHash() const override { return a_ * 64 + b_; }

 private:
  void AbslHashValueImpl(absl::HashState s) const override { absl::HashState::combine(std::move(s), a_, b_); }
  bool Equals(const SplitCondition& o) const override {
    auto* c = dynamic_cast<const LessCondition*>(&o);
    return c && c->a_ == a_ && c->b_ == b_;
  }
  int a_, b_;
};

struct World {
  std::vector<Kind> inputs;
  std::vector<Tree> trees;
  std::vector<Filter> groups;
  std::vector<int64_t> ints;   // values worth trying
  std::vector<float> floats;
};

float pick_float() {
  if (h::one_in(3)) return static_cast<float>(h::range(-8, 8)) / 4;
  return kFloats[h::range(0, std::size(kFloats) - 1)];
}
int64_t pick_int() { return kInts[h::range(0, std::size(kInts) - 1)]; }

Cond make_cond(World& w, int input, bool multi) {
  Cond c;
  c.input = input;
  c.kind = w.inputs[input];
  if (c.kind == F) {
    if (multi && h::one_in(8)) {
      for (int j = 0; j < static_cast<int>(w.inputs.size()); ++j)
        if (j != input && w.inputs[j] == F) { c.input2 = j; sim_probe("two-input-condition"); return c; }
    }
    c.interval = true;
    switch (h::range(0, 4)) {
      case 0: c.l = pick_float(); c.r = kInf; break;
      case 1: c.l = -kInf; c.r = pick_float(); break;
      case 2: c.l = c.r = pick_float(); break;
      case 3: c.l = pick_float(); c.r = pick_float(); if (c.l > c.r && !h::one_in(10)) std::swap(c.l, c.r); break;
      default: c.l = -kInf; c.r = kInf; if (h::coin()) c.l = pick_float();
    }
    w.floats.push_back(c.l);
    w.floats.push_back(c.r);
  } else if (c.kind == I) {
    int n = h::range(0, 3);
    for (int k = 0; k < n; ++k) c.ints.insert(pick_int());
    if (h::one_in(10)) for (int k = 0; k < 20; ++k) c.ints.insert(k * 3);
    c.miss = h::coin();
    w.ints.insert(w.ints.end(), c.ints.begin(), c.ints.end());
  } else {
    int n = h::range(0, 2);
    for (int k = 0; k < n; ++k) c.strs.insert(kBytes[h::range(0, 3)]);
    c.miss = h::coin();
  }
  return c;
}

// Splits the leaf `at` of t.
void split(Tree& t, int at, const Cond& c) {
  t.n[at].leaf = false;
  t.n[at].c = c;
  t.n[at].no = t.n.size();
  t.n.push_back(Node());
  t.n[at].yes = t.n.size();
  t.n.push_back(Node());
}

Tree make_tree(World& w) {
  Tree t;
  t.n.push_back(Node());
  const int ni = w.inputs.size();
  const int only = h::coin() ? h::range(0, ni - 1) : -1;
  auto in = [&] { return only >= 0 ? only : h::range(0, ni - 1); };
  switch (h::range(0, 5)) {
    case 0: sim_probe("leaf-only"); break;
    case 1: {  // the same split in a whole layer
      sim_probe("oblivious");
      int depth = h::one_in(6) ? h::range(5, 7) : h::range(1, 4);
      std::vector<int> layer{0};
      for (int d = 0; d < depth; ++d) {
        Cond c = make_cond(w, in(), only < 0);
        std::vector<int> next;
        for (size_t k = 0; k < layer.size(); ++k) {
          Cond mine = c;
          if (d > 1 && k + 1 == layer.size() && h::one_in(8)) mine = make_cond(w, in(), only < 0);  // nearly oblivious
          split(t, layer[k], mine);
          next.push_back(t.n[layer[k]].no);
          next.push_back(t.n[layer[k]].yes);
        }
        layer = next;
      }
      break;
    }
    case 2: {  // a chain
      int len = h::one_in(6) ? h::range(30, 70) : h::range(1, 6), at = 0;
      if (len > 31) sim_probe("wide-tree");
      for (int k = 0; k < len; ++k) {
        split(t, at, make_cond(w, in(), only < 0));
        at = h::coin() ? t.n[at].no : t.n[at].yes;
      }
      break;
    }
    default: {
      int splits = h::one_in(14) ? h::range(28, 70) : h::range(1, 7);
      if (splits > 31) sim_probe("wide-tree");
      for (int k = 0; k < splits; ++k) {
        std::vector<int> leaves;
        for (size_t j = 0; j < t.n.size(); ++j) if (t.n[j].leaf) leaves.push_back(j);
        split(t, leaves[h::range(0, leaves.size() - 1)], make_cond(w, in(), only < 0));
      }
    }
  }
  for (auto& n : t.n) n.adj = static_cast<float>(h::range(-40, 40)) / 4;
  const float weights[] = {1, 2, 0.5f, -1, 0.25f, 0};
  t.weight = weights[h::range(0, 5)];
  t.step = h::range(0, 3);
  t.sub = h::range(0, 2);
  return t;
}

std::shared_ptr<const SplitCondition> real_cond(const Cond& c) {
  if (c.input2 >= 0) return std::make_shared<LessCondition>(c.input, c.input2);
  if (c.interval) return IntervalSplit(c.input, c.l, c.r);
  if (c.kind == I) return SetOfValuesSplit<int64_t>(c.input, {c.ints.begin(), c.ints.end()}, c.miss);
  absl::flat_hash_set<Bytes> s;
  for (auto& x : c.strs) s.insert(Bytes(x));
  return SetOfValuesSplit<Bytes>(c.input, s, c.miss);
}

DecisionTree real_tree(const Tree& t) {
  DecisionTree r;
  r.weight = t.weight;
  r.tag.step = t.step;
  r.tag.submodel_id = t.sub;
  std::vector<int> idx(t.n.size());
  int splits = 0, leaves = 0;
  // The root is split node 0; the rest in a random one of two orders.
  bool rev = h::coin();
  if (!t.n[0].leaf) idx[0] = splits++;
  else idx[0] = leaves++;
  for (size_t k = 1; k < t.n.size(); ++k) {
    size_t j = rev ? t.n.size() - k : k;
    idx[j] = t.n[j].leaf ? leaves++ : splits++;
  }
  r.split_nodes.resize(splits);
  r.adjustments.resize(leaves);
  auto id = [&](int j) { return t.n[j].leaf ? DecisionTreeNodeId::AdjustmentId(idx[j]) : DecisionTreeNodeId::SplitNodeId(idx[j]); };
  for (size_t j = 0; j < t.n.size(); ++j) {
    if (t.n[j].leaf) r.adjustments[idx[j]] = t.n[j].adj;
    else r.split_nodes[idx[j]] = {id(t.n[j].no), id(t.n[j].yes), real_cond(t.n[j].c)};
  }
  return r;
}

float reference(const World& w, const Filter& f, const Row& row) {
  double s = 0;
  for (auto& t : w.trees) {
    if (!f(t)) continue;
    int at = 0;
    while (!t.n[at].leaf) at = t.n[at].c.eval(row) ? t.n[at].yes : t.n[at].no;
    s += static_cast<double>(t.n[at].adj) * t.weight;
  }
  return static_cast<float>(s);
}

Row make_row(const World& w) {
  Row r;
  for (Kind k : w.inputs) {
    Val v;
    v.present = !h::one_in(5);
    if (k == F) {
      v.f = !w.floats.empty() && h::coin() ? w.floats[h::range(0, w.floats.size() - 1)] : pick_float();
      switch (h::range(0, 9)) {
        case 7: v.f = std::nextafterf(v.f, kInf); break;
        case 8: v.f = std::nextafterf(v.f, -kInf); break;
        case 9: if (h::coin()) { v.f = kNan; sim_probe("nan"); } break;
      }
    } else if (k == I) {
      v.i = !w.ints.empty() && h::coin() ? w.ints[h::range(0, w.ints.size() - 1)] : pick_int();
      int d = h::range(0, 5);
      if (d == 4 && v.i < kI64Max) v.i++;
      if (d == 5 && v.i > kI64Min) v.i--;
    } else {
      v.b = kBytes[h::range(0, 3)];
    }
    r.push_back(v);
  }
  return r;
}

std::string show(const World& w, const Row& r) {
  std::string s;
  char buf[64];
  for (size_t k = 0; k < r.size(); ++k) {
    if (!r[k].present) s += " -";
    else if (w.inputs[k] == F) { snprintf(buf, sizeof buf, " %.9g", r[k].f); s += buf; }
    else if (w.inputs[k] == I) { snprintf(buf, sizeof buf, " %lld", (long long)r[k].i); s += buf; }
    else s += " '" + r[k].b + "'";
  }
  return s;
}

void store(const World& w, const Row& r, const std::vector<TypedSlot>& slots, FramePtr f) {
  for (size_t k = 0; k < r.size(); ++k) {
    if (slots[k].byte_offset() == 0 && false) continue;
    if (w.inputs[k] == F) f.Set(slots[k].UnsafeToSlot<OptionalValue<float>>(), r[k].present ? OptionalValue<float>(r[k].f) : OptionalValue<float>());
    else if (w.inputs[k] == I) f.Set(slots[k].UnsafeToSlot<OptionalValue<int64_t>>(), r[k].present ? OptionalValue<int64_t>(r[k].i) : OptionalValue<int64_t>());
    else f.Set(slots[k].UnsafeToSlot<OptionalValue<Bytes>>(), r[k].present ? OptionalValue<Bytes>(Bytes(r[k].b)) : OptionalValue<Bytes>());
  }
}

bool same(float a, float b) { return a == b; }

template <typename T, typename Get>
void dense_column(const std::vector<Row>& rows, Get get, FramePtr f, TypedSlot slot, bool array) {
  const int pad = h::one_in(3) ? h::range(1, 40) : 0;  // a slice: bitmap offset
  std::vector<OptionalValue<T>> v(pad);
  bool full = true;
  for (auto& r : rows) { v.push_back(get(r)); full &= v.back().present; }
  DenseArray<T> d = CreateDenseArray<T>(v).Slice(pad, rows.size());
  if (full && h::coin()) d.bitmap = {};
  if (array) {
    Array<T> a(d);
    if (h::coin()) { a = a.ToSparseForm(); sim_probe("sparse-input"); }
    f.Set(slot.UnsafeToSlot<Array<T>>(), a);
  } else {
    f.Set(slot.UnsafeToSlot<DenseArray<T>>(), d);
  }
}

void check_batch(const World& w, const BatchedForestEvaluator& ev, bool faults) {
  const bool array = h::coin();
  const int n = h::one_in(8) ? h::range(60, 70) : h::one_in(12) ? h::range(120, 200) : h::range(0, 9);
  if (n > 64) sim_probe("more-than-one-batch");
  std::vector<Row> rows;
  std::vector<Row> some;
  for (int k = 0; k < 12; ++k) some.push_back(make_row(w));
  for (int k = 0; k < n; ++k) rows.push_back(k < 12 ? some[k] : some[h::range(0, 11)]);
  FrameLayout::Builder b;
  std::vector<TypedSlot> in, out;
  for (Kind k : w.inputs) {
    if (array) in.push_back(k == F ? TypedSlot::FromSlot(b.AddSlot<Array<float>>()) : k == I ? TypedSlot::FromSlot(b.AddSlot<Array<int64_t>>()) : TypedSlot::FromSlot(b.AddSlot<Array<Bytes>>()));
    else in.push_back(k == F ? TypedSlot::FromSlot(b.AddSlot<DenseArray<float>>()) : k == I ? TypedSlot::FromSlot(b.AddSlot<DenseArray<int64_t>>()) : TypedSlot::FromSlot(b.AddSlot<DenseArray<Bytes>>()));
  }
  for (size_t g = 0; g < w.groups.size(); ++g)
    out.push_back(array ? TypedSlot::FromSlot(b.AddSlot<Array<float>>()) : TypedSlot::FromSlot(b.AddSlot<DenseArray<float>>()));
  FrameLayout layout = std::move(b).Build();
  MemoryAllocation mem(&layout);
  FramePtr f = mem.frame();
  // One column may have the wrong length.
  int bad = faults && h::one_in(6) ? h::range(0, w.inputs.size() - 1) : -1;
  std::vector<Row> longer = rows;
  longer.push_back(some[0]);
  for (size_t k = 0; k < w.inputs.size(); ++k) {
    const std::vector<Row>& rs = static_cast<int>(k) == bad ? longer : rows;
    if (w.inputs[k] == F) dense_column<float>(rs, [&](const Row& r) { return r[k].present ? OptionalValue<float>(r[k].f) : OptionalValue<float>(); }, f, in[k], array);
    else if (w.inputs[k] == I) dense_column<int64_t>(rs, [&](const Row& r) { return r[k].present ? OptionalValue<int64_t>(r[k].i) : OptionalValue<int64_t>(); }, f, in[k], array);
    else dense_column<Bytes>(rs, [&](const Row& r) { return r[k].present ? OptionalValue<Bytes>(Bytes(r[k].b)) : OptionalValue<Bytes>(); }, f, in[k], array);
  }
  std::optional<int64_t> count;
  if (h::coin()) count = n;
  absl::Status s = ev.EvalBatch(in, out, f, GetHeapBufferFactory(), count);
  if (bad >= 0) {
    sim_probe("size-mismatch");
    // Only inputs the forest uses are looked at.
    std::set<int> used;
    for (auto& t : w.trees) for (auto& nd : t.n) if (!nd.leaf) { used.insert(nd.c.input); if (nd.c.input2 >= 0) used.insert(nd.c.input2); }
    if (used.count(bad) && (used.size() > 1 || count.has_value())) {
      SIM_CHECK(!s.ok(), "batch-accepted-bad-size", "columns of %d and %d rows were accepted", n, n + 1);
      return;
    }
    if (used.count(bad) || used.empty()) return;  // the row count came from the longer column
  }
  SIM_CHECK(s.ok(), "batch-failed", "batched evaluation of %d rows failed: %s", n, std::string(s.message()).c_str());
  sim_probe("batch");
  for (size_t g = 0; g < w.groups.size(); ++g) {
    auto check = [&](const auto& res) {
      SIM_CHECK(res.size() == n, "batch-size", "%d rows in, %d out", n, static_cast<int>(res.size()));
      for (int k = 0; k < n; ++k) {
        OptionalValue<float> v = res[k];
        float want = reference(w, w.groups[g], rows[k]);
        SIM_CHECK(v.present && same(v.value, want), "batch-value", "row %d of %d (%s): %s%g instead of %g in group %d", k, n,
                  show(w, rows[k]).c_str(), v.present ? "" : "missing ", v.value, want, static_cast<int>(g));
      }
    };
    if (array) check(f.Get(out[g].UnsafeToSlot<Array<float>>()));
    else check(f.Get(out[g].UnsafeToSlot<DenseArray<float>>()));
  }
}
}  // namespace

void sim_init() {
  // Types exist before the threads: interning them is another property.
  for (auto t : {GetOptionalQType<float>(), GetOptionalQType<int64_t>(), GetOptionalQType<Bytes>()}) (void)t->name();
  for (auto t : {GetDenseArrayQType<float>(), GetDenseArrayQType<int64_t>(), GetDenseArrayQType<Bytes>()}) (void)t->name();
  for (auto t : {GetArrayQType<float>(), GetArrayQType<int64_t>(), GetArrayQType<Bytes>()}) (void)t->name();
}

void sim_scenario() {
  sim_set_max_steps(100000000);  // some forests are big
  World w;
  std::unique_ptr<DecisionForest> forest;
  {
    struct G { G() { sim_nopreempt_begin(); } ~G() { sim_nopreempt_end(); } } g;
    int ni = h::range(1, 5);
    int plan = h::range(0, 3);
    for (int k = 0; k < ni; ++k) w.inputs.push_back(plan == 0 ? F : plan == 1 ? I : static_cast<Kind>(h::range(0, plan == 2 ? 1 : 2)));
    int nt = h::one_in(12) ? h::range(6, 25) : h::range(0, 4);
    for (int k = 0; k < nt; ++k) {
      if (k > 0 && h::one_in(8)) w.trees.push_back(w.trees[h::range(0, k - 1)]);
      else w.trees.push_back(make_tree(w));
    }
    switch (h::range(0, 4)) {
      case 0: case 1: w.groups.push_back({}); break;
      case 2: {
        int at = h::range(0, 4);
        Filter a, b;
        a.to = at; b.from = at;
        if (at == 0 && h::coin()) std::swap(a, b);
        w.groups = {a, b};
        break;
      }
      case 3: for (int k = h::range(1, 3), j = 0; j < k; ++j) { Filter a; a.subs = {j}; w.groups.push_back(a); } break;
      default: { Filter a, b; a.subs = {0}; a.to = 2; b.subs = {1, 2}; w.groups = {b, a}; }
    }
    std::vector<DecisionTree> trees;
    for (auto& t : w.trees) trees.push_back(real_tree(t));
    auto made = DecisionForest::FromTrees(std::move(trees));
    SIM_CHECK(made.ok(), "forest-refused", "a valid forest was refused: %s", std::string(made.status().message()).c_str());
    forest = *std::move(made);
  }
  std::vector<TreeFilter> filters;
  for (auto& g : w.groups) {
    TreeFilter f;
    f.step_range_from = g.from;
    f.step_range_to = g.to;
    f.submodels.insert(g.subs.begin(), g.subs.end());
    filters.push_back(f);
  }

  FrameLayout::Builder b;
  std::vector<TypedSlot> slots;
  std::vector<ForestEvaluator::Output> outs;
  if (h::coin()) b.AddSlot<double>();
  for (Kind k : w.inputs)
    slots.push_back(k == F ? TypedSlot::FromSlot(b.AddSlot<OptionalValue<float>>()) : k == I ? TypedSlot::FromSlot(b.AddSlot<OptionalValue<int64_t>>()) : TypedSlot::FromSlot(b.AddSlot<OptionalValue<Bytes>>()));
  for (auto& f : filters) outs.push_back({f, b.AddSlot<float>()});
  FrameLayout layout = std::move(b).Build();

  ForestEvaluator::CompilationParams pp[5];
  pp[1] = {true, false, false};
  pp[2] = {true, true, false};
  pp[3] = {true, false, true};
  pp[4] = {false, true, h::coin()};
  const int np = h::range(1, 5), first = h::range(0, 4);
  std::vector<std::pair<int, ForestEvaluator>> evs;
  std::shared_ptr<const BatchedForestEvaluator> batched;
  // Compiled while other threads evaluate what is there already? The forest is
  // shared: compile some on this thread and some concurrently.
  auto compile = [&](int which) -> std::optional<ForestEvaluator> {
    auto e = ForestEvaluator::Compile(*forest, slots, outs, pp[which]);
    if (!e.ok()) {
      SIM_CHECK(!pp[which].enable_regular_eval, "forest-not-compiled", "%s", std::string(e.status().message()).c_str());
      return std::nullopt;
    }
    sim_probe(which == 0 ? "default" : which == 1 ? "regular" : which == 2 ? "bitmask" : which == 3 ? "single-input" : "no-regular");
    return *std::move(e);
  };
  for (int k = 0; k < np; ++k) {
    auto e = compile((first + k) % 5);
    if (e) evs.emplace_back((first + k) % 5, *std::move(e));
  }
  auto compile_batched = [&] {
    BatchedForestEvaluator::CompilationParams p;
    const int64_t sizes[] = {500000, 1, 2, 5, 20};
    p.optimal_splits_per_evaluator = sizes[h::range(0, 4)];
    auto e = BatchedForestEvaluator::Compile(*forest, filters, p);
    SIM_CHECK(e.ok(), "batched-not-compiled", "%s", std::string(e.status().message()).c_str());
    return std::shared_ptr<const BatchedForestEvaluator>(*std::move(e));
  };
  if (h::coin()) batched = compile_batched();
  if (h::one_in(3)) forest.reset(), sim_probe("forest-gone");

  auto work = [&](int rounds) {
    MemoryAllocation mem(&layout);
    FramePtr f = mem.frame();
    for (int r = 0; r < rounds; ++r) {
      if (batched && h::one_in(3)) { check_batch(w, *batched, true); continue; }
      if (forest && h::one_in(12)) {
        sim_probe("compiled-concurrently");
        if (h::coin()) { auto e = compile(h::range(0, 3)); }
        else { auto e = compile_batched(); check_batch(w, *e, false); }
        continue;
      }
      Row row = make_row(w);
      store(w, row, slots, f);
      if (forest && h::one_in(4)) {
        for (size_t g = 0; g < filters.size(); ++g) {
          float got = DecisionForestNaiveEvaluation(*forest, f, slots, filters[g]), want = reference(w, w.groups[g], row);
          SIM_CHECK(same(got, want), "naive-value", "row%s: %g instead of %g", show(w, row).c_str(), got, want);
        }
        sim_probe("naive");
      }
      if (evs.empty()) continue;
      auto& [which, e] = evs[h::range(0, evs.size() - 1)];
      for (auto& o : outs) f.Set(o.slot, 12345.f);
      e.Eval(f, f);
      for (size_t g = 0; g < filters.size(); ++g) {
        float got = f.Get(outs[g].slot), want = reference(w, w.groups[g], row);
        SIM_CHECK(same(got, want), "forest-value", "row%s, algorithms %d: %.9g instead of %.9g in group %d", show(w, row).c_str(), which, got, want, static_cast<int>(g));
      }
      sim_probe("evaluated");
    }
  };
  const int nthreads = h::range(0, 3);
  h::Threads t;
  for (int k = 0; k < nthreads; ++k) t.go([&] { work(h::range(1, 4)); });
  work(h::range(2, 12));
  t.join();
}
