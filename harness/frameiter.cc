// Row-by-row evaluation over arrays: every row once, results in their place,
// however many threads and frame buffers there are.
#include <map>
#include <set>
#include "h.h"
#include "arolla/array/array.h"
#include "arolla/array/qtype/types.h"
#include "arolla/dense_array/dense_array.h"
#include "arolla/dense_array/qtype/types.h"
#include "arolla/memory/frame.h"
#include "arolla/memory/memory_allocation.h"
#include "arolla/memory/optional_value.h"
#include "arolla/memory/raw_buffer_factory.h"
#include "arolla/qtype/array_like/frame_iter.h"
#include "arolla/qtype/base_types.h"
#include "arolla/qtype/optional_qtype.h"
#include "arolla/qtype/typed_ref.h"
#include "arolla/qtype/typed_slot.h"
#include "arolla/qtype/typed_value.h"
#include "arolla/util/bytes.h"
#include "arolla/util/threading.h"

extern "C" const char* const sim_harness_name = "frameiter";
namespace {
using namespace arolla;
enum Kind { I, F, B };
struct Cell { bool present; int64_t v; };
Bytes bytes_of(int64_t v) { return Bytes(std::string(v % 3 == 0 ? 24 : 1, 'a') + std::to_string(v)); }

// Counts what is started and joined.
class Threading final : public ThreadingInterface {
 public:
  void WithThreading(std::function<void()> fn) final {
    int before = open_->use([](int& n) { return n; });
    fn();
    int after = open_->use([](int& n) { return n; });
    SIM_CHECK(before == 0 && after == 0, "thread-left", "%d threads not joined", after);
    withs++;
  }
  std::function<void()> StartThread(std::function<void()> fn) final {
    open_->use([](int& n) { n++; });
    started++;
    auto t = std::make_shared<std::thread>(std::move(fn));
    return [t, this] { t->join(); open_->use([](int& n) { n--; }); };
  }
  int GetRecommendedThreadCount() const final { return 3; }
  int withs = 0, started = 0;
 private:
  std::shared_ptr<h::Book<int>> open_ = std::make_shared<h::Book<int>>(0);
};

template <typename T> T to(int64_t v) {
  if constexpr (std::is_same_v<T, Bytes>) return bytes_of(v);
  else return static_cast<T>(v);
}
template <typename T>
TypedValue column(const std::vector<Cell>& cells, bool array, bool& sparse) {
  const int pad = h::one_in(3) ? h::range(1, 40) : 0, tail = h::range(0, 2);
  std::vector<OptionalValue<T>> v(pad);
  bool full = true;
  for (auto& c : cells) { v.push_back(c.present ? OptionalValue<T>(to<T>(c.v)) : OptionalValue<T>()); full &= c.present; }
  for (int k = 0; k < tail; ++k) v.push_back(OptionalValue<T>(to<T>(77)));
  DenseArray<T> d = CreateDenseArray<T>(v);
  if (!array) {
    d = d.Slice(pad, cells.size());
    if (full && h::coin()) d.bitmap = {};
    return TypedValue::FromValue(d);
  }
  Array<T> a(d);
  sparse = h::coin();
  if (sparse) a = a.ToSparseForm(h::coin() ? OptionalValue<T>() : OptionalValue<T>(to<T>(h::range(0, 3))));
  return TypedValue::FromValue(a.Slice(pad, cells.size()));
}

struct Col { Kind k; bool array; std::vector<Cell> cells; std::optional<TypedValue> value; };
struct Out { Kind k; bool array, optional; int from; };

QTypePtr array_type(Kind k, bool array) {
  if (array) return k == I ? GetArrayQType<int64_t>() : k == F ? GetArrayQType<float>() : GetArrayQType<Bytes>();
  return k == I ? GetDenseArrayQType<int64_t>() : k == F ? GetDenseArrayQType<float>() : GetDenseArrayQType<Bytes>();
}
QTypePtr scalar_type(Kind k, bool optional) {
  if (optional) return k == I ? GetOptionalQType<int64_t>() : k == F ? GetOptionalQType<float>() : GetOptionalQType<Bytes>();
  return k == I ? GetQType<int64_t>() : k == F ? GetQType<float>() : GetQType<Bytes>();
}

template <typename T>
void check_out(const Out& o, const std::vector<Cell>& want, TypedRef ref, int n, int add) {
  auto go = [&](const auto& arr) {
    SIM_CHECK(static_cast<int>(arr.size()) == n, "output-size", "%d rows in, %d out", n, static_cast<int>(arr.size()));
    for (int i = 0; i < n; ++i) {
      OptionalValue<T> v(arr[i]);
      bool present = !o.optional || want[i].present;
      int64_t x = want[i].present ? want[i].v + add : -1;
      SIM_CHECK(v.present == present && (!present || v.value == to<T>(x)), "output-value", "row %d of %d: %s where value %lld was due (missing: %d)", i, n,
                v.present ? "another value" : "missing", (long long)x, !present);
    }
  };
  if (o.array) go(ref.UnsafeAs<Array<T>>());
  else go(ref.UnsafeAs<DenseArray<T>>());
}

template <typename T>
void copy_cell(FramePtr f, TypedSlot in, TypedSlot out, bool optional, int64_t (*)(T), int add) {
  const auto& v = f.Get(in.UnsafeToSlot<OptionalValue<T>>());
  OptionalValue<T> r;
  if (v.present) {
    int64_t x;
    if constexpr (std::is_same_v<T, Bytes>) { const char* p = v.value.data(); while (*p == 'a') ++p; x = std::stoll(std::string(p, v.value.data() + v.value.size() - p)); }
    else x = static_cast<int64_t>(v.value);
    r = to<T>(x + add);
  }
  if (optional) f.Set(out.UnsafeToSlot<OptionalValue<T>>(), r);
  else f.Set(out.UnsafeToSlot<T>(), r.present ? r.value : to<T>(-1));
}

void iterate(const std::vector<Col>& cols, int n, bool concurrent) {
  // Plan.
  std::vector<int> used;
  for (size_t k = 0; k < cols.size(); ++k) if (h::coin()) used.push_back(k);
  std::vector<Out> outs;
  for (int k = h::range(0, 3); k > 0; --k) {
    if (used.empty()) break;
    int from = h::range(0, used.size() - 1);
    outs.push_back({cols[used[from]].k, h::coin(), h::coin(), from});
  }
  const int add = h::range(0, 2);
  FrameLayout::Builder b;
  if (h::coin()) b.AddSlot<bool>();
  auto row_slot = b.AddSlot<int64_t>();       // left from the previous use of the frame
  auto const_slot = b.AddSlot<Bytes>();       // set once by CustomFrameInitialization
  std::vector<TypedSlot> in, out, arr_out;
  std::vector<TypedRef> arrays;
  for (int u : used) { in.push_back(AddSlot(scalar_type(cols[u].k, true), &b)); arrays.push_back(cols[u].value->AsRef()); }
  for (auto& o : outs) out.push_back(AddSlot(scalar_type(o.k, o.optional), &b));
  FrameLayout layout = std::move(b).Build();
  FrameLayout::Builder rb;
  for (auto& o : outs) arr_out.push_back(AddSlot(array_type(o.k, o.array), &rb));
  FrameLayout result_layout = std::move(rb).Build();
  MemoryAllocation result(&result_layout);

  FrameIterator::Options opt;
  opt.frame_buffer_count = h::one_in(4) ? 64 : h::range(1, 9);
  std::unique_ptr<UnsafeArenaBufferFactory> arena;
  if (h::one_in(4)) { arena = std::make_unique<UnsafeArenaBufferFactory>(256); opt.buffer_factory = arena.get(); }
  bool bad = false;
  if (used.empty()) { if (!h::one_in(6)) opt.row_count = n; else bad = true; }
  else if (h::coin()) { opt.row_count = n; if (h::one_in(5)) { opt.row_count = n + 1; bad = true; } }
  std::optional<TypedValue> wrong;
  if (used.size() > 1 && h::one_in(8)) {
    std::vector<Cell> longer = cols[used[1]].cells;
    longer.push_back({true, 5});
    bool s;
    wrong = column<float>(longer, h::coin(), s);
    for (size_t k = 1; k < used.size(); ++k) if (cols[used[k]].k == F) { arrays[k] = wrong->AsRef(); bad = true; break; }
  }
  auto it = FrameIterator::Create(arrays, in, arr_out, out, &layout, opt);
  if (bad) {
    SIM_CHECK(!it.ok(), "bad-size-accepted", "arrays of different sizes were accepted");
    sim_probe("refused");
    return;
  }
  SIM_CHECK(it.ok(), "create-failed", "%s", std::string(it.status().message()).c_str());
  SIM_CHECK(it->row_count() == n, "row-count", "%d rows seen as %d", n, static_cast<int>(it->row_count()));
  it->CustomFrameInitialization([&](FramePtr f) { f.Set(const_slot, Bytes("a constant that lives on the heap")); });

  h::Book<std::vector<int>> calls(n + 1, 0);
  h::Book<int> total(0);
  int id_col = -1;  // a full int column tells rows apart
  for (size_t k = 0; k < used.size(); ++k) if (cols[used[k]].k == I && used[k] == 0) id_col = k;
  auto fn = [&](FramePtr f) {
    SIM_CHECK(f.Get(const_slot) == Bytes("a constant that lives on the heap"), "constant-lost", "the frame lost what it was initialised with");
    f.Set(row_slot, f.Get(row_slot) + 1);
    if (id_col >= 0) {
      auto v = f.Get(in[id_col].UnsafeToSlot<OptionalValue<int64_t>>());
      SIM_CHECK(v.present && v.value >= 0 && v.value < n, "row-lost", "a row that does not exist");
      int c = calls.use([&](auto& x) { return ++x[v.value]; });
      SIM_CHECK(c == 1, "row-twice", "row %d processed %d times", static_cast<int>(v.value), c);
      for (size_t k = 0; k < used.size(); ++k) {
        const Cell& c = cols[used[k]].cells[v.value];
        bool ok = true;
        switch (cols[used[k]].k) {
          case I: { auto x = f.Get(in[k].UnsafeToSlot<OptionalValue<int64_t>>()); ok = x.present == c.present && (!c.present || x.value == c.v); break; }
          case F: { auto x = f.Get(in[k].UnsafeToSlot<OptionalValue<float>>()); ok = x.present == c.present && (!c.present || x.value == static_cast<float>(c.v)); break; }
          case B: { const auto& x = f.Get(in[k].UnsafeToSlot<OptionalValue<Bytes>>()); ok = x.present == c.present && (!c.present || x.value == bytes_of(c.v)); break; }
        }
        SIM_CHECK(ok, "input-value", "row %d: input %d is another row's", static_cast<int>(v.value), static_cast<int>(k));
      }
    }
    total.use([](int& t) { t++; });
    if (h::one_in(4)) sim_yield();
    for (size_t k = 0; k < outs.size(); ++k) {
      if (outs[k].k == I) copy_cell<int64_t>(f, in[outs[k].from], out[k], outs[k].optional, nullptr, add);
      else if (outs[k].k == F) copy_cell<float>(f, in[outs[k].from], out[k], outs[k].optional, nullptr, add);
      else copy_cell<Bytes>(f, in[outs[k].from], out[k], outs[k].optional, nullptr, add);
    }
  };
  if (concurrent && !h::one_in(5)) {
    const int tc = h::range(1, 5);
    if (h::one_in(4)) { StdThreading th(tc); it->ForEachFrame(fn, th, tc); }
    else {
      Threading th;
      it->ForEachFrame(fn, th, tc);
      SIM_CHECK(th.withs == 1, "with-threading", "WithThreading called %d times", th.withs);
      SIM_CHECK(th.started < tc, "too-many-threads", "%d threads started where %d may work", th.started + 1, tc);
    }
    sim_probe(tc > 1 ? "threads" : "one-thread");
    if (tc > opt.frame_buffer_count) sim_probe("more-threads-than-frames");
    if (n > opt.frame_buffer_count) sim_probe("several-batches");
  } else {
    it->ForEachFrame(fn);
    sim_probe("plain");
  }
  int t = total.use([](int& t) { return t; });
  SIM_CHECK(t == n, "rows-processed", "%d rows, %d processed", n, t);
  absl::Status s = it->StoreOutput(result.frame());
  SIM_CHECK(s.ok(), "store-failed", "%s", std::string(s.message()).c_str());
  if (!outs.empty() && h::one_in(4)) {
    sim_probe("stored-twice");
    SIM_CHECK(!it->StoreOutput(result.frame()).ok(), "stored-twice", "the outputs were stored twice");
  }
  if (h::coin()) { FrameIterator gone = *std::move(it); }
  for (size_t k = 0; k < outs.size(); ++k) {
    const auto& want = cols[used[outs[k].from]].cells;
    TypedRef r = TypedRef::FromSlot(arr_out[k], result.frame());
    if (outs[k].k == I) check_out<int64_t>(outs[k], want, r, n, add);
    else if (outs[k].k == F) check_out<float>(outs[k], want, r, n, add);
    else check_out<Bytes>(outs[k], want, r, n, add);
    sim_probe("checked");
  }
}
}  // namespace

void sim_init() {
  for (Kind k : {I, F, B}) for (bool x : {false, true}) { (void)array_type(k, x)->name(); (void)scalar_type(k, x)->name(); }
}

void sim_scenario() {
  sim_set_max_steps(20000000);
  const int n = h::one_in(5) ? h::range(20, 140) : h::range(0, 12);
  std::vector<Col> cols;
  for (int k = 0, m = h::range(0, 4); k < m; ++k) {
    Col c;
    c.k = k == 0 ? I : static_cast<Kind>(h::range(0, 2));
    c.array = h::coin();
    for (int i = 0; i < n; ++i) c.cells.push_back({k == 0 || !h::one_in(3), k == 0 ? i : h::range(0, 3) + 4 * i});
    bool sparse = false;
    c.value = c.k == I ? column<int64_t>(c.cells, c.array, sparse) : c.k == F ? column<float>(c.cells, c.array, sparse) : column<Bytes>(c.cells, c.array, sparse);
    if (sparse) sim_probe("sparse");
    cols.push_back(std::move(c));
  }
  const int users = h::one_in(3) ? 2 : 1;
  h::Threads t;
  for (int k = 1; k < users; ++k) t.go([&] { iterate(cols, n, true); });
  iterate(cols, n, true);
  t.join();
}
