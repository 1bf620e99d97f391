// ThreadSafeSharedPtr: an atomic cell holding a shared_ptr.
#include "h.h"
#include "arolla/util/thread_safe_shared_ptr.h"

extern "C" const char* const sim_harness_name = "sharedptr";
void sim_init() {}
namespace {
struct V;
struct Hist {
  struct Op { int thread; bool store; int val; uint64_t inv, ret; };
  std::vector<Op> ops;
};
struct Alive { int n = 0; };
h::Book<Alive>* A;
arolla::ThreadSafeSharedPtr<V>* cell_for_dtor;
struct V {
  int id, chk;
  bool reenter = false;
  explicit V(int id) : id(id), chk(~id) { A->use([](Alive& a) { a.n++; }); }
  ~V() {
    SIM_CHECK(chk == ~id, "stale-object", "destroyed value %d is damaged", id);
    chk = 0;
    A->use([](Alive& a) { a.n--; });
    // A value's destructor may use the cell that used to hold it.
    if (reenter && cell_for_dtor) { auto p = cell_for_dtor->load(); sim_probe("reentrant-destructor"); if (p) SIM_CHECK(p->chk == ~p->id, "stale-object", "x"); }
  }
};
// Is there an order of the operations, consistent with real time, in which
// every load returns the latest store?  (-1 is null, the initial value.)
bool linearizable(const std::vector<Hist::Op>& ops, int init, uint32_t done, int cur, std::vector<std::pair<uint32_t, int>>& seen) {
  if (done + 1 == (1u << ops.size())) return true;
  for (auto& s : seen) if (s.first == done && s.second == cur) return false;
  seen.push_back({done, cur});
  uint64_t min_ret = ~0ull;
  for (size_t i = 0; i < ops.size(); ++i) if (!(done >> i & 1)) min_ret = std::min(min_ret, ops[i].ret);
  for (size_t i = 0; i < ops.size(); ++i) {
    if (done >> i & 1) continue;
    if (ops[i].inv > min_ret) continue;
    if (!ops[i].store && ops[i].val != cur && !(ops[i].val <= -100)) continue;
    if (ops[i].val == -100 && cur != -1) continue;   // == nullptr
    if (ops[i].val == -101 && cur == -1) continue;   // != nullptr
    if (linearizable(ops, init, done | 1u << i, ops[i].store ? ops[i].val : cur, seen)) return true;
  }
  return false;
}
}  // namespace
void sim_scenario() {
  h::Book<Alive> alive;
  A = &alive;
  h::Book<Hist> hist;
  const bool init = h::coin();
  const bool reenter = h::one_in(3);
  {
    auto mk = [&](int id) { auto p = std::make_shared<V>(id); p->reenter = reenter; return p; };
    arolla::ThreadSafeSharedPtr<V> cell(init ? mk(0) : nullptr);
    cell_for_dtor = &cell;
    const int n = h::range(1, 4);
    int next = 1;
    int budget = 11;
    {
      h::Threads t;
      for (int i = 0; i < n; ++i) {
        int m = std::min(budget, h::range(1, 4));
        budget -= m;
        std::vector<std::pair<int, int>> prog;
        for (int k = 0; k < m; ++k) { int kind = h::range(0, 5); prog.push_back({kind, kind == 1 || kind == 4 ? next++ : 0}); }
        t.go([&, i, prog] {
          for (auto [kind, id] : prog) {
            Hist::Op op{i, false, 0, 0, 0};
            std::shared_ptr<V> p;
            if (kind == 1 || kind == 4) { op.store = true; op.val = id; p = mk(id); }
            if (kind == 3) { op.store = true; op.val = -1; }
            hist.use([&](Hist&) { op.inv = sim_seq(); });
            sim_yield();
            if (op.store) cell.store(std::move(p));
            else if (kind == 2) op.val = cell == nullptr ? -100 : -101;
            else if (kind == 5) op.val = cell != nullptr ? -101 : -100;
            else { p = cell.load(); op.val = p ? p->id : -1; }
            sim_yield();
            hist.use([&](Hist& h) { op.ret = sim_seq(); h.ops.push_back(op); });
            if (p) SIM_CHECK(p->chk == ~p->id, "stale-object", "loaded value %d is damaged", p->id);
          }
        });
      }
    }
    std::vector<std::pair<uint32_t, int>> seen;
    hist.use([&](Hist& h) {
      if (!linearizable(h.ops, init ? 0 : -1, 0, init ? 0 : -1, seen)) {
        std::string s;
        for (auto& o : h.ops) { char b[80]; snprintf(b, sizeof b, " T%d:%s(%d)@%llu-%llu", o.thread, o.store ? "store" : "load", o.val, (unsigned long long)o.inv, (unsigned long long)o.ret); s += b; }
        sim_fail("not-linearizable", "no order explains:%s", s.c_str());
      }
    });
    if (cell.load() == nullptr) sim_probe("ends-null");
    cell_for_dtor = nullptr;
  }
  int left = alive.use([](Alive& a) { return a.n; });
  SIM_CHECK(left == 0, "leak", "%d values outlive every reference", left);
}
