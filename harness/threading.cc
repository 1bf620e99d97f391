// ExecuteTasksInParallel and StdThreading.
#include <condition_variable>
#include <mutex>
#include <system_error>
#include "h.h"
#include "arolla/util/threading.h"

extern "C" const char* const sim_harness_name = "threading";
void sim_init() {}
namespace {
struct State {
  int running = 0, max_running = 0;
};
// Parties wait for one another: too little parallelism is a deadlock.
struct Rendezvous {
  std::mutex m;
  std::condition_variable c;
  int arrived = 0;
  void meet(int parties) {
    std::unique_lock<std::mutex> l(m);
    if (++arrived == parties) c.notify_all();
    else c.wait(l, [&] { return arrived >= parties; });
  }
};

void execute(int depth, bool faults) {
  const int n = h::range(0, 7);
  const int par = h::range(1, 5);
  const bool meet = depth == 0 && !faults && n > 0 && h::one_in(3);
  const int parties = meet ? std::min(n, par) : 0;
  std::vector<int> done(n, 0);       // plain: a task run twice at once is a race
  std::vector<int> result(n, 0);     // plain: unordered return is a race
  h::Book<State> st;
  Rendezvous rv;
  std::vector<std::function<void()>> tasks;
  for (int i = 0; i < n; ++i) {
    const int work = h::range(0, 2);
    const bool nest = depth == 0 && h::one_in(12);
    tasks.push_back([&, i, work, nest] {
      st.use([](State& s) { if (++s.running > s.max_running) s.max_running = s.running; });
      done[i]++;
      h::dawdle(work);
      if (nest) execute(depth + 1, faults);
      if (meet && i < parties) { rv.meet(parties); sim_probe("rendezvous"); }
      result[i] = i * i + 1;
      st.use([](State& s) { --s.running; });
    });
  }
  const int before = sim_live_threads();
  bool threw = false;
  try {
    arolla::ExecuteTasksInParallel(par, tasks);
  } catch (const std::system_error&) {
    // A report that no thread could be started is acceptable, running on is not.
    threw = true;
    sim_probe("start-failure-reported");
  }
  const int running = st.use([](State& s) { return s.running; });
  SIM_CHECK(running == 0, "returned-early", "%d tasks still run after the call returned", running);
  if (depth == 0) SIM_CHECK(sim_live_threads() <= before, "thread-left", "worker threads outlive the call");
  for (int i = 0; i < n; ++i) {
    if (threw) { SIM_CHECK(done[i] <= 1, "task-count", "task %d ran %d times", i, done[i]); continue; }
    SIM_CHECK(done[i] == 1, "task-count", "task %d of %d ran %d times (parallelism %d)", i, n, done[i], par);
    SIM_CHECK(result[i] == i * i + 1, "lost-effect", "task %d left %d", i, result[i]);
  }
  const int mx = st.use([](State& s) { return s.max_running; });
  SIM_CHECK(mx <= par, "parallelism", "%d tasks ran at once, limit %d", mx, par);
  if (mx > 1) sim_probe("parallel");
  if (n > par) sim_probe("more-tasks-than-threads");
}

void std_threading(bool faults) {
  sim_probe("std-threading");
  const int hw = h::range(0, 4);
  sim_set_hwconc(hw);
  const bool dflt = h::coin();
  const int count = h::range(-1, 5);
  std::unique_ptr<arolla::ThreadingInterface> th;
  if (dflt) th = std::make_unique<arolla::StdThreading>();
  else th = std::make_unique<arolla::StdThreading>(count);
  const int rec = th->GetRecommendedThreadCount();
  SIM_CHECK(rec >= 1, "thread-count", "recommended thread count %d", rec);
  const int want = dflt ? hw : count;
  SIM_CHECK(rec == (want < 1 ? 1 : want), "thread-count", "recommended %d, configured %d", rec, want);
  const int n = h::range(0, 5);
  std::vector<int> done(n, 0);
  int in_scope = 0;
  bool finished = false;
  th->WithThreading([&] {
    in_scope++;
    std::vector<arolla::ThreadingInterface::JoinFn> joins;
    std::vector<int> order;
    std::vector<bool> started(n, false);
    for (int i = 0; i < n; ++i) {
      const int work = h::range(0, 2);
      try {
        joins.push_back(th->StartThread([&done, i, work] { h::dawdle(work); done[i]++; h::dawdle(work); done[i] += 10; }));
        started[i] = true;
      } catch (const std::system_error&) {
        sim_probe("start-failure-reported");
        joins.push_back(nullptr);
      }
    }
    // Joins in any order; copies of the handle join the same thread.
    std::vector<int> idx;
    for (int i = 0; i < n; ++i) idx.push_back(i);
    for (int i = n - 1; i > 0; --i) std::swap(idx[i], idx[h::range(0, i)]);
    for (int i : idx) {
      if (!started[i]) { SIM_CHECK(done[i] == 0, "task-count", "a task ran although starting it failed"); continue; }
      arolla::ThreadingInterface::JoinFn copy = joins[i];
      joins[i] = nullptr;
      copy();
      SIM_CHECK(done[i] == 11, "join", "joined thread %d had done %d", i, done[i]);  // plain read
    }
    finished = true;
  });
  SIM_CHECK(in_scope == 1 && finished, "with-threading", "scope ran %d times", in_scope);
  SIM_CHECK(sim_live_threads() == 0 || sim_live_threads() == 1, "thread-left", "threads outlive their joins: %d", sim_live_threads());
}
}  // namespace
void sim_scenario() {
  const bool faults = h::one_in(3);
  if (faults) sim_set_fault_pthread_create(h::range(50, 400));
  if (h::one_in(4)) { std_threading(faults); return; }
  if (h::one_in(5)) {
    sim_set_fault_pthread_create(0);
    // Independent callers at once.
    h::Threads t;
    const int k = h::range(2, 3);
    sim_probe("concurrent-callers");
    for (int i = 0; i < k; ++i) t.go([] { execute(1, false); });
    return;
  }
  execute(0, faults);
}
