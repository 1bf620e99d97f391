// Helpers shared by the simulation harnesses.
#ifndef VERIF_HARNESS_H_
#define VERIF_HARNESS_H_
#include <cstdint>
#include <cstdio>
#include <functional>
#include <memory>
#include <string>
#include <thread>
#include <utility>
#include <vector>
#include "sim.h"

namespace h {
// Uniform in [lo, hi].
inline int range(int lo, int hi) { return lo + static_cast<int>(sim_choose(static_cast<uint64_t>(hi - lo + 1))); }
inline bool coin() { return sim_choose(2) == 1; }
// True once in n; false is the simpler value.
inline bool one_in(int n) { return sim_choose(n) == static_cast<uint64_t>(n - 1) && n > 1; }
// A little simulated work: lets others run.
inline void dawdle(int n) { for (int i = 0; i < n; ++i) sim_yield(); }

// Threads that are joined on destruction.
class Threads {
 public:
  template <typename F> void go(F f) { v_.emplace_back(std::move(f)); }
  void join() { for (auto& t : v_) t.join(); v_.clear(); }
  ~Threads() { join(); }
 private:
  std::vector<std::thread> v_;
};

// Oracle-side bookkeeping shared by threads: invisible to the race detector
// and never preempted, so that it neither hides nor adds orderings.
template <typename T>
class Book {
 public:
  template <typename... A> explicit Book(A&&... a) : v_(std::forward<A>(a)...) {}
  template <typename F> auto use(F f) {
    struct G { G() { sim_nopreempt_begin(); sim_ignore_begin(); } ~G() { sim_ignore_end(); sim_nopreempt_end(); } } g;
    return f(v_);
  }
 private:
  T v_;
};
}  // namespace h
#endif
