// ThreadLocal<T>: one private value per thread.
#include <condition_variable>
#include <mutex>
#include "h.h"
#include "arolla/util/threadlocal.h"

extern "C" const char* const sim_harness_name = "threadlocal";
void sim_init() {}
namespace {
struct Pod { int a = 5, b = 6; };
struct NoCopy {
  int v = 9;
  NoCopy() = default;
  NoCopy(const NoCopy&) = delete;
  NoCopy(NoCopy&&) = default;
};
template <typename TL, typename Get, typename Put>
void drive(TL& tl, int init, Get get, Put put) {
  const int n = h::range(1, 4);
  // All threads are alive together, so their identities differ.
  std::mutex m;
  std::condition_variable c;
  int arrived = 0;
  h::Threads t;
  for (int i = 0; i < n; ++i) {
    std::vector<int> prog;
    for (int k = h::range(1, 6); k > 0; --k) prog.push_back(h::range(0, 4));
    t.go([&, i, prog] {
      int cur = init;
      auto* first = tl.pointer();
      SIM_CHECK(get(*first) == init, "initial", "a new thread starts with %d, not %d", get(*first), init);
      bool replaced = false;
      for (int k = 0; k < (int)prog.size(); ++k) {
        const int val = 100 * (i + 1) + k;
        switch (prog[k]) {
          case 0: put(*tl.pointer(), val); cur = val; break;
          case 1: SIM_CHECK(get(tl.get()) == cur, "value", "thread %d reads %d, stored %d", i, get(tl.get()), cur); break;
          case 2: { const TL& c = tl; SIM_CHECK(get(*c.pointer()) == cur, "value", "thread %d reads %d, stored %d", i, get(*c.pointer()), cur); break; }
          case 3: if constexpr (std::is_copy_constructible_v<std::remove_pointer_t<decltype(first)>>) { auto x = tl.get(); put(x, val); tl.set(x); cur = val; replaced = true; sim_probe("set"); } break;
          case 4: if (!replaced) { SIM_CHECK(tl.pointer() == first, "moved", "the thread's value moved"); SIM_CHECK(get(*first) == cur, "value", "thread %d: %d through an old pointer, stored %d", i, get(*first), cur); sim_probe("stable-pointer"); } break;
        }
        sim_yield();
      }
      SIM_CHECK(get(tl.get()) == cur, "value", "thread %d reads %d, stored %d", i, get(tl.get()), cur);
      std::unique_lock<std::mutex> l(m);
      if (++arrived == n) c.notify_all();
      else c.wait(l, [&] { return arrived == n; });
    });
  }
}
}  // namespace
void sim_scenario() {
  switch (h::range(0, 3)) {
    case 0: { arolla::ThreadLocal<int> tl(h::range(0, 3) * 7); const int init = tl.get(); drive(tl, init, [](const int& v) { return v; }, [](int& v, int x) { v = x; }); break; }
    case 1: { arolla::ThreadLocal<Pod> tl; drive(tl, 5, [](const Pod& v) { SIM_CHECK(v.b == 6, "value", "field lost"); return v.a; }, [](Pod& v, int x) { v.a = x; }); break; }
    case 2: { arolla::ThreadLocal<std::string> tl(std::string("17")); drive(tl, 17, [](const std::string& s) { return atoi(s.c_str()); }, [](std::string& s, int x) { s = std::to_string(x) + std::string(30, ' '); }); break; }
    default: { arolla::ThreadLocal<NoCopy> tl; drive(tl, 9, [](const NoCopy& v) { return v.v; }, [](NoCopy& v, int x) { v.v = x; }); }
  }
}
