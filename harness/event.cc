// PermanentEvent under a virtual clock.
#include "h.h"
#include "absl/time/clock.h"
#include "absl/time/time.h"
#include "arolla/util/permanent_event.h"

extern "C" const char* const sim_harness_name = "event";
void sim_init() {}
namespace {
using arolla::PermanentEvent;
using arolla::PermanentEventPtr;
struct Notes {
  uint64_t first_call = ~0ull;    // sequence number at the first Notify() call
  uint64_t first_done = ~0ull;    // ... at the first completed Notify()
  uint64_t first_call_ns = ~0ull, first_done_ns = ~0ull;
};
}  // namespace
void sim_scenario() {
  auto ev = PermanentEvent::Make();
  h::Book<Notes> book;
  const int nn = h::range(0, 3), nw = h::range(1, 4);
  int payload = 0;  // plain, written before the only notifier notifies
  const bool pub = nn == 1;
  bool will_notify = nn > 0;
  sim_set_fault_spurious(h::coin() ? 100 : 0);
  {
    h::Threads t;
    for (int i = 0; i < nn; ++i) {
      const int sleep_ms = h::coin() ? 0 : h::range(1, 40);
      const int times = h::range(1, 3);
      t.go([&, sleep_ms, times, mine = ev]() mutable {
        if (sleep_ms) absl::SleepFor(absl::Milliseconds(sleep_ms));
        if (pub) payload = 42;
        for (int k = 0; k < times; ++k) {
          book.use([](Notes& n) { if (n.first_call == ~0ull) { n.first_call = sim_seq(); n.first_call_ns = sim_now_ns(); } });
          mine->Notify();
          book.use([](Notes& n) { if (n.first_done == ~0ull) { n.first_done = sim_seq(); n.first_done_ns = sim_now_ns(); } });
          SIM_CHECK(times > 0 && (k >= 0), "x", "x");
        }
        mine = nullptr;  // the event may outlive or not outlive its notifier
      });
    }
    for (int i = 0; i < nw; ++i) {
      const int kind = h::range(0, 3);
      const int delay_ms = h::coin() ? 0 : h::range(1, 30);
      const int dl_ms = h::range(0, 5) == 5 ? -5 : h::range(0, 50);
      t.go([&, kind, delay_ms, dl_ms, mine = ev] {
        if (delay_ms) absl::SleepFor(absl::Milliseconds(delay_ms));
        auto notified_before = [&] { return book.use([](Notes& n) { return n.first_done != ~0ull; }); };
        auto notify_called = [&] { return book.use([](Notes& n) { return n.first_call != ~0ull; }); };
        auto visible = [&] { if (pub) SIM_CHECK(payload == 42, "lost-effect", "waiter sees %d after the event", payload); };
        if (kind == 0 && will_notify) {
          mine->Wait();
          SIM_CHECK(notify_called(), "early-wakeup", "Wait returned before any Notify");
          SIM_CHECK(mine->HasBeenNotified(), "not-permanent", "HasBeenNotified false after Wait returned");
          visible();
          sim_probe("wait-returned");
        } else if (kind == 1) {
          const bool before = notified_before();
          const bool r = mine->HasBeenNotified();
          if (before) SIM_CHECK(r, "lost-notify", "Notify completed, HasBeenNotified is false");
          if (r) { SIM_CHECK(notify_called(), "early-wakeup", "notified without Notify"); visible(); sim_probe("has-been"); }
          for (int k = 0; k < 2; ++k) if (r) SIM_CHECK(mine->HasBeenNotified(), "not-permanent", "the flag went back");
        } else {
          const bool inf = kind == 3 && will_notify && dl_ms > 40;
          const absl::Time dl = inf ? absl::InfiniteFuture() : dl_ms < -4 ? absl::InfinitePast() : absl::Now() + absl::Milliseconds(dl_ms);
          const bool before = notified_before();
          const uint64_t t0 = sim_now_ns();
          const bool r = mine->WaitWithDeadline(dl);
          const uint64_t t1 = sim_now_ns();
          if (before) SIM_CHECK(r, "lost-notify", "Notify completed before the wait, which timed out");
          if (r) {
            SIM_CHECK(notify_called(), "early-wakeup", "wait succeeded before any Notify");
            SIM_CHECK(mine->HasBeenNotified(), "not-permanent", "HasBeenNotified false after a successful wait");
            visible();
            sim_probe("deadline-notified");
          } else {
            SIM_CHECK(!inf, "early-timeout", "an unbounded wait timed out");
            SIM_CHECK(dl_ms < 0 || t1 + 1000 >= t0 + dl_ms * 1000000ull, "early-timeout", "timed out %llu ns before the deadline",
                      (unsigned long long)(t0 + dl_ms * 1000000ull - t1));
            // Woken late although the event had long been set?
            const uint64_t done_ns = book.use([](Notes& n) { return n.first_done_ns; });
            SIM_CHECK(done_ns == ~0ull || dl_ms <= 0 || done_ns + 1000000 >= t0 + dl_ms * 1000000ull, "lost-notify",
                      "notified at %llu ns, wait until %llu ns timed out", (unsigned long long)done_ns, (unsigned long long)(t0 + dl_ms * 1000000ull));
            sim_probe("deadline-passed");
          }
        }
      });
    }
    if (h::coin()) ev = nullptr;  // the threads hold the last references
  }
}
