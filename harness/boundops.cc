// The loop that runs bound operators: jumps, failures and cancellation.
#include <atomic>
#include "h.h"
#include "absl/status/status.h"
#include "arolla/memory/frame.h"
#include "arolla/memory/memory_allocation.h"
#include "arolla/qexpr/bound_operators.h"
#include "arolla/qexpr/eval_context.h"
#include "arolla/qexpr/operators.h"
#include "arolla/util/cancellation.h"

using namespace arolla;
extern "C" const char* const sim_harness_name = "boundops";
void sim_init() {}
namespace {
// One operator: after `again` jumps by `jump` it goes on (0: never jumps;
// -1: jumps for ever); fails the `fail`-th time it runs (0: never).
struct Op { int jump = 0; int again = 0; int fail = 0; int work = 0; };
struct Run {
  std::vector<int> trace;  // operators started
  bool asked = false, done = false;
  int after = 0;  // operators started after the cancellation had returned
};
// Reference: the operators a run starts, up to `limit` of them.
struct Ref { std::vector<int> trace; bool error = false, endless = false; };
Ref reference(const std::vector<Op>& p, size_t limit) {
  Ref r;
  std::vector<int> times(p.size());
  for (int ip = 0; ip < static_cast<int>(p.size()); ++ip) {
    if (r.trace.size() == limit) { r.endless = true; return r; }
    r.trace.push_back(ip);
    const Op& o = p[ip];
    int k = ++times[ip];
    if (o.fail == k) { r.error = true; return r; }
    if (o.jump && (o.again < 0 || k <= o.again)) ip += o.jump;
  }
  return r;
}
}  // namespace

void sim_scenario() {
  const int n = h::range(1, 8);
  const int nctx = h::range(1, 2);
  std::vector<Op> prog(n);
  for (int i = 0; i < n; ++i) {
    Op& o = prog[i];
    o.work = h::range(0, 3);
    if (h::one_in(3)) {
      // Land inside the program or right behind it.
      int to = h::range(0, n - 1);
      if (i == n - 1 || to <= i) to = h::range(0, i);
      o.jump = to - 1 - i;
      o.again = o.jump < 0 ? h::range(0, 3) : 1000;
      if (o.jump < 0 && h::one_in(4)) o.again = -1;
    }
    if (h::one_in(10)) o.fail = h::range(1, 2);
  }
  const Ref ref = reference(prog, 200);
  std::vector<CancellationContextPtr> ctx;
  for (int i = 0; i < nctx; ++i) ctx.push_back(CancellationContext::Make());
  std::vector<Run> r0(nctx);
  h::Book<std::vector<Run>> book(r0);
  FrameLayout::Builder lb;
  auto slot = lb.AddSlot<int64_t>();
  FrameLayout layout = std::move(lb).Build();
  const bool endless = ref.endless;
  h::Threads ts;
  for (int c = 0; c < nctx; ++c) {
    const bool with = endless || !h::one_in(4);
    const bool cancel = with && (endless || !h::one_in(3));
    const bool inside = cancel && h::one_in(3);  // an operator cancels
    const int at = h::range(0, 6);
    if (cancel && !inside) {
      const int wait = h::range(0, 60);
      ts.go([&, c, wait] {
        h::dawdle(wait);
        book.use([&](auto& v) { v[c].asked = true; });
        ctx[c]->Cancel(absl::DeadlineExceededError("stop-" + std::to_string(c)));
        book.use([&](auto& v) { v[c].done = true; });
      });
    }
    ts.go([&, c, with, cancel, inside, at] {
      std::vector<std::unique_ptr<BoundOperator>> ops;
      std::vector<int> times(n);
      for (int i = 0; i < n; ++i) {
        ops.push_back(MakeBoundOperator([&, c, i](EvaluationContext* e, FramePtr f) {
          bool now = false;
          book.use([&](auto& v) {
            auto& r = v[c];
            if (r.done) ++r.after;
            now = inside && static_cast<int>(r.trace.size()) == at;
            r.trace.push_back(i);
          });
          f.Set(slot, f.Get(slot) + 1);
          h::dawdle(prog[i].work);
          if (now) {
            book.use([&](auto& v) { v[c].asked = true; });
            ctx[c]->Cancel(absl::DeadlineExceededError("stop-" + std::to_string(c)));
            book.use([&](auto& v) { v[c].done = true; });
          }
          int k = ++times[i];
          if (prog[i].fail == k) { e->set_status(absl::OutOfRangeError("bad")); return; }
          if (prog[i].jump && (prog[i].again < 0 || k <= prog[i].again)) e->set_requested_jump(prog[i].jump);
        }));
      }
      MemoryAllocation alloc(&layout);
      alloc.frame().Set(slot, 0);
      EvaluationContext e;
      int64_t ip;
      if (inside && endless && at >= 200) return;
      {
        std::optional<CancellationContext::ScopeGuard> g;
        if (with) g.emplace(ctx[c]);
        ip = RunBoundOperators(ops, &e, alloc.frame());
      }
      const Run r = book.use([&](auto& v) { return v[c]; });
      const size_t started = r.trace.size();
      SIM_CHECK(alloc.frame().Get(slot) == static_cast<int64_t>(started), "wrong-count", "%zu operators started, %lld ran", started, (long long)alloc.frame().Get(slot));
      SIM_CHECK(r.after <= 1, "runs-on", "%d operators started after the cancellation had returned", r.after);
      if (!(inside && endless)) for (size_t k = 0; k < started && k < ref.trace.size(); ++k) SIM_CHECK(r.trace[k] == ref.trace[k], "wrong-order", "operator %zu of the run is %d, expected %d", k, r.trace[k], ref.trace[k]);
      if (e.status().ok()) {
        SIM_CHECK(!endless && !ref.error && r.trace == ref.trace, "wrong-run", "finished after %zu operators, expected %zu (error=%d)", started, ref.trace.size(), ref.error);
        SIM_CHECK(ip == n - 1, "wrong-position", "finished at %lld of %d", (long long)ip, n);
        SIM_CHECK(!e.signal_received() && e.requested_jump() == 0, "signal-left", "a signal is left in the context");
        sim_probe("finished");
      } else if (e.status().code() == absl::StatusCode::kOutOfRange) {
        SIM_CHECK(ref.error && r.trace == ref.trace, "wrong-run", "failed after %zu operators, expected %zu (error=%d)", started, ref.trace.size(), ref.error);
        SIM_CHECK(ip == ref.trace.back(), "wrong-position", "failed at %lld, expected %d", (long long)ip, ref.trace.back());
        sim_probe("failed");
      } else {
        SIM_CHECK(cancel && r.asked, "cancelled-unasked", "%s although nobody cancelled", e.status().ToString().c_str());
        SIM_CHECK(e.status() == absl::DeadlineExceededError("stop-" + std::to_string(c)), "wrong-cancellation", "%s", e.status().ToString().c_str());
        SIM_CHECK(endless || started <= ref.trace.size(), "wrong-run", "%zu operators, expected at most %zu", started, ref.trace.size());
        if (inside) SIM_CHECK(static_cast<int>(started) == at + 1, "runs-on", "%zu operators ran although operator %d cancelled", started, at);
        sim_probe("cancelled");
        if (endless) sim_probe("endless-cancelled");
        if (inside) sim_probe("cancelled-by-operator");
      }
    });
  }
}
