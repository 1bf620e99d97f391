// CancellationContext: nested scopes; every thread sees its innermost context.
#include <map>
#include <set>
#include "h.h"
#include "absl/status/status.h"
#include "arolla/util/cancellation.h"

extern "C" const char* const sim_harness_name = "scopes";
void sim_init() {}
namespace {
using arolla::CancellationContext;
using arolla::CancellationContextPtr;
using Ptr = CancellationContextPtr;

struct Cb {
  int runs = 0, captures = 0;
  uint64_t sub_inv = 0, sub_ret = ~0ull;   // Subscribe() call
  uint64_t drop_inv = ~0ull, drop_ret = ~0ull;  // handle destruction
  bool detached = false;
  uint64_t run_at = ~0ull;
};
struct Log {
  std::map<int, Cb> cb;
  std::map<std::string, int> proposed;     // messages passed to Cancel
  std::string winner;
  uint64_t first_cancel_inv = ~0ull;       // first Cancel call
  uint64_t decided_by = ~0ull;             // some Cancel returned
  int winners = 0;
};
h::Book<Log>* B;

// A resource a callback captures: copies are counted, so a leak shows.
struct Token {
  int id;
  bool live = true;
  explicit Token(int id) : id(id) { B->use([&](Log& l) { l.cb[id].captures++; }); }
  Token(Token&& o) : id(o.id), live(o.live) { o.live = false; }
  ~Token() { int me = id; if (live) B->use([&](Log& l) { l.cb[me].captures--; }); }
};

void see_status(const CancellationContext& c, const char* where) {
  absl::Status s = c.GetStatus();
  SIM_CHECK(!s.ok(), "status-missing", "%s: cancelled but GetStatus() is ok", where);
  std::string m(s.message());
  B->use([&](Log& l) {
    SIM_CHECK(l.proposed.count(m), "status-invented", "%s: status '%s' was never passed to Cancel", where, m.c_str());
    SIM_CHECK(s.code() == (absl::StatusCode)l.proposed[m], "status-code", "%s: code %d", where, (int)s.code());
    if (l.winner.empty()) l.winner = m;
    SIM_CHECK(l.winner == m, "status-changed", "%s: status '%s' after '%s'", where, m.c_str(), l.winner.c_str());
  });
}

void do_cancel(CancellationContext& c, int who, int k) {
  const std::string msg = "by-" + std::to_string(who) + "-" + std::to_string(k);
  const absl::StatusCode code = (who + k) % 2 ? absl::StatusCode::kCancelled : absl::StatusCode::kDeadlineExceeded;
  B->use([&](Log& l) { l.proposed[msg] = (int)code; if (l.first_cancel_inv == ~0ull) l.first_cancel_inv = sim_seq(); });
  c.Cancel(absl::Status(code, msg));
  SIM_CHECK(c.Cancelled(), "not-cancelled", "Cancelled() is false after Cancel() returned");
  see_status(c, "after Cancel");
  // (The winner has run every callback; a losing Cancel may return earlier.)
  B->use([&](Log& l) { if (l.decided_by == ~0ull) l.decided_by = sim_seq(); });
}

// Nested scopes on several threads: every thread sees its innermost context.
void check_current(const std::vector<CancellationContext*>& stack) {
  CancellationContext* want = stack.empty() ? nullptr : stack.back();
  auto* cur = CancellationContext::ScopeGuard::current_cancellation_context();
  SIM_CHECK(cur == want, "wrong-context", "innermost context differs (depth %d)", (int)stack.size());
  bool c = arolla::Cancelled();
  absl::Status s = arolla::CheckCancellation();
  if (want == nullptr) { SIM_CHECK(!c && s.ok(), "wrong-context", "cancelled without a context"); return; }
  if (c) SIM_CHECK(!s.ok(), "status-missing", "Cancelled() and then CheckCancellation() ok");
  if (!s.ok()) see_status(*want, "scope");
}
void nest(const std::vector<Ptr>& ctx, std::vector<CancellationContext*>& stack, int depth, int who) {
  check_current(stack);
  if (depth == 0) return;
  const int reps = h::range(1, 2);
  for (int r = 0; r < reps; ++r) {
    const int k = h::range(0, (int)ctx.size() + 1);
    Ptr p;
    if (k < (int)ctx.size()) p = ctx[k];
    if (k == (int)ctx.size() + 1) {
      CancellationContext::ScopeGuard own;  // a fresh context of its own
      SIM_CHECK(own.cancellation_context() != nullptr && !arolla::Cancelled(), "wrong-context", "a fresh scope starts cancelled");
      stack.push_back(own.cancellation_context());
      if (!arolla::Cancelled()) SIM_CHECK(arolla::CheckCancellation().ok(), "wrong-context", "a fresh scope starts cancelled");
      stack.pop_back();
      sim_probe("fresh-scope");
    } else {
      CancellationContext::ScopeGuard g(p);
      SIM_CHECK(g.cancellation_context() == p.get(), "wrong-context", "guard holds another context");
      stack.push_back(p.get());
      p = nullptr;  // the guard owns a reference
      if (h::one_in(4) && stack.back()) { do_cancel(*stack.back(), who, depth * 10 + r); SIM_CHECK(arolla::Cancelled(), "not-cancelled", "the scope does not see its own cancellation"); sim_probe("cancel-in-scope"); }
      nest(ctx, stack, depth - 1, who);
      check_current(stack);
      stack.pop_back();
    }
    check_current(stack);
  }
}
void scope_scenario() {
  h::Book<Log> book;
  B = &book;
  sim_probe("scopes");
  // One context per log, so that a status identifies its context.
  std::vector<Ptr> ctx;
  ctx.push_back(CancellationContext::Make());
  const int n = h::range(1, 3);
  std::vector<int> depth;
  for (int i = 0; i < n; ++i) depth.push_back(h::range(1, 3));
  h::Threads t;
  const bool hand = h::coin();
  for (int i = 0; i < n; ++i) t.go([&ctx, i, d = depth[i], hand] {
    std::vector<CancellationContext*> stack;
    nest(ctx, stack, d, i);
    if (hand) {
      // A scope handed to a task on another thread.
      CancellationContext::ScopeGuard g(ctx[0]);
      h::Threads u;
      u.go([c = arolla::CurrentCancellationContext(), i] {
        SIM_CHECK(CancellationContext::ScopeGuard::current_cancellation_context() == nullptr, "wrong-context", "a new thread inherits a scope");
        SIM_CHECK(!arolla::Cancelled() && arolla::CheckCancellation().ok(), "wrong-context", "a new thread starts cancelled");
        CancellationContext::ScopeGuard g2(c);
        if (!arolla::CheckCancellation().ok()) see_status(*c, "task");
        else { do_cancel(*c, 50 + i, 0); }
      });
      u.join();
      SIM_CHECK(arolla::Cancelled(), "not-cancelled", "the parent does not see its task's cancellation");
      see_status(*ctx[0], "parent");
      sim_probe("handed-over");
    }
  });
}
}  // namespace
void sim_scenario() { scope_scenario(); }
