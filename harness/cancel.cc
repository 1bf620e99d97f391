// CancellationContext: one decision, one status, every callback once.
#include <map>
#include <set>
#include "h.h"
#include "absl/status/status.h"
#include "arolla/util/cancellation.h"

extern "C" const char* const sim_harness_name = "cancel";
void sim_init() {}
namespace {
using arolla::CancellationContext;
using arolla::CancellationContextPtr;
using Ptr = CancellationContextPtr;

struct Cb {
  int runs = 0, captures = 0;
  uint64_t sub_inv = 0, sub_ret = ~0ull;   // Subscribe() call
  uint64_t drop_inv = ~0ull, drop_ret = ~0ull;  // handle destruction
  bool detached = false;
  uint64_t run_at = ~0ull;
};
struct Log {
  std::map<int, Cb> cb;
  std::map<std::string, int> proposed;     // messages passed to Cancel
  std::string winner;
  uint64_t first_cancel_inv = ~0ull;       // first Cancel call
  uint64_t decided_by = ~0ull;             // some Cancel returned
  int winners = 0;
};
h::Book<Log>* B;

// A resource a callback captures: copies are counted, so a leak shows.
struct Token {
  int id;
  bool live = true;
  explicit Token(int id) : id(id) { B->use([&](Log& l) { l.cb[id].captures++; }); }
  Token(Token&& o) : id(o.id), live(o.live) { o.live = false; }
  ~Token() { int me = id; if (live) B->use([&](Log& l) { l.cb[me].captures--; }); }
};

void see_status(const CancellationContext& c, const char* where) {
  absl::Status s = c.GetStatus();
  SIM_CHECK(!s.ok(), "status-missing", "%s: cancelled but GetStatus() is ok", where);
  std::string m(s.message());
  B->use([&](Log& l) {
    SIM_CHECK(l.proposed.count(m), "status-invented", "%s: status '%s' was never passed to Cancel", where, m.c_str());
    SIM_CHECK(s.code() == (absl::StatusCode)l.proposed[m], "status-code", "%s: code %d", where, (int)s.code());
    if (l.winner.empty()) l.winner = m;
    SIM_CHECK(l.winner == m, "status-changed", "%s: status '%s' after '%s'", where, m.c_str(), l.winner.c_str());
  });
}

void do_cancel(CancellationContext& c, int who, int k) {
  const std::string msg = "by-" + std::to_string(who) + "-" + std::to_string(k);
  const absl::StatusCode code = (who + k) % 2 ? absl::StatusCode::kCancelled : absl::StatusCode::kDeadlineExceeded;
  B->use([&](Log& l) { l.proposed[msg] = (int)code; if (l.first_cancel_inv == ~0ull) l.first_cancel_inv = sim_seq(); });
  c.Cancel(absl::Status(code, msg));
  SIM_CHECK(c.Cancelled(), "not-cancelled", "Cancelled() is false after Cancel() returned");
  see_status(c, "after Cancel");
  // (The winner has run every callback; a losing Cancel may return earlier.)
  B->use([&](Log& l) { if (l.decided_by == ~0ull) l.decided_by = sim_seq(); });
}

struct Shared {
  Ptr ctx;
  int ncb = 0;
};

CancellationContext::Subscription subscribe(CancellationContext& c, int id, int behaviour) {
  auto body = [id, behaviour, tok = Token(id), raw = &c]() mutable {
    sim_probe("callback");
    B->use([&](Log& l) {
      Cb& cb = l.cb[id];
      if (++cb.runs > 1) sim_fail("callback-twice", "callback %d ran twice", id);
      cb.run_at = sim_seq();
      SIM_CHECK(l.first_cancel_inv != ~0ull, "callback-early", "callback %d ran before any Cancel", id);
      SIM_CHECK(cb.drop_ret > l.first_cancel_inv, "callback-after-drop",
                "callback %d ran although its handle was gone before the first Cancel", id);
    });
    // The context is decided by now, and may be used from the callback.
    SIM_CHECK(raw->Cancelled(), "not-cancelled", "a callback runs on a context that is not cancelled");
    see_status(*raw, "in callback");
    if (behaviour == 1) {
      sim_probe("reentrant-subscribe");
      bool ran = false;
      auto s = raw->Subscribe([&ran] { ran = true; });
      SIM_CHECK(ran, "late-subscribe", "subscribing to a cancelled context did not run the callback");
    } else if (behaviour == 2) {
      sim_probe("reentrant-cancel");
      raw->Cancel(absl::CancelledError("again"));
      see_status(*raw, "after nested Cancel");
    } else if (behaviour == 3) {
      h::dawdle(3);
    }
  };
  B->use([&](Log& l) { l.cb[id].sub_inv = sim_seq(); });
  const bool already = c.Cancelled();
  auto s = c.Subscribe(std::move(body));
  B->use([&](Log& l) {
    Cb& cb = l.cb[id];
    cb.sub_ret = sim_seq();
    if (already) SIM_CHECK(cb.runs == 1, "late-subscribe", "subscribing to a cancelled context did not run callback %d", id);
  });
  return s;
}

void race_scenario() {
  h::Book<Log> book;
  B = &book;
  const int n = h::range(1, 4);
  int next_id = 0;
  {
    Ptr ctx = CancellationContext::Make();
    struct Op { int kind, a, id; };
    std::vector<std::vector<Op>> prog(n);
    for (auto& p : prog)
      for (int m = h::range(1, 5); m > 0; --m) {
        int kind = h::range(0, 8);
        p.push_back({kind, h::range(0, 3), kind >= 4 && kind <= 7 ? next_id++ : 0});
      }
    const bool final_cancel = h::coin();
    {
      h::Threads t;
      for (int i = 0; i < n; ++i) t.go([&, i, mine = ctx, p = prog[i]]() mutable {
        std::vector<std::pair<int, CancellationContext::Subscription>> held;
        auto drop = [&](size_t k) {
          int id = held[k].first;
          B->use([&](Log& l) { l.cb[id].drop_inv = sim_seq(); });
          { auto s = std::move(held[k].second); held.erase(held.begin() + k); }
          B->use([&](Log& l) { l.cb[id].drop_ret = sim_seq(); });
        };
        bool was_cancelled = false;
        int k = 0;
        for (const Op& op : p) {
          ++k;
          switch (op.kind) {
            case 0: do_cancel(*mine, i, k); break;
            case 1: {
              bool before = B->use([](Log& l) { return l.decided_by != ~0ull; });
              bool c = mine->Cancelled();
              if (was_cancelled || before) SIM_CHECK(c, "not-sticky", "Cancelled() went back to false");
              if (c) { B->use([](Log& l) { SIM_CHECK(l.first_cancel_inv != ~0ull, "cancelled-early", "Cancelled() without Cancel"); }); see_status(*mine, "after Cancelled"); }
              was_cancelled |= c;
              break;
            }
            case 2: {
              absl::Status s = mine->GetStatus();
              if (s.ok()) { SIM_CHECK(!was_cancelled, "status-missing", "GetStatus() ok after Cancelled()"); }
              else { see_status(*mine, "GetStatus"); was_cancelled = true; SIM_CHECK(mine->Cancelled(), "not-cancelled", "a status without Cancelled()"); }
              break;
            }
            case 3: {
              CancellationContext::ScopeGuard g(mine);
              bool c = arolla::Cancelled();
              absl::Status s = arolla::CheckCancellation();
              if (c || was_cancelled) { SIM_CHECK(!s.ok(), "status-missing", "CheckCancellation() ok after Cancelled()"); }
              if (!s.ok()) { see_status(*mine, "CheckCancellation"); was_cancelled = true; }
              auto cur = arolla::CurrentCancellationContext();
              SIM_CHECK(cur == mine, "wrong-context", "the current context is another one");
              break;
            }
            case 4: case 5: held.emplace_back(op.id, subscribe(*mine, op.id, op.a)); sim_probe("held"); break;
            case 6: { auto s = subscribe(*mine, op.id, op.a); B->use([&](Log& l) { l.cb[op.id].detached = true; }); std::move(s).Detach(); break; }
            case 7: held.emplace_back(op.id, subscribe(*mine, op.id, op.a)); h::dawdle(op.a); drop(held.size() - 1); sim_probe("dropped"); break;
            case 8:
              if (held.size() >= 2 && op.a) { std::swap(held[0], held[1]); auto s = std::move(held[0].second); held[0].second = std::move(s); sim_probe("moved"); }
              else if (!held.empty()) drop(0);
              break;
          }
        }
        if (h::coin()) mine = nullptr;  // subscriptions keep the context
        while (!held.empty()) drop(held.size() - 1);
      });
      if (final_cancel) { do_cancel(*ctx, 9, 9); }
    }
    // Quiet now.
    const bool c = ctx->Cancelled();
    book.use([&](Log& l) {
      SIM_CHECK(c == (l.first_cancel_inv != ~0ull), "not-cancelled", "final Cancelled() %d", c);
      for (auto& [id, cb] : l.cb) {
        if (!c) {
          SIM_CHECK(cb.runs == 0, "callback-early", "callback %d ran without cancellation", id);
          SIM_CHECK(cb.captures == (cb.detached ? 1 : 0), "callback-leak", "callback %d holds %d captures", id, cb.captures);
          continue;
        }
        sim_probe(cb.runs ? "ran" : "not-run");
        if (cb.detached || cb.drop_inv > l.decided_by) {
          // Alive when the context was cancelled (or subscribed later).
          if (!(cb.drop_inv <= l.decided_by))
            SIM_CHECK(cb.runs == 1, "callback-lost", "callback %d ran %d times on a cancelled context", id, cb.runs);
        }
        SIM_CHECK(cb.captures == 0, "callback-leak", "callback %d still holds %d captures after cancellation", id, cb.captures);
      }
    });
    if (c) sim_probe("cancelled");
  }
  book.use([&](Log& l) { for (auto& [id, cb] : l.cb) SIM_CHECK(cb.captures == 0, "callback-leak", "callback %d outlives its context", id); });
}

}  // namespace
void sim_scenario() { race_scenario(); }
