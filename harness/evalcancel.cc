// Cancelling evaluations (and compilations) of models shared by threads.
#include "model.h"
#include "arolla/util/cancellation.h"
using namespace model;
extern "C" const char* const sim_harness_name = "evalcancel";
void sim_init() {
  InitArolla();
  ops::Register();
}
namespace {
// What the harness knows about one cancellation context.
struct Ctx {
  CancellationContextPtr p;
  std::string msg;
  absl::StatusCode code = absl::StatusCode::kCancelled;
  uint64_t asked = 0;   // first Cancel() call began
  uint64_t done = 0;    // first Cancel() call returned
};
struct State { std::vector<Ctx> c; };
h::Book<State>* book;
thread_local int current = -1;  // context the thread evaluates under
thread_local int started_after;  // operators that began after the cancellation
thread_local int started;
void on_op(const char*) {
  ++started;
  if (current < 0) return;
  bool done = book->use([&](State& s) { return s.c[current].done != 0; });
  if (done) ++started_after;
}
struct Scope {  // pauses the bookkeeping in nested uses
  explicit Scope(int c) : saved(current) { current = c; started_after = 0; started = 0; }
  ~Scope() { current = saved; }
  int saved;
};
void Cancel(int i) {
  CancellationContextPtr p;
  std::string msg;
  absl::StatusCode code;
  book->use([&](State& s) { auto& c = s.c[i]; if (!c.asked) c.asked = sim_seq(); p = c.p; msg = c.msg; code = c.code; });
  p->Cancel(absl::Status(code, msg));
  book->use([&](State& s) { auto& c = s.c[i]; if (!c.done) c.done = sim_seq(); });
}
}  // namespace

void sim_scenario() {
  State st;
  const int nctx = h::range(1, 2);
  for (int i = 0; i < nctx; ++i) {
    Ctx c;
    c.p = CancellationContext::Make();
    c.msg = "stop-" + std::to_string(i);
    if (h::one_in(3)) c.code = absl::StatusCode::kFailedPrecondition;
    st.c.push_back(c);
  }
  h::Book<State> b(st);
  book = &b;
  const Opts o = GenOpts();
  const bool checks = h::one_in(4);
  ops::Tree t = ops::Gen(h::range(0, 4), checks);
  const ops::Tree side = ops::Gen(h::range(0, 2), false);
  // An endless evaluation: only a cancellation ends it.
  const bool endless = h::one_in(4);
  if (endless) {
    ops::Tree e, lit;
    e.kind = ops::kForever;
    lit.kind = ops::kX;
    e.sub = {lit, t};
    t = e;
  }
  const bool litfail = ops::LiteralFailure(t) || (o.side && ops::LiteralFailure(side));
  sim_note("%s tree=%s side=%s endless=%d", Describe(o).c_str(), t.key().c_str(), side.key().c_str(), endless);
  sim_probe(kPolicyNames[o.policy]);
  ExprNodePtr expr = Expr(t, side, o);
  absl::StatusOr<Model> m = absl::InternalError("none");
  // Compiling under a context that may be cancelled meanwhile.
  const int nt = h::range(1, 3);
  const bool compile_cancelled = h::one_in(5);
  h::Threads ts;
  if (compile_cancelled) {
    CancellationContextPtr c = CancellationContext::Make();
    bool asked = h::coin();
    const int wait = h::range(0, 60);
    std::thread killer([&] { if (asked) { h::dawdle(wait); c->Cancel(absl::CancelledError("compile-stop")); } });
    {
      CancellationContext::ScopeGuard g(c);
      m = Compile(expr, o);
    }
    killer.join();
    if (!m.ok()) {
      bool by_us = asked && Contains(m.status(), "compile-stop");
      SIM_CHECK(by_us || (litfail && m.status().code() == absl::StatusCode::kOutOfRange), "compile-failed", "%s: %s (cancelled=%d)", Describe(o).c_str(), m.status().ToString().c_str(), asked);
      if (by_us) sim_probe("compilation-cancelled");
    } else {
      sim_probe("compilation-survived");
    }
  }
  if (!m.ok()) {
    m = Compile(expr, o);
    if (!m.ok()) {
      SIM_CHECK(litfail && m.status().code() == absl::StatusCode::kOutOfRange, "compile-failed", "%s: %s", Describe(o).c_str(), m.status().ToString().c_str());
      return;
    }
  }
  struct Call { In in; bool side; int ctx; bool nested; };
  std::vector<std::vector<Call>> plan(nt);
  for (auto& p : plan) {
    int n = h::range(1, 3);
    for (int i = 0; i < n; ++i) {
      Call c;
      c.in.e = GenEnv();
      c.side = o.side && h::coin();
      c.ctx = endless ? h::range(0, nctx - 1) : h::range(-1, nctx - 1);
      c.nested = h::one_in(4);
      p.push_back(c);
    }
  }
  for (int i = 0; i < nctx; ++i) {
    if (!endless && h::one_in(3)) continue;  // never cancelled
    const int before = h::range(0, 400), times = h::range(1, 2);
    const bool now = h::one_in(5);
    if (now) { Cancel(i); continue; }
    ts.go([=] { h::dawdle(before / 4); sim_advance_ns(before); for (int k = 0; k < times; ++k) Cancel(i); });
  }
  for (int i = 0; i < nt; ++i) {
    ts.go([&, i] {
      std::optional<Model> mine;
      if (m->per_thread || i % 2) mine = *m;
      const Fn& f = mine ? mine->fn : m->fn;
      auto value = [&](const Call& c, const Res& r, const Side& s) {
        Expected x = Expect(t, side, o, c.in.e);
        if (r.st.ok()) {
          SIM_CHECK(!x.err, "error-lost", "%s: success where an operator must fail", Describe(o).c_str());
          SIM_CHECK(r.v == x.v, "wrong-result", "%s: got %s, expected %s", Describe(o).c_str(), Str(r.v).c_str(), Str(x.v).c_str());
          if (c.side) SIM_CHECK(s.set && s.s == x.side, "wrong-side-output", "%s: side output set=%d %lld, expected %lld", Describe(o).c_str(), s.set, (long long)s.s, (long long)x.side);
          return;
        }
        bool known = false;
        for (int64_t q : x.bads) known = known || Contains(r.st, "bad " + std::to_string(q));
        SIM_CHECK(x.err && known && !s.set, "wrong-error", "%s: unexpected %s", Describe(o).c_str(), r.st.ToString().c_str());
      };
      for (const Call& c : plan[i]) {
        Side s;
        Res r;
        ops::on_op = &on_op;
        if (c.ctx < 0) {
          r = f(c.in, c.side ? &s : nullptr);
          ops::on_op = nullptr;
          value(c, r, s);
          sim_probe("without-context");
          continue;
        }
        CancellationContextPtr p;
        bool was_done = b.use([&](State& q) { p = q.c[c.ctx].p; return q.c[c.ctx].done != 0; });
        {
          CancellationContext::ScopeGuard g(p);
          Scope sc(c.ctx);
          r = f(c.in, c.side ? &s : nullptr);
          ops::on_op = nullptr;
          SIM_CHECK(started_after <= 1, "runs-on", "%s: %d operators began after the cancellation had returned", Describe(o).c_str(), started_after);
          if (was_done) SIM_CHECK(started <= 1, "runs-on", "%s: %d operators ran in an evaluation cancelled before it began", Describe(o).c_str(), started);
          SIM_CHECK(!was_done || started == 0 || !r.st.ok(), "cancelled-succeeded", "%s: an evaluation cancelled before it began succeeded", Describe(o).c_str());
        }
        Ctx k = b.use([&](State& q) { return q.c[c.ctx]; });
        if (!r.st.ok() && Contains(r.st, "stop-")) {
          SIM_CHECK(k.asked, "cancelled-unasked", "%s: %s although nobody cancelled it", Describe(o).c_str(), r.st.ToString().c_str());
          SIM_CHECK(Contains(r.st, k.msg) && r.st.code() == k.code, "wrong-cancellation", "%s: got %s, cancelled with %s", Describe(o).c_str(), r.st.ToString().c_str(), k.msg.c_str());
          SIM_CHECK(!s.set, "side-output-on-error", "side output set by a cancelled evaluation");
          sim_probe("evaluation-cancelled");
          if (endless) sim_probe("endless-cancelled");
        } else {
          SIM_CHECK(!endless || !r.st.ok(), "endless-ended", "an endless evaluation returned a value");
          if (r.st.code() == absl::StatusCode::kCancelled) sim_fail("wrong-cancellation", "%s: %s", Describe(o).c_str(), r.st.ToString().c_str());
          value(c, r, s);
          sim_probe("evaluation-finished");
        }
        // The model stays usable outside of the cancelled scope.
        if (c.nested && !endless) {
          Side s2;
          Res r2 = f(c.in, c.side ? &s2 : nullptr);
          value(c, r2, s2);
          sim_probe("reused");
        }
      }
    });
  }
  ts.join();
}
