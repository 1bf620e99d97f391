// Compiled models called from several threads at once, with failing loaders,
// operators and listeners.
#include "model.h"
using namespace model;
extern "C" const char* const sim_harness_name = "eval";
void sim_init() {
  InitArolla();
  ops::Register();
}
namespace {
thread_local int injected = 0;
bool op_fault() { if (sim_fault("operator-failure", 120)) { injected = 1; return true; } return false; }
}  // namespace
void sim_scenario() {
  ops::on_op = nullptr;
  const Opts o = GenOpts();
  const int depth = h::range(0, 4);
  const bool checks = h::coin(), faults = h::coin();
  ops::Tree t = ops::Gen(depth, checks);
  if ((checks || faults) && h::coin()) { ops::Tree c; c.kind = ops::kCheck; c.sub = {t}; t = c; }
  const ops::Tree side = ops::Gen(h::range(0, 2), checks);
  const bool litfail = ops::LiteralFailure(t) || (o.side && ops::LiteralFailure(side));
  sim_probe(kPolicyNames[o.policy]);
  sim_note("%s tree=%s side=%s", Describe(o).c_str(), t.key().c_str(), side.key().c_str());
  const bool compile_everywhere = h::one_in(6);
  const int nt = h::range(1, 3);
  struct Call { In in; bool side; bool side_fail; };
  std::vector<std::vector<Call>> plan(nt);
  for (auto& p : plan) {
    int n = h::range(1, 4);
    for (int i = 0; i < n; ++i) {
      Call c;
      c.in.e = GenEnv();
      c.in.fail = faults && sim_fault("loader-failure", 150);
      c.side = o.side && h::coin();
      c.side_fail = c.side && faults && sim_fault("listener-failure", 150);
      p.push_back(c);
    }
  }
  ExprNodePtr expr = Expr(t, side, o);
  auto compile = [&]() -> std::optional<Model> {
    auto m = Compile(expr, o);
    if (m.ok()) return *std::move(m);
    if (litfail && m.status().code() == absl::StatusCode::kOutOfRange) { sim_probe("literal-failure"); return std::nullopt; }
    sim_fail("compile-failed", "%s: %s", Describe(o).c_str(), m.status().ToString().c_str());
  };
  std::optional<Model> m;
  if (!compile_everywhere) { m = compile(); if (!m) return; }
  h::Threads ts;
  for (int i = 0; i < nt; ++i) {
    ts.go([&, i] {
      std::optional<Model> mine;
      if (compile_everywhere) { mine = compile(); if (!mine) return; sim_probe("compiled-concurrently"); }
      else if (m->per_thread || i % 2) mine = *m;  // a copy
      const Fn& f = mine ? mine->fn : m->fn;
      std::vector<std::unique_ptr<Kept>> kept;
      std::vector<std::vector<int64_t>> kept_values;
      keep = &kept;
      for (const Call& c : plan[i]) {
        Expected x = Expect(t, side, o, c.in.e);
        Side s;
        s.fail = c.side_fail;
        injected = 0;
        loader_failed = false;
        ops::fail_op = faults ? &op_fault : nullptr;
        Res r = f(c.in, c.side ? &s : nullptr);
        ops::fail_op = nullptr;
        if (r.st.ok()) {
          SIM_CHECK(!loader_failed && !injected && !c.side_fail, "failure-lost", "%s: a failing %s was reported as success", Describe(o).c_str(), loader_failed ? "loader" : injected ? "operator" : "listener");
          SIM_CHECK(!x.err, "error-lost", "%s: success where an operator must fail", Describe(o).c_str());
          SIM_CHECK(r.v == x.v, "wrong-result", "%s: got %s, expected %s", Describe(o).c_str(), Str(r.v).c_str(), Str(x.v).c_str());
          if (c.side) SIM_CHECK(s.set && s.s == x.side, "wrong-side-output", "%s: side output set=%d %lld, expected %lld", Describe(o).c_str(), s.set, (long long)s.s, (long long)x.side);
          if (c.side) sim_probe("side-output");
          kept_values.push_back(x.v);
          sim_probe("value");
        } else if (loader_failed) {
          SIM_CHECK(r.st.code() == absl::StatusCode::kUnavailable && Contains(r.st, "injected loader failure"), "wrong-error", "%s: loader failure became %s", Describe(o).c_str(), r.st.ToString().c_str());
          SIM_CHECK(!s.set, "side-output-on-error", "side output set although loading failed");
        } else if (injected && Contains(r.st, "injected operator failure")) {
          SIM_CHECK(r.st.code() == absl::StatusCode::kUnavailable && !s.set, "wrong-error", "%s: operator failure became %s", Describe(o).c_str(), r.st.ToString().c_str());
        } else if (c.side_fail && Contains(r.st, "injected listener failure")) {
          SIM_CHECK(!x.err && !injected, "wrong-error", "listener ran after a failed evaluation");
        } else {
          bool known = false;
          for (int64_t b : x.bads) known = known || Contains(r.st, "bad " + std::to_string(b));
          SIM_CHECK(x.err && known && r.st.code() == absl::StatusCode::kOutOfRange && !s.set, "wrong-error", "%s: unexpected %s", Describe(o).c_str(), r.st.ToString().c_str());
          sim_probe("error");
        }
      }
      keep = nullptr;
      for (size_t k = 0; k < kept.size(); ++k)
        SIM_CHECK(kept[k]->get() == kept_values[k], "result-changed", "%s: a returned value changed from %s to %s", Describe(o).c_str(), Str(kept_values[k]).c_str(), Str(kept[k]->get()).c_str());
    });
  }
  ts.join();
  m.reset();
}
