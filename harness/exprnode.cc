// Destruction of (shared, deep) expressions by several threads.
#include <atomic>
#include <set>
#include "h.h"
#include "arolla/expr/basic_expr_operator.h"
#include "arolla/expr/expr.h"
#include "arolla/expr/expr_attributes.h"
#include "arolla/expr/expr_node.h"
#include "arolla/expr/expr_operator.h"
#include "arolla/expr/expr_operator_signature.h"
#include "arolla/util/fingerprint.h"

using namespace arolla;
using namespace arolla::expr;
extern "C" const char* const sim_harness_name = "exprnode";
namespace {
struct World {
  std::vector<std::vector<int>> deps;  // of node i
  std::vector<std::vector<int>> body;  // expressions owned by the operator of node i
  std::vector<int> dead;
  std::set<int> watched;
};
h::Book<World>* book;
thread_local char* stack_base;
size_t limit;
size_t deepest;  // oracle only
// The operator of node i: it dies with the node.  It may own expressions, as
// lambda operators do.
class Op final : public ExprOperatorWithFixedSignature {
 public:
  Op(int i, std::vector<ExprNodePtr> body)
      : ExprOperatorWithFixedSignature("op", ExprOperatorSignature{}, "", FingerprintHasher("Op").Combine(i).Finish()), i(i), body(std::move(body)) {}
  absl::StatusOr<ExprAttributes> InferAttributes(absl::Span<const ExprAttributes>) const final { return ExprAttributes{}; }
  ~Op() override {
    char here;
    size_t used = stack_base > &here ? stack_base - &here : 0;
    book->use([&](World& w) {
      deepest = std::max(deepest, used);
      int n = ++w.dead[i];
      SIM_CHECK(n == 1, "released-twice", "node %d was released %d times", i, n);
    });
    SIM_CHECK(used < limit, "stack-use", "releasing the expression used %zu bytes of stack", used);
  }
  int i;
  std::vector<ExprNodePtr> body;
};
}  // namespace
void sim_init() {}
void sim_scenario() {
  World w0;
  h::Book<World> b(w0);
  book = &b;
  deepest = 0;
  limit = 192 << 10;
  const int shape = h::range(0, 3);
  const int n = shape == 0 ? h::range(1, 40) : h::range(50, 1500);
  const int nested = h::one_in(3) ? h::range(1, 5) : 0;  // operators owning expressions
  std::vector<ExprNodePtr> nodes;
  std::vector<std::vector<int>> deps(n), body(n);
  int bodies = 0;
  for (int i = 0; i < n; ++i) {
    std::vector<int>& d = deps[i];
    if (i > 0) {
      switch (shape) {
        case 0: { int k = h::range(0, 3); for (int j = 0; j < k; ++j) d.push_back(h::range(0, i - 1)); break; }
        case 1: d.push_back(i - 1); break;                                            // chain
        case 2: d.push_back(i - 1); d.push_back(i - 1 - (i > 1 ? i * 7 % std::min(i - 1, 40) : 0)); break;  // ladder
        default: if (i % 2) d.push_back(i > 1 ? i - 2 : 0); else { d.push_back(i - 1); if (i > 3) d.push_back(i - 2); }  // comb
      }
      if (bodies < nested && h::one_in(8)) { body[i].push_back(h::range(0, i - 1)); ++bodies; }
    }
  }
  b.use([&](World& w) { w.deps = deps; w.body = body; w.dead.assign(n, 0); });
  for (int i = 0; i < n; ++i) {
    std::vector<ExprNodePtr> d, o;
    for (int j : deps[i]) d.push_back(nodes[j]);
    for (int j : body[i]) o.push_back(nodes[j]);
    ExprOperatorPtr op = std::make_shared<Op>(i, std::move(o));
    nodes.push_back(ExprNode::UnsafeMakeOperatorNode(std::move(op), std::move(d), ExprAttributes{}));
  }
  // Hand references out to threads.
  const int nt = h::range(1, 3);
  struct Held { int i; ExprNodePtr p; };
  std::vector<std::vector<Held>> own(nt);
  for (auto& o : own) {
    int k = h::range(1, 4);
    for (int j = 0; j < k; ++j) { int i = h::one_in(2) ? n - 1 : h::range(0, n - 1); o.push_back({i, nodes[i]}); }
  }
  // Reference counts as the oracle sees them: roots held right now.
  nodes.clear();
  {
    h::Threads ts;
    for (int t = 0; t < nt; ++t) {
      ts.go([&, t] {
        char base;
        stack_base = &base;
        auto& o = own[t];
        while (!o.empty()) {
          size_t k = h::range(0, static_cast<int>(o.size()) - 1);
          // Everything reachable from a held reference is alive.
          b.use([&](World& w) {
            std::vector<int> todo;
            for (auto& x : o) todo.push_back(x.i);
            std::set<int> seen;
            while (!todo.empty() && seen.size() < 200) {
              int i = todo.back();
              todo.pop_back();
              if (!seen.insert(i).second) continue;
              SIM_CHECK(!w.dead[i], "released-early", "node %d was released while thread %d still holds an expression with it", i, t);
              for (int j : w.deps[i]) todo.push_back(j);
              for (int j : w.body[i]) todo.push_back(j);
            }
          });
          const int how = h::range(0, 3);
          if (how == 0 && o.size() > 1) {
            o[k] = o[(k + 1) % o.size()];  // copy over
            o.erase(o.begin() + (k + 1) % o.size());
          } else if (how == 1) {
            ExprNodePtr p = std::move(o[k].p);
            o.erase(o.begin() + k);
            if (p != nullptr) { sim_yield(); p = nullptr; }
          } else if (how == 2) {
            // Walk down, dropping the parent first.
            ExprNodePtr p = o[k].p;
            o.erase(o.begin() + k);
            int steps = h::range(0, 60);
            while (steps-- > 0 && !p->node_deps().empty()) p = p->node_deps()[0];
          } else {
            o.erase(o.begin() + k);
          }
        }
      });
    }
  }
  b.use([&](World& w) {
    for (int i = 0; i < n; ++i) SIM_CHECK(w.dead[i] == 1, "never-released", "node %d of %d was released %d times after the last reference was gone", i, n, w.dead[i]);
  });
  sim_probe("released");
  if (n > 500) sim_probe("deep");
  if (bodies) sim_probe("nested");
}
