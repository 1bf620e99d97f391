// Linearizability of short histories against an executable model.
#ifndef VERIF_LIN_H_
#define VERIF_LIN_H_
#include <algorithm>
#include <functional>
#include <set>
#include <string>
#include <utility>
#include <vector>
#include "h.h"

namespace lin {
struct Op {
  int thread = 0;
  int kind = 0, a = 0, b = 0, c = 0;
  long res = 0;
  uint64_t inv = 0, ret = ~0ull;
};
using State = std::vector<long>;
// Applies op to the state; false if its result is impossible there.
using Model = std::function<bool(State&, const Op&)>;

inline bool search(const std::vector<Op>& o, uint64_t done, const State& s, const Model& m, std::set<std::pair<uint64_t, State>>& seen) {
  if (done == (1ull << o.size()) - 1) return true;
  if (!seen.insert({done, s}).second) return false;
  uint64_t min_ret = ~0ull;
  for (size_t i = 0; i < o.size(); ++i) if (!(done >> i & 1)) min_ret = std::min(min_ret, o[i].ret);
  for (size_t i = 0; i < o.size(); ++i) {
    if (done >> i & 1 || o[i].inv > min_ret) continue;
    State next = s;
    if (m(next, o[i]) && search(o, done | 1ull << i, next, m, seen)) return true;
  }
  return false;
}
inline bool linearizable(const std::vector<Op>& o, const State& init, const Model& m) {
  std::set<std::pair<uint64_t, State>> seen;
  return search(o, 0, init, m, seen);
}
using History = h::Book<std::vector<Op>>;
// Runs `f` as one operation of the history; f returns its result.
template <typename F>
void record(History& hist, Op op, F f) {
  op.thread = sim_tid();
  hist.use([&](std::vector<Op>&) { op.inv = sim_seq(); });
  op.res = f();
  hist.use([&](std::vector<Op>& v) { op.ret = sim_seq(); v.push_back(op); });
}
inline std::string show(const std::vector<Op>& v, const std::vector<std::string>& kinds) {
  std::vector<Op> o = v;
  std::sort(o.begin(), o.end(), [](const Op& x, const Op& y) { return x.inv < y.inv; });
  std::string s;
  for (auto& x : o)
    s += "t" + std::to_string(x.thread) + " [" + std::to_string(x.inv) + "," + std::to_string(x.ret) + "] " + kinds.at(x.kind) + "(" +
         std::to_string(x.a) + "," + std::to_string(x.b) + "," + std::to_string(x.c) + ")=" + std::to_string(x.res) + "; ";
  return s;
}
}  // namespace lin
#endif
