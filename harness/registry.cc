// ExprOperatorRegistry: concurrent registration, lookup, listing, revision ids.
#include <algorithm>
#include <map>
#include <set>
#include "h.h"
#include "arolla/expr/expr_attributes.h"
#include "arolla/expr/basic_expr_operator.h"
#include "arolla/expr/expr_operator.h"
#include "arolla/expr/expr_operator_signature.h"
#include "arolla/expr/registered_expr_operator.h"
#include "arolla/util/fingerprint.h"

using namespace arolla;
using namespace arolla::expr;
extern "C" const char* const sim_harness_name = "registry";
namespace {
class Op final : public ExprOperatorWithFixedSignature {
 public:
  explicit Op(int id)
      : ExprOperatorWithFixedSignature("op", ExprOperatorSignature{}, "doc", FingerprintHasher("Op").Combine(id).Finish()), id(id) {}
  absl::StatusOr<ExprAttributes> InferAttributes(absl::Span<const ExprAttributes>) const final { return ExprAttributes{}; }
  int id;
};
int id_of(const ExprOperatorPtr& p) { return p ? static_cast<const Op*>(p.get())->id : 0; }

// Operations on one name.
enum Kind { kRegister, kUnregister, kLookup, kImpl, kListed };
struct Rec { int thread; Kind kind; int name; int arg; int res; uint64_t inv, ret; };
const char* kKinds[] = {"register", "unregister", "lookup", "impl", "listed"};
const std::vector<std::string> kNames = {"a", "a.b", "a.b.c", "a.b.d", "a.e", "f", "f.b"};

// cur: id of the implementation, 0 if none.
bool lin(const std::vector<Rec>& o, uint64_t done, int cur, std::set<std::pair<uint64_t, int>>& seen) {
  if (done == (o.size() == 64 ? ~0ull : (1ull << o.size()) - 1)) return true;
  if (!seen.insert({done, cur}).second) return false;
  uint64_t min_ret = ~0ull;
  for (size_t i = 0; i < o.size(); ++i) if (!(done >> i & 1)) min_ret = std::min(min_ret, o[i].ret);
  for (size_t i = 0; i < o.size(); ++i) {
    if (done >> i & 1 || o[i].inv > min_ret) continue;
    int next = cur;
    switch (o[i].kind) {
      case kRegister: if (o[i].res != (cur == 0)) continue; if (o[i].res) next = o[i].arg; break;
      case kUnregister: next = 0; break;
      case kLookup: case kListed: if (o[i].res != (cur != 0)) continue; break;
      case kImpl: if (o[i].res != cur) continue; break;
    }
    if (lin(o, done | 1ull << i, next, seen)) return true;
  }
  return false;
}
struct Cache { std::string ns; int64_t rev; std::set<std::string> names; uint64_t seq; };
struct Log {
  std::vector<Rec> ops;
  std::vector<Cache> caches;
};
bool in_ns(const std::string& name, const std::string& ns) {
  return ns.empty() || name == ns || (name.size() > ns.size() && name.compare(0, ns.size(), ns) == 0 && name[ns.size()] == '.');
}
}  // namespace
void sim_init() {}
void sim_scenario() {
  h::Book<Log> log;
  const bool with_unregister = h::one_in(3);
  const int n_names = h::range(1, static_cast<int>(kNames.size()));
  const bool contended = h::coin();
  const std::vector<std::string> spaces = {"", "a", "a.b", "f"};
  {
    ExprOperatorRegistry reg;
    std::map<std::string, ExprOperatorRegistry::RevisionIdFn> revs;
    // Some revision readers exist before anything is registered, the others are created on demand.
    const bool early = h::coin();
    if (early) for (auto& s : spaces) revs.emplace(s, reg.AcquireRevisionIdFn(s));
    int next_id = 1;
    std::vector<int> order_hint;
    struct Step { int kind; int name; int id; int ns; };
    auto run = [&](int t, const std::vector<Step>& prog) {
      std::map<std::string, ExprOperatorRegistry::RevisionIdFn> mine;
      std::map<std::string, int64_t> last;
      std::map<std::string, Cache> cache;
      auto rev = [&](const std::string& ns) {
        auto it = mine.find(ns);
        if (it == mine.end()) it = mine.emplace(ns, early && revs.count(ns) ? revs.at(ns) : reg.AcquireRevisionIdFn(ns)).first;
        int64_t v = it->second();
        auto [l, fresh] = last.emplace(ns, v);
        SIM_CHECK(v >= l->second, "revision-went-back", "revision of '%s' went from %lld to %lld", ns.c_str(), (long long)l->second, (long long)v);
        l->second = v;
        return v;
      };
      auto all_spaces = [&](const std::string& name) {
        std::vector<std::string> out = {""};
        for (size_t i = 0; i < name.size(); ++i) if (name[i] == '.') out.push_back(name.substr(0, i));
        out.push_back(name);
        return out;
      };
      for (const Step& s : prog) {
        const std::string& name = kNames[s.name];
        Rec r{t, kLookup, s.name, s.id, 0, 0, 0};
        auto begin = [&] { log.use([&](Log&) { r.inv = sim_seq(); }); };
        auto end = [&] { log.use([&](Log& l) { r.ret = sim_seq(); l.ops.push_back(r); }); };
        switch (s.kind) {
          case 0: case 1: case 2: case 3: {
            r.kind = kRegister;
            std::map<std::string, int64_t> before;
            for (auto& ns : all_spaces(name)) before[ns] = rev(ns);
            auto impl = std::make_shared<Op>(s.id);
            begin();
            auto res = reg.Register(name, impl);
            r.res = res.ok();
            end();
            if (!res.ok()) {
              SIM_CHECK(res.status().code() == absl::StatusCode::kAlreadyExists, "bad-status", "register '%s': %s", name.c_str(), res.status().ToString().c_str());
              sim_probe("already-exists");
            } else {
              SIM_CHECK(*res != nullptr && (*res)->display_name() == name, "bad-operator", "register '%s' returned another operator", name.c_str());
              for (auto& ns : all_spaces(name))
                SIM_CHECK(rev(ns) > before[ns], "revision-not-changed", "registering '%s' left the revision of '%s' at %lld", name.c_str(), ns.c_str(), (long long)before[ns]);
              sim_probe("registered");
            }
            break;
          }
          case 4: {
            if (!with_unregister) break;
            r.kind = kUnregister;
            begin();
            reg.UnsafeUnregister(name);
            end();
            sim_probe("unregister");
            break;
          }
          case 5: {
            r.kind = kLookup;
            begin();
            auto op = reg.LookupOperatorOrNull(name);
            r.res = op != nullptr;
            end();
            if (op) {
              SIM_CHECK(op->display_name() == name, "bad-operator", "lookup of '%s' gave '%s'", name.c_str(), std::string(op->display_name()).c_str());
              r.kind = kImpl;
              begin();
              auto impl = op->GetImplementation();
              r.res = impl.ok() ? id_of(*impl) : 0;
              end();
              if (!with_unregister) SIM_CHECK(impl.ok(), "unusable-operator", "'%s' was found but has no implementation", name.c_str());
            }
            break;
          }
          case 6: {
            auto fn = reg.AcquireOperatorImplementationFn(name);
            r.kind = kImpl;
            begin();
            r.res = id_of(fn());
            end();
            break;
          }
          case 7: {
            r.kind = kListed;
            begin();
            auto l = reg.ListRegisteredOperators();
            log.use([&](Log& lg) {
              r.ret = sim_seq();
              std::set<std::string> st(l.begin(), l.end());
              if (st.size() != l.size()) sim_fail("listed-twice", "an operator is listed twice");
              for (int i = 0; i < n_names; ++i) { r.name = i; r.res = st.count(kNames[i]); lg.ops.push_back(r); }
            });
            sim_probe("listed");
            break;
          }
          case 8: case 9: {
            // A cache guarded by a revision id, as generic operators keep one.
            const std::string& ns = spaces[s.ns];
            auto it = cache.find(ns);
            uint64_t q = sim_seq();
            int64_t v = rev(ns);
            if (it == cache.end() || it->second.rev != v) {
              Cache c{ns, v, {}, 0};
              for (auto nm : reg.ListRegisteredOperators()) {
                if (!in_ns(std::string(nm), ns)) continue;
                auto op = reg.LookupOperatorOrNull(nm);
                if (!op) continue;
                auto impl = op->GetImplementation();
                if (!impl.ok()) continue;
                c.names.insert(std::string(nm));
              }
              sim_probe("cache-built");
              cache.insert_or_assign(ns, c);
              log.use([&](Log& l) { l.caches.push_back(c); });
            } else {
              sim_probe("cache-hit");
              // Everything whose registration had completed before the revision was read must be in the cache.
              if (!with_unregister) log.use([&](Log& l) {
                for (auto& o : l.ops) if (o.kind == kRegister && o.res && o.ret < q && in_ns(kNames[o.name], ns) && !it->second.names.count(kNames[o.name]))
                  sim_fail("stale-cache", "a cache of '%s' guarded by revision %lld misses '%s', registered before the revision was checked", ns.c_str(), (long long)v, kNames[o.name].c_str());
              });
            }
            break;
          }
        }
      }
      // What was cached at the end.
    };
    {
      h::Threads th;
      const int n = h::range(1, 4);
      for (int t = 0; t < n; ++t) {
        std::vector<Step> prog;
        const int m = h::range(1, contended ? 3 : 5);
        for (int k = 0; k < m; ++k) { Step s{h::range(0, 9), h::range(0, n_names - 1), 0, h::range(0, static_cast<int>(spaces.size()) - 1)}; if (s.kind < 4) s.id = next_id++; prog.push_back(s); }
        th.go([&, t, prog] { run(t, prog); });
      }
    }
    // Quiescent: everything agrees.
    auto l = reg.ListRegisteredOperators();
    std::set<std::string> listed(l.begin(), l.end());
    SIM_CHECK(listed.size() == l.size(), "listed-twice", "an operator is listed twice");
    for (auto& nm : kNames) {
      auto op = reg.LookupOperatorOrNull(nm);
      SIM_CHECK((op != nullptr) == (listed.count(nm) > 0), "list-disagrees", "'%s' is %slisted but %sfound", nm.c_str(), listed.count(nm) ? "" : "not ", op ? "" : "not ");
      if (op) SIM_CHECK(op->GetImplementation().ok(), "unusable-operator", "'%s' has no implementation", nm.c_str());
    }
    log.use([&](Log& lg) {
      // Registration order.
      if (!with_unregister) {
        std::map<std::string, const Rec*> by;
        for (auto& o : lg.ops) if (o.kind == kRegister && o.res) {
          if (by.count(kNames[o.name])) sim_fail("registered-twice", "two registrations of '%s' succeeded", kNames[o.name].c_str());
          by[kNames[o.name]] = &o;
        }
        for (size_t i = 0; i < l.size(); ++i) for (size_t j = i + 1; j < l.size(); ++j) {
          auto* a = by[std::string(l[i])]; auto* b = by[std::string(l[j])];
          if (a && b && b->ret < a->inv) sim_fail("list-order", "'%s' was registered before '%s' but is listed after it", std::string(l[j]).c_str(), std::string(l[i]).c_str());
        }
      }
      for (int nm = 0; nm < n_names; ++nm) {
        std::vector<Rec> o;
        for (auto& r : lg.ops) if (r.name == nm && o.size() < 60) o.push_back(r);
        std::set<std::pair<uint64_t, int>> seen;
        if (!lin(o, 0, 0, seen)) {
          std::string s;
          for (auto& r : o) { char b[96]; snprintf(b, sizeof b, " T%d:%s(%d)=%d@%llu-%llu", r.thread, kKinds[r.kind], r.arg, r.res, (unsigned long long)r.inv, (unsigned long long)r.ret); s += b; }
          sim_fail("not-linearizable", "no order explains the history of '%s':%s", kNames[nm].c_str(), s.c_str());
        }
      }
      for (auto& c : lg.caches) {
        if (reg.AcquireRevisionIdFn(c.ns)() != c.rev) continue;
        std::set<std::string> now;
        for (auto& nm : listed) if (in_ns(nm, c.ns)) now.insert(nm);
        if (now != c.names) {
          std::string a, b;
          for (auto& x : now) a += " " + x;
          for (auto& x : c.names) b += " " + x;
          sim_fail("stale-cache", "a cache of '%s' guarded by its revision stays stale for ever: cached [%s ], registered [%s ]", c.ns.c_str(), b.c_str(), a.c_str());
        }
      }
    });
  }
}
