// Refcount / RefcountPtr: the object is destroyed exactly once, by whoever
// drops the last reference, after every other owner's accesses.
#include "h.h"
#include "arolla/util/refcount.h"
#include "arolla/util/refcount_ptr.h"

extern "C" const char* const sim_harness_name = "refcount";
void sim_init() {}
namespace {
using arolla::Refcount;
using arolla::RefcountPtr;

struct Ledger {
  int alive = 0, made = 0, destroyed = 0;
  std::vector<int> dtor_count;
};
h::Book<Ledger>* L;

// Every access to the payload is a plain access, so an access that is not
// ordered before the destruction is a reported race or use after free.
struct Obj : arolla::RefcountedBase {
  int id;
  int payload[2];
  RefcountPtr<Obj> next;
  explicit Obj(int id) : id(id) {
    payload[0] = id; payload[1] = -id;
    L->use([&](Ledger& l) { l.alive++; l.made++; l.dtor_count.resize(l.made > id ? l.made : id + 1); });
  }
  ~Obj() {
    SIM_CHECK(payload[0] == id, "destroyed-early", "object %d destroyed in state %d", id, payload[0]);
    payload[0] = 0x5a5a;
    int me = id;
    L->use([&](Ledger& l) {
      l.alive--; l.destroyed++;
      if (++l.dtor_count[me] > 1) sim_fail("destroyed-twice", "object %d destroyed twice", me);
    });
  }
  void touch() const {
    SIM_CHECK(payload[0] == id && payload[1] == -id, "stale-object", "object %d read as %d/%d", id, payload[0], payload[1]);
  }
};

// Raw counter used as documented: the decrement that returns false owns the
// destruction.
struct Raw {
  Refcount rc;
  int data = 7;
};
void raw_scenario() {
  sim_probe("raw-counter");
  const int n = h::range(2, 4);
  Raw* o = new Raw;
  h::Book<int> deaths(0);
  const int rounds = h::range(0, 2);
  std::vector<int> kind;
  for (int i = 0; i < n; ++i) kind.push_back(h::range(0, 2));
  for (int i = 1; i < n; ++i) o->rc.increment();
  {
    h::Threads t;
    for (int i = 0; i < n; ++i) t.go([&, i] {
      auto drop = [&](int k) {
        int seen = o->data;  // plain read while owning a reference
        SIM_CHECK(seen == 7, "stale-object", "payload %d", seen);
        bool more = k == 1 ? o->rc.skewed_decrement() : o->rc.decrement();
        if (!more) {
          deaths.use([](int& d) { ++d; });
          o->data = 0;  // plain write: must come after every owner's accesses
          delete o;
        }
        return more;
      };
      for (int r = 0; r < rounds; ++r) {
        o->rc.increment();
        if (!drop(kind[i])) sim_fail("destroyed-early", "a decrement reported zero while a reference was held");
      }
      if (drop(kind[i])) sim_probe(kind[i] == 1 ? "skewed-not-last" : "not-last"); else sim_probe(kind[i] == 1 ? "skewed-last" : "last");
    });
  }
  int d = deaths.use([](int& d) { return d; });
  SIM_CHECK(d == 1, "not-destroyed-once", "%d owners saw the last reference go", d);
}

void ptr_scenario() {
  sim_probe("refcount-ptr");
  const int n = h::range(1, 4);
  const int nobj = h::range(1, 4);
  h::Book<Ledger> ledger;
  L = &ledger;
  const bool chain = h::coin();
  {
    std::vector<RefcountPtr<Obj>> objs;
    for (int i = 0; i < nobj; ++i) {
      objs.push_back(h::coin() ? RefcountPtr<Obj>::Make(i) : RefcountPtr<Obj>::Own(std::make_unique<Obj>(i)));
      if (chain && i) objs[i]->next = objs[i - 1];
    }
    struct Op { int kind, a, b; };
    std::vector<std::vector<Op>> prog(n);
    for (auto& p : prog) {
      int m = h::range(1, 6);
      for (int i = 0; i < m; ++i) p.push_back({h::range(0, 9), h::range(0, nobj - 1), h::range(0, nobj - 1)});
    }
    h::Threads t;
    for (int i = 0; i < n; ++i) {
      // Every thread owns its own references.
      t.go([&ledger, chain, nobj, mine = objs, p = prog[i]]() mutable {
        for (const Op& op : p) {
          RefcountPtr<Obj>& a = mine[op.a];
          RefcountPtr<Obj>& b = mine[op.b];
          switch (op.kind) {
            case 0: a = b; break;                                  // copy assignment (maybe to itself)
            case 1: a = std::move(b); break;                       // swap-like move
            case 2: a.reset(); break;
            case 3: { RefcountPtr<Obj> c(a); if (c != nullptr) c->touch(); a = c; break; }
            case 4: { RefcountPtr<Obj> c(std::move(a)); SIM_CHECK(a == nullptr, "move", "moved-from pointer not null"); if (c != nullptr) c->touch(); b = std::move(c); break; }
            case 5: { auto c = RefcountPtr<Obj>::NewRef(a.get()); SIM_CHECK(c == a, "newref", "NewRef lost the object"); a.reset(); if (c != nullptr) c->touch(); a = c; break; }
            case 6: swap(a, b); break;
            case 7: if (chain && a != nullptr) { a = a->next; sim_probe("walk-chain"); } break;  // the old head owns the source
            case 8: a = nullptr; break;
            case 9: if (chain && a != nullptr) { RefcountPtr<Obj> c = a; a = std::move(c); SIM_CHECK(a != nullptr, "move", "self content lost"); } break;
          }
          for (auto& q : mine) if (q != nullptr) q->touch();
        }
        mine.clear();
      });
    }
    if (h::coin()) objs.clear();
    t.join();
    for (auto& q : objs) if (q != nullptr) q->touch();
    bool held = !objs.empty();
    int alive = ledger.use([](Ledger& l) { return l.alive; });
    if (held) SIM_CHECK(alive == nobj, "destroyed-early", "%d of %d owned objects are alive", alive, nobj);
    else SIM_CHECK(alive == 0, "leak", "%d objects outlive their last reference", alive);
  }
  int alive = ledger.use([](Ledger& l) { return l.alive; });
  SIM_CHECK(alive == 0, "leak", "%d objects outlive their last reference", alive);
}

// One published object is shared by threads that copy from a common const
// pointer (concurrent const access must be safe).
void shared_const_scenario() {
  sim_probe("shared-const");
  h::Book<Ledger> ledger;
  L = &ledger;
  const int n = h::range(2, 4), rounds = h::range(1, 4);
  {
    const RefcountPtr<Obj> p = RefcountPtr<Obj>::Make(0);
    h::Threads t;
    for (int i = 0; i < n; ++i) t.go([&p, rounds] {
      RefcountPtr<Obj> keep;
      for (int r = 0; r < rounds; ++r) { RefcountPtr<Obj> c = p; c->touch(); keep = std::move(c); }
    });
  }
  int alive = ledger.use([](Ledger& l) { return l.alive; });
  SIM_CHECK(alive == 0, "leak", "%d objects outlive their last reference", alive);
}
}  // namespace
void sim_scenario() {
  switch (h::range(0, 2)) {
    case 0: raw_scenario(); break;
    case 1: ptr_scenario(); break;
    default: shared_const_scenario();
  }
}
