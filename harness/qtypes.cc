// QType identity: one object per type, however many threads ask first.
#include <map>
#include <set>
#include "h.h"
#include "arolla/array/array.h"
#include "arolla/array/qtype/types.h"
#include "arolla/dense_array/dense_array.h"
#include "arolla/dense_array/qtype/types.h"
#include "arolla/derived_qtype/labeled_qtype.h"
#include "arolla/qtype/base_types.h"
#include "arolla/qtype/dict/dict_types.h"
#include "arolla/qtype/optional_qtype.h"
#include "arolla/qtype/qtype.h"
#include "arolla/qtype/qtype_traits.h"
#include "arolla/qtype/slice_qtype.h"
#include "arolla/qtype/tuple_qtype.h"
#include "arolla/qtype/typed_value.h"
#include "arolla/qtype/unspecified_qtype.h"
#include "arolla/qtype/weak_qtype.h"
#include "arolla/sequence/sequence.h"
#include "arolla/sequence/sequence_qtype.h"
#include "arolla/util/bytes.h"
#include "arolla/util/class_info.h"
#include "arolla/util/text.h"
#include "arolla/util/unit.h"

using namespace arolla;
extern "C" const char* const sim_harness_name = "qtypes";
void sim_init() {
  // What InitArolla() registers in production.
  GetKeyToRowDictQType<int32_t>(); GetKeyToRowDictQType<Text>(); GetKeyToRowDictQType<int64_t>();
  GetDenseArrayQType<int32_t>(); GetDenseArrayQType<float>(); GetDenseArrayQType<Bytes>();
}
namespace {
// A type expression, independent of arolla: equal expressions denote equal types.
struct T {
  int kind = 0;  // see Make()
  int leaf = 0;
  std::string label;
  std::vector<T> sub;
};
std::string show(const T& t) {
  // A label names the type underneath a derived type (label, named tuple, slice).
  if (t.kind == 6) {
    T v = t.sub[0];
    while (v.kind == 6) { T w = v.sub[0]; v = w; }
    if (v.kind == 2 || v.kind == 3) { v.kind = 1; v.leaf = 0; }
    std::string s = "6.0'" + t.label + "'(" + show(v) + ",)";
    return s;
  }
  std::string s = std::to_string(t.kind) + "." + std::to_string(t.leaf) + "'" + t.label + "'(";
  for (auto& x : t.sub) s += show(x) + ",";
  return s + ")";
}
constexpr int kLeaves = 10;
QTypePtr leaf(int i) {
  switch (i) {
    case 0: return GetQType<int32_t>();
    case 1: return GetQType<float>();
    case 2: return GetQType<Text>();
    case 3: return GetOptionalQType<int64_t>();
    case 4: return GetDenseArrayQType<int32_t>();
    case 5: return GetArrayQType<float>();
    case 6: return GetDenseArrayQType<Unit>();
    case 7: return GetWeakFloatQType();
    case 8: return GetUnspecifiedQType();
    default: return GetOptionalWeakFloatQType();
  }
}
QTypePtr key_leaf(int i) { return i == 0 ? GetQType<int32_t>() : i == 1 ? GetQType<Text>() : GetQType<int64_t>(); }
QTypePtr value_leaf(int i) { return i == 0 ? GetQType<int32_t>() : i == 1 ? GetQType<float>() : GetQType<Bytes>(); }
const char* kLabels[] = {"a", "b.c", "x y"};

T gen(int depth, int nleaves) {
  T t;
  t.kind = depth <= 0 ? 0 : h::range(0, 6);
  switch (t.kind) {
    case 0: t.leaf = h::range(0, nleaves - 1); break;
    case 1: { int n = h::range(0, 2); for (int i = 0; i < n; ++i) t.sub.push_back(gen(depth - 1, nleaves)); break; }
    case 2: { int n = h::range(0, 2); t.leaf = n ? h::range(0, 1) : 0; for (int i = 0; i < n; ++i) t.sub.push_back(gen(depth - 1, nleaves)); break; }
    case 3: for (int i = 0; i < 3; ++i) t.sub.push_back(gen(depth - 2, nleaves)); break;
    case 4: t.sub.push_back(gen(depth - 1, nleaves)); break;
    case 5: t.leaf = h::range(0, 8); break;
    case 6: t.label = kLabels[h::range(0, 2)]; t.sub.push_back(gen(depth - 1, nleaves)); break;
  }
  return t;
}
struct Seen {
  std::map<std::string, QTypePtr> by_desc;
  std::map<QTypePtr, std::string> by_ptr;
  std::map<std::string, Fingerprint> fp;
};
h::Book<Seen>* seen;
std::string fieldname(int variant, int i) { return std::string(1, static_cast<char>('a' + i + variant)); }

QTypePtr build(const T& t) {
  std::vector<QTypePtr> sub;
  for (auto& x : t.sub) sub.push_back(build(x));
  QTypePtr q = nullptr;
  std::string desc = show(t);
  switch (t.kind) {
    case 0: q = leaf(t.leaf); break;
    case 1:
      q = MakeTupleQType(sub);
      SIM_CHECK(IsTupleQType(q), "wrong-type", "tuple of %s is not a tuple", desc.c_str());
      break;
    case 2: {
      std::vector<std::string> names;
      for (size_t i = 0; i < sub.size(); ++i) names.push_back(fieldname(t.leaf, i));
      auto r = MakeNamedTupleQType(names, MakeTupleQType(sub));
      SIM_CHECK(r.ok(), "failed", "namedtuple: %s", r.status().ToString().c_str());
      q = *r;
      SIM_CHECK(IsNamedTupleQType(q), "wrong-type", "%s is not a namedtuple", desc.c_str());
      auto got = GetFieldNames(q);
      SIM_CHECK(std::vector<std::string>(got.begin(), got.end()) == names, "wrong-type", "field names of %s", desc.c_str());
      for (size_t i = 0; i < names.size(); ++i) SIM_CHECK(GetFieldIndexByName(q, names[i]) == static_cast<int64_t>(i), "wrong-type", "field index in %s", desc.c_str());
      break;
    }
    case 3:
      q = MakeSliceQType(sub[0], sub[1], sub[2]);
      SIM_CHECK(IsSliceQType(q), "wrong-type", "%s is not a slice", desc.c_str());
      break;
    case 4:
      q = GetSequenceQType(sub[0]);
      SIM_CHECK(IsSequenceQType(q) && q->value_qtype() == sub[0], "wrong-type", "%s is not a sequence of its element type", desc.c_str());
      break;
    case 5: {
      auto r = GetDictQType(key_leaf(t.leaf % 3), value_leaf(t.leaf / 3));
      SIM_CHECK(r.ok(), "failed", "dict: %s", r.status().ToString().c_str());
      q = *r;
      SIM_CHECK(IsDictQType(q), "wrong-type", "%s is not a dict", desc.c_str());
      break;
    }
    case 6:
      q = GetLabeledQType(sub[0], t.label);
      SIM_CHECK(GetQTypeLabel(q) == t.label, "wrong-type", "label of %s", desc.c_str());
      break;
  }
  if (t.kind >= 1 && t.kind <= 3) {
    auto& f = q->type_fields();
    SIM_CHECK(f.size() == sub.size(), "wrong-type", "%s has %zu fields", desc.c_str(), f.size());
    for (size_t i = 0; i < sub.size(); ++i) SIM_CHECK(f[i].GetType() == sub[i], "wrong-type", "field %zu of %s", i, desc.c_str());
  }
  seen->use([&](Seen& s) {
    auto [it, fresh] = s.by_desc.emplace(desc, q);
    if (it->second != q) sim_fail("two-objects", "two qtype objects for the type %s", std::string(q->name()).c_str());
    if (!fresh) sim_probe("same-type-again");
    {
      auto [jt, f2] = s.by_ptr.emplace(q, desc);
      if (jt->second != desc) sim_fail("one-object-two-types", "one qtype object for %s and %s", jt->second.c_str(), desc.c_str());
    }
  });
  return q;
}
}  // namespace
void sim_scenario() {
  h::Book<Seen> s;
  seen = &s;
  const int n = h::range(2, 4);
  const int nleaves = h::coin() ? 2 : kLeaves;
  const int depth = h::range(1, 3);
  // Threads share a few type expressions, so that they race for the same new type.
  std::vector<T> common;
  for (int i = 0, m = h::range(1, 3); i < m; ++i) common.push_back(gen(depth, nleaves));
  {
    h::Threads th;
    for (int t = 0; t < n; ++t) {
      std::vector<T> prog;
      for (int i = 0, m = h::range(1, 4); i < m; ++i) prog.push_back(h::one_in(4) ? gen(depth, nleaves) : common[h::range(0, common.size() - 1)]);
      th.go([prog] {
        for (auto& e : prog) {
          QTypePtr q = build(e);
          // Values of the type agree, too.
          if (e.kind == 1 && e.sub.size() == 1 && e.sub[0].kind == 0 && e.sub[0].leaf == 0) {
            auto v = MakeTupleFromFields(int32_t{7});
            SIM_CHECK(v.GetType() == q, "two-objects", "a value of %s has another type object", std::string(q->name()).c_str());
            auto fp = v.GetFingerprint();
            seen->use([&](Seen& s) { auto [it, f] = s.fp.emplace("7", fp); if (it->second != fp) sim_fail("fingerprint-differs", "equal values, different fingerprints"); });
            sim_probe("value");
          }
        }
      });
    }
  }
  // Later requests, by one thread, give the same objects.
  for (auto& e : common) build(e);
}
