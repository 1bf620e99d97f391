// Stand-in for RE2 on std::regex (ECMAScript), immutable after construction.
#ifndef SHIM_RE2_H_
#define SHIM_RE2_H_
#include <regex>
#include <string>
#include "absl/strings/string_view.h"
class RE2 {
 public:
  enum CannedOptions { DefaultOptions, Quiet };
  class Arg {
   public:
    Arg() = default;
    explicit Arg(absl::string_view* p) : sv(p) {}
    absl::string_view* sv = nullptr;
  };
  explicit RE2(absl::string_view p, CannedOptions = DefaultOptions)
      : pattern_(p.data(), p.size()) {
    try { re_ = std::regex(pattern_, std::regex::ECMAScript); }
    catch (const std::regex_error& e) { error_ = e.what(); }
  }
  bool ok() const { return error_.empty(); }
  const std::string& error() const { return error_; }
  const std::string& pattern() const { return pattern_; }
  int NumberOfCapturingGroups() const { return ok() ? (int)re_.mark_count() : -1; }
  static bool PartialMatch(absl::string_view t, const RE2& re) {
    return std::regex_search(t.data(), t.data() + t.size(), re.re_);
  }
  static bool PartialMatch(absl::string_view t, const RE2& re, std::string* out) {
    std::cmatch m;
    if (!std::regex_search(t.data(), t.data() + t.size(), m, re.re_) || m.size() < 2) return false;
    *out = m[1].str();
    return true;
  }
  static bool FindAndConsumeN(absl::string_view* in, const RE2& re, const Arg* const a[], int n) {
    std::cmatch m;
    if (!std::regex_search(in->data(), in->data() + in->size(), m, re.re_)) return false;
    if ((int)m.size() < n + 1) return false;
    for (int i = 0; i < n; ++i)
      if (a[i]->sv) *a[i]->sv = absl::string_view(m[i + 1].first, m[i + 1].length());
    in->remove_prefix(m.position(0) + m.length(0));
    return true;
  }
  static int GlobalReplace(std::string* s, const RE2& re, absl::string_view rewrite) {
    std::string rw;
    for (size_t i = 0; i < rewrite.size(); ++i) {
      if (rewrite[i] == '\\' && i + 1 < rewrite.size()) { ++i; if (rewrite[i] == '\\') rw += '\\'; else if (rewrite[i] == '0') rw += "$&"; else { rw += '$'; rw += rewrite[i]; } }
      else if (rewrite[i] == '$') rw += "$$";
      else rw += rewrite[i];
    }
    int n = 0;
    for (std::sregex_iterator it(s->begin(), s->end(), re.re_), e; it != e; ++it) ++n;
    if (n) *s = std::regex_replace(*s, re.re_, rw);
    return n;
  }
 private:
  std::string pattern_, error_;
  std::regex re_;
};
#endif
