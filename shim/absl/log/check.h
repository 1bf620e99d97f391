// Stand-in for absl/log/check.h: streams to stderr, aborts.
#ifndef SHIM_ABSL_LOG_CHECK_H_
#define SHIM_ABSL_LOG_CHECK_H_
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <memory>
#include <ostream>
#include <sstream>
#include <string>
#include "absl/status/status.h"
#include "absl/status/statusor.h"
#include "absl/strings/string_view.h"
namespace shim_log {
class Fatal {
 public:
  Fatal(const char* f, int l, const char* what) { s_ << f << ":" << l << "] " << what << " "; }
  Fatal(const char* f, int l, std::string* what) { s_ << f << ":" << l << "] " << *what << " "; delete what; }
  [[noreturn]] ~Fatal() {
    std::string m = s_.str();
    m += "\n";
    ::fwrite(m.data(), 1, m.size(), stderr);
    ::fflush(stderr);
    ::abort();
  }
  std::ostream& stream() { return s_; }
  template <typename T> Fatal& operator<<(const T& v) { s_ << v; return *this; }
  Fatal& operator<<(std::ostream& (*f)(std::ostream&)) { s_ << f; return *this; }
 private:
  std::ostringstream s_;
};
class Null {
 public:
  template <typename T> Null& operator<<(const T&) { return *this; }
  Null& operator<<(std::ostream& (*)(std::ostream&)) { return *this; }
};
class Log {
 public:
  Log(const char* f, int l, const char* sev) { s_ << sev << " " << f << ":" << l << "] "; }
  ~Log();
  template <typename T> Log& operator<<(const T& v) { s_ << v; return *this; }
  Log& operator<<(std::ostream& (*f)(std::ostream&)) { s_ << f; return *this; }
 private:
  std::ostringstream s_;
};
inline Log::~Log() {
  std::string m = s_.str();
  m += "\n";
  ::fwrite(m.data(), 1, m.size(), stderr);
}
struct Voidify { template <typename T> void operator&&(T&&) const&& {} };
template <typename T>
inline auto Show(std::ostream& o, const T& v, int) -> decltype((void)(o << v)) { o << v; }
template <typename T>
inline void Show(std::ostream& o, const T&, long) { o << "<?>"; }
#define SHIM_DEF_OP(name, op)                                                 \
  template <typename A, typename B>                                           \
  inline std::string* name(const A& a, const B& b, const char* what) {        \
    if (a op b) [[likely]] return nullptr;                                    \
    std::ostringstream s;                                                     \
    s << "Check failed: " << what << " (";                                    \
    Show(s, a, 0); s << " vs. "; Show(s, b, 0); s << ")";                     \
    return new std::string(s.str());                                          \
  }
SHIM_DEF_OP(CheckEQ, ==)
SHIM_DEF_OP(CheckNE, !=)
SHIM_DEF_OP(CheckLT, <)
SHIM_DEF_OP(CheckLE, <=)
SHIM_DEF_OP(CheckGT, >)
SHIM_DEF_OP(CheckGE, >=)
#undef SHIM_DEF_OP
inline std::string* CheckOkImpl(const absl::Status& s, const char* what) {
  if (s.ok()) return nullptr;
  return new std::string(std::string("Check failed: ") + what + " is OK: " + s.ToString());
}
template <typename T>
inline std::string* CheckOkImpl(const absl::StatusOr<T>& s, const char* what) {
  return CheckOkImpl(s.status(), what);
}
}  // namespace shim_log
#define SHIM_CHECK_OP(fn, a, b, op) \
  while (std::string* shim_s = ::shim_log::fn((a), (b), #a " " #op " " #b)) \
    ::shim_log::Fatal(__FILE__, __LINE__, shim_s)
#define CHECK(c)                                            \
  switch (0)                                                \
  case 0:                                                   \
  default:                                                  \
    (c) ? (void)0                                           \
        : ::shim_log::Voidify() && ::shim_log::Fatal(__FILE__, __LINE__, "Check failed: " #c)
#define CHECK_EQ(a, b) SHIM_CHECK_OP(CheckEQ, a, b, ==)
#define CHECK_NE(a, b) SHIM_CHECK_OP(CheckNE, a, b, !=)
#define CHECK_LT(a, b) SHIM_CHECK_OP(CheckLT, a, b, <)
#define CHECK_LE(a, b) SHIM_CHECK_OP(CheckLE, a, b, <=)
#define CHECK_GT(a, b) SHIM_CHECK_OP(CheckGT, a, b, >)
#define CHECK_GE(a, b) SHIM_CHECK_OP(CheckGE, a, b, >=)
#define CHECK_STREQ(a, b) CHECK(std::strcmp((a), (b)) == 0)
#define CHECK_OK(e)                                                    \
  while (std::string* shim_s = ::shim_log::CheckOkImpl((e), #e))       \
    ::shim_log::Fatal(__FILE__, __LINE__, shim_s)
#define QCHECK CHECK
#define QCHECK_EQ CHECK_EQ
#define QCHECK_OK CHECK_OK
#define PCHECK CHECK
#ifdef NDEBUG
#define SHIM_DEAD(x) while (false) x
#define DCHECK(c) SHIM_DEAD(CHECK(c))
#define DCHECK_EQ(a, b) SHIM_DEAD(CHECK_EQ(a, b))
#define DCHECK_NE(a, b) SHIM_DEAD(CHECK_NE(a, b))
#define DCHECK_LT(a, b) SHIM_DEAD(CHECK_LT(a, b))
#define DCHECK_LE(a, b) SHIM_DEAD(CHECK_LE(a, b))
#define DCHECK_GT(a, b) SHIM_DEAD(CHECK_GT(a, b))
#define DCHECK_GE(a, b) SHIM_DEAD(CHECK_GE(a, b))
#define DCHECK_OK(e) SHIM_DEAD(CHECK_OK(e))
#else
#define DCHECK(c) CHECK(c)
#define DCHECK_EQ(a, b) CHECK_EQ(a, b)
#define DCHECK_NE(a, b) CHECK_NE(a, b)
#define DCHECK_LT(a, b) CHECK_LT(a, b)
#define DCHECK_LE(a, b) CHECK_LE(a, b)
#define DCHECK_GT(a, b) CHECK_GT(a, b)
#define DCHECK_GE(a, b) CHECK_GE(a, b)
#define DCHECK_OK(e) CHECK_OK(e)
#endif
#endif
