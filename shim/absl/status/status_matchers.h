#ifndef SHIM_STATUS_MATCHERS_H_
#define SHIM_STATUS_MATCHERS_H_
#include "absl/status/status.h"
#include "absl/status/statusor.h"
#include "gmock/gmock.h"
#include "gtest/gtest.h"
namespace absl_testing {
namespace internal {
inline const absl::Status& St(const absl::Status& s) { return s; }
template <typename T> const absl::Status& St(const absl::StatusOr<T>& s) { return s.status(); }
template <typename SOr>
class IsOkAndHoldsImpl : public ::testing::MatcherInterface<SOr> {
 public:
  using V = typename std::remove_reference<SOr>::type::value_type;
  template <typename I> explicit IsOkAndHoldsImpl(I&& i) : m_(::testing::SafeMatcherCast<const V&>(std::forward<I>(i))) {}
  void DescribeTo(std::ostream* os) const override { *os << "is OK and has a value that "; m_.DescribeTo(os); }
  bool MatchAndExplain(SOr v, ::testing::MatchResultListener* l) const override {
    if (!v.ok()) { *l << "which has status " << v.status(); return false; }
    return m_.MatchAndExplain(*v, l);
  }
 private:
  ::testing::Matcher<const V&> m_;
};
template <typename I>
class IsOkAndHoldsM {
 public:
  explicit IsOkAndHoldsM(I i) : i_(std::move(i)) {}
  template <typename SOr> operator ::testing::Matcher<SOr>() const { return ::testing::Matcher<SOr>(new IsOkAndHoldsImpl<const SOr&>(i_)); }
 private:
  I i_;
};
MATCHER(IsOkM, "is OK") { return St(arg).ok(); }
MATCHER_P(StatusIs1, c, "") { *result_listener << St(arg); return ::testing::ExplainMatchResult(c, St(arg).code(), result_listener); }
MATCHER_P2(StatusIs2, c, m, "") { *result_listener << St(arg); return ::testing::ExplainMatchResult(c, St(arg).code(), result_listener) && ::testing::ExplainMatchResult(m, std::string(St(arg).message()), result_listener); }
}
template <typename I>
internal::IsOkAndHoldsM<typename std::decay<I>::type> IsOkAndHolds(I&& i) { return internal::IsOkAndHoldsM<typename std::decay<I>::type>(std::forward<I>(i)); }
inline auto IsOk() { return internal::IsOkM(); }
template <typename C> auto StatusIs(C c) { return internal::StatusIs1(c); }
template <typename C, typename M> auto StatusIs(C c, M m) { return internal::StatusIs2(c, m); }
}
#define EXPECT_OK(e) EXPECT_THAT((e), ::absl_testing::IsOk())
#define ASSERT_OK(e) ASSERT_THAT((e), ::absl_testing::IsOk())
#endif
