#ifndef SHIM_DC_D2S_H_
#define SHIM_DC_D2S_H_
#include <charconv>
#include <cmath>
#include <cstdlib>
#include "double-conversion/utils.h"
namespace double_conversion {
class DoubleToStringConverter {
 public:
  enum Flags { NO_FLAGS = 0, EMIT_POSITIVE_EXPONENT_SIGN = 1, EMIT_TRAILING_DECIMAL_POINT = 2,
    EMIT_TRAILING_ZERO_AFTER_POINT = 4, UNIQUE_ZERO = 8 };
  DoubleToStringConverter(int flags, const char* inf, const char* nan, char e, int lo, int hi, int, int)
      : flags_(flags), inf_(inf), nan_(nan), e_(e), lo_(lo), hi_(hi) {}
  bool ToShortest(double v, StringBuilder* b) const { return Do(v, b); }
  bool ToShortestSingle(float v, StringBuilder* b) const { return Do(v, b); }
 private:
  template <class T> bool Do(T v, StringBuilder* b) const {
    if (std::isnan(v)) { b->AddString(nan_); return true; }
    if (std::isinf(v)) { if (v < 0) b->AddCharacter('-'); b->AddString(inf_); return true; }
    if (v == 0) {
      if (std::signbit(v) && !(flags_ & UNIQUE_ZERO)) b->AddCharacter('-');
      b->AddCharacter('0'); Trail(b); return true;
    }
    if (v < 0) { b->AddCharacter('-'); v = -v; }
    char buf[64];
    auto r = std::to_chars(buf, buf + sizeof(buf), v, std::chars_format::scientific);
    std::string digits; int exp = 0;
    for (char* p = buf; p != r.ptr; ++p) {
      if (*p == 'e') { exp = std::atoi(std::string(p + 1, r.ptr).c_str()); break; }
      if (*p != '.') digits += *p;
    }
    while (digits.size() > 1 && digits.back() == '0') digits.pop_back();
    int dec = exp + 1;  // decimal point position
    if (exp >= lo_ && exp < hi_) {
      if (dec <= 0) { b->AddString("0."); for (int i = 0; i < -dec; ++i) b->AddCharacter('0'); b->AddString(digits.c_str()); }
      else if (dec >= (int)digits.size()) { b->AddString(digits.c_str()); for (int i = digits.size(); i < dec; ++i) b->AddCharacter('0'); Trail(b); }
      else { for (int i = 0; i < (int)digits.size(); ++i) { if (i == dec) b->AddCharacter('.'); b->AddCharacter(digits[i]); } }
    } else {
      b->AddCharacter(digits[0]);
      if (digits.size() > 1) { b->AddCharacter('.'); b->AddString(digits.c_str() + 1); }
      b->AddCharacter(e_);
      if (exp >= 0 && (flags_ & EMIT_POSITIVE_EXPONENT_SIGN)) b->AddCharacter('+');
      b->AddString(std::to_string(exp).c_str());
    }
    return true;
  }
  void Trail(StringBuilder* b) const {
    if (flags_ & EMIT_TRAILING_DECIMAL_POINT) b->AddCharacter('.');
    if (flags_ & EMIT_TRAILING_ZERO_AFTER_POINT) b->AddCharacter('0');
  }
  int flags_; const char* inf_; const char* nan_; char e_; int lo_, hi_;
};
}
#endif
