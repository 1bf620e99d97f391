#ifndef SHIM_DC_UTILS_H_
#define SHIM_DC_UTILS_H_
#include <cstring>
#include <string>
namespace double_conversion {
class StringBuilder {
 public:
  StringBuilder(char* b, int n) : b_(b), n_(n) {}
  void AddString(const char* s) { while (*s) AddCharacter(*s++); }
  void AddCharacter(char c) { if (p_ < n_ - 1) b_[p_++] = c; }
  char* Finalize() { b_[p_] = 0; return b_; }
  int position() const { return p_; }
  void Reset() { p_ = 0; }
  int size() const { return n_; }
 private:
  char* b_; int n_; int p_ = 0;
};
}
#endif
