// Stand-in for absl::NoDestructor.
#ifndef SHIM_ABSL_NO_DESTRUCTOR_H_
#define SHIM_ABSL_NO_DESTRUCTOR_H_
#include <new>
#include <type_traits>
#include <utility>
namespace absl {
template <typename T>
class NoDestructor {
 public:
  template <typename... Ts,
            typename std::enable_if<
                !std::is_same<void(std::decay_t<Ts>&...), void(NoDestructor&)>::value, int>::type = 0>
  explicit constexpr NoDestructor(Ts&&... args) {
    new (&space_) T(std::forward<Ts>(args)...);
  }
  explicit NoDestructor(const T& x) { new (&space_) T(x); }
  explicit NoDestructor(T&& x) { new (&space_) T(std::move(x)); }
  NoDestructor(const NoDestructor&) = delete;
  NoDestructor& operator=(const NoDestructor&) = delete;
  T& operator*() noexcept { return *get(); }
  T* operator->() noexcept { return get(); }
  T* get() noexcept { return reinterpret_cast<T*>(&space_); }
  const T& operator*() const noexcept { return *get(); }
  const T* operator->() const noexcept { return get(); }
  const T* get() const noexcept { return reinterpret_cast<const T*>(&space_); }
 private:
  alignas(T) unsigned char space_[sizeof(T)];
};
template <typename T>
NoDestructor(T) -> NoDestructor<T>;
}  // namespace absl
#endif
