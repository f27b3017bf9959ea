// Stand-in for third_party/function2 (an empty submodule in this checkout): the
// part of fu2::unique_function that arpc uses.  A move-only type-erased callable;
// a moved-from one is empty and calling an empty one throws, as in function2.
#pragma once
#include <cstddef>
#include <functional>
#include <memory>
#include <type_traits>
#include <utility>
namespace fu2 {
template <typename S> class unique_function;
template <typename R, typename... A> class unique_function<R(A...)> {
  struct base { virtual ~base() {} virtual R call(A&&... a) = 0; };
  template <typename F> struct impl : base {
    F f; template <typename G> explicit impl(G&& g) : f(std::forward<G>(g)) {}
    R call(A&&... a) override { return static_cast<R>(f(std::forward<A>(a)...)); }
  };
  std::unique_ptr<base> p_;
 public:
  unique_function() noexcept = default;
  unique_function(std::nullptr_t) noexcept {}
  unique_function(unique_function&&) noexcept = default;
  unique_function& operator=(unique_function&&) noexcept = default;
  template <typename F, typename D = std::decay_t<F>,
            typename = std::enable_if_t<!std::is_same_v<D, unique_function> && std::is_invocable_v<D&, A...>>>
  unique_function(F&& f) : p_(std::make_unique<impl<D>>(std::forward<F>(f))) {}
  R operator()(A... a) { if (!p_) throw std::bad_function_call(); return p_->call(std::forward<A>(a)...); }
  explicit operator bool() const noexcept { return static_cast<bool>(p_); }
};
}
