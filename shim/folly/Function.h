#pragma once
#include <folly/Portability.h>
#include <memory>
#include <utility>
namespace folly {
// A move-only callable, as folly::Function.
template <class S> class Function;
template <class R, class... A> class Function<R(A...)> {
    struct B { virtual ~B() {} virtual R call(A...) = 0; };
    template <class F> struct I final : B { F f; explicit I(F&& x) : f(std::move(x)) {} R call(A... a) override { return f(std::forward<A>(a)...); } };
    std::unique_ptr<B> p_;
public:
    Function() = default; Function(std::nullptr_t) {} Function(Function&&) = default; Function& operator=(Function&&) = default;
    template <class F, class = std::enable_if_t<!std::is_same<std::decay_t<F>, Function>::value>> Function(F f) : p_(new I<F>(std::move(f))) {}
    R operator()(A... a) { return p_->call(std::forward<A>(a)...); }
    explicit operator bool() const { return p_ != nullptr; }
};
using Func = Function<void()>;
}
