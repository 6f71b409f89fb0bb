#pragma once
#include <folly/Portability.h>
namespace folly {
template <class F> class ScopeGuardImpl {
public:
    explicit ScopeGuardImpl(F f) : f_(std::move(f)) {}
    ScopeGuardImpl(ScopeGuardImpl&& o) : f_(std::move(o.f_)), on_(o.on_) { o.on_ = false; }
    ~ScopeGuardImpl() { if (on_) f_(); }
    void dismiss() { on_ = false; }
private:
    F f_; bool on_{true};
};
template <class F> ScopeGuardImpl<std::decay_t<F>> makeGuard(F&& f) { return ScopeGuardImpl<std::decay_t<F>>(std::forward<F>(f)); }
struct ScopeGuardOnExit {};
template <class F> ScopeGuardImpl<std::decay_t<F>> operator+(ScopeGuardOnExit, F&& f) { return makeGuard(std::forward<F>(f)); }
}
#define FOLLY_SG_CAT2(a, b) a##b
#define FOLLY_SG_CAT(a, b) FOLLY_SG_CAT2(a, b)
#define SCOPE_EXIT auto FOLLY_SG_CAT(scope_exit_, __COUNTER__) = ::folly::ScopeGuardOnExit() + [&]() noexcept
