#pragma once
#include <folly/ExceptionWrapper.h>
#include <folly/Unit.h>
#include <memory>
namespace folly {
struct UsingUninitializedTry : std::logic_error { UsingUninitializedTry() : std::logic_error("Using uninitialized try") {} };
template <class T> class Try {
    std::unique_ptr<T> v_; exception_wrapper e_;
public:
    using element_type = T;
    Try() = default; Try(Try&&) = default; Try& operator=(Try&&) = default;
    explicit Try(T v) : v_(std::make_unique<T>(std::move(v))) {}
    explicit Try(exception_wrapper e) : e_(std::move(e)) {}
    bool hasValue() const { return v_ != nullptr; }
    bool hasException() const { return static_cast<bool>(e_); }
    template <class E> bool hasException() const { return hasException() && e_.is_compatible_with<E>(); }
    void throwIfFailed() const { if (e_) e_.throw_exception(); if (!v_) throw UsingUninitializedTry(); }
    T& value() & { throwIfFailed(); return *v_; }
    const T& value() const & { throwIfFailed(); return *v_; }
    T&& value() && { throwIfFailed(); return std::move(*v_); }
    T& operator*() { return value(); }
    T* operator->() { return &value(); }
    exception_wrapper& exception() { return e_; }
    const exception_wrapper& exception() const { return e_; }
};
}
