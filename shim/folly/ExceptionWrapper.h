#pragma once
#include <folly/Portability.h>
namespace folly {
class exception_wrapper {
public:
    exception_wrapper() = default;
    explicit exception_wrapper(std::exception_ptr p) : p_(std::move(p)) {}
    template <class E, class = std::enable_if_t<std::is_base_of<std::exception, std::decay_t<E>>::value>>
    exception_wrapper(E&& e) : p_(std::make_exception_ptr(std::forward<E>(e))) {}
    explicit operator bool() const { return p_ != nullptr; }
    bool has_exception_ptr() const { return p_ != nullptr; }
    std::exception_ptr to_exception_ptr() const { return p_; }
    std::string what() const {
        if (!p_) return "";
        try { std::rethrow_exception(p_); } catch (const std::exception& e) { return std::string(typeid(e).name()) + ": " + e.what(); } catch (...) { return "unknown"; }
    }
    std::string class_name() const { return "exception"; }
    [[noreturn]] void throw_exception() const { std::rethrow_exception(p_); }
    template <class E> bool is_compatible_with() const { return get_exception<E>() != nullptr; }
    template <class E> const E* get_exception() const {
        if (!p_) return nullptr;
        try { std::rethrow_exception(p_); } catch (const E& e) { return &e; } catch (...) { return nullptr; }
    }
    template <class E> E* get_exception() { return const_cast<E*>(static_cast<const exception_wrapper*>(this)->get_exception<E>()); }
    template <class F> bool with_exception(F f) const { return with_(f, &F::operator()); }
private:
    template <class F, class R, class C, class A> bool with_(F& f, R (C::*)(A) const) const {
        using E = std::decay_t<A>;
        if (!p_) return false;
        try { std::rethrow_exception(p_); } catch (E& e) { f(e); return true; } catch (...) { return false; }
    }
    std::exception_ptr p_;
};
template <class E, class... A> exception_wrapper make_exception_wrapper(A&&... a) { return exception_wrapper(E(std::forward<A>(a)...)); }
inline std::string exceptionStr(const exception_wrapper& w) { return w.what(); }
}
