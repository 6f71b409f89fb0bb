#pragma once
#include <folly/Portability.h>
namespace folly {
template <class T, class Tag = void> class ThreadLocal {
public:
    ThreadLocal() : make_([] { return new T(); }) {}
    template <class F> explicit ThreadLocal(F&& f) : make_(std::forward<F>(f)) {}
    T* get() const { std::lock_guard<std::mutex> g(m_); auto& p = t_[std::this_thread::get_id()]; if (!p) p.reset(make_()); return p.get(); }
    T* operator->() const { return get(); }
    T& operator*() const { return *get(); }
    void reset(T* n = nullptr) { std::lock_guard<std::mutex> g(m_); t_[std::this_thread::get_id()].reset(n); }
private:
    std::function<T*()> make_; mutable std::mutex m_; mutable std::map<std::thread::id, std::unique_ptr<T>> t_;
};
template <class T, class Tag = void> class ThreadLocalPtr {
public:
    T* get() const { std::lock_guard<std::mutex> g(m_); return t_[std::this_thread::get_id()].get(); }
    T* operator->() const { return get(); }
    T& operator*() const { return *get(); }
    explicit operator bool() const { return get() != nullptr; }
    void reset(T* n = nullptr) { std::lock_guard<std::mutex> g(m_); t_[std::this_thread::get_id()].reset(n); }
private:
    mutable std::mutex m_; mutable std::map<std::thread::id, std::unique_ptr<T>> t_;
};
}
