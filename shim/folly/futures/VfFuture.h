// A stand-in for folly futures: the part nebula-common uses.
#pragma once
#include <folly/ExceptionWrapper.h>
#include <folly/Function.h>
#include <folly/Try.h>
#include <folly/Unit.h>
#include <condition_variable>
#include <functional>
#include <mutex>
#include <vector>
namespace vf {
// set by a single-threaded driver: makes progress while a future is being waited for; false: nothing to do
inline std::function<bool()>& pump() { static std::function<bool()> f; return f; }
struct Stuck : std::runtime_error { Stuck() : std::runtime_error("a future nobody will fulfil is waited for") {} };
}
namespace folly {
struct FutureException : std::logic_error { using std::logic_error::logic_error; };
struct BrokenPromise : FutureException { BrokenPromise() : FutureException("Broken promise") {} explicit BrokenPromise(const std::string& s) : FutureException(s) {} };
struct PromiseInvalid : FutureException { PromiseInvalid() : FutureException("Promise invalid") {} };
struct PromiseAlreadySatisfied : FutureException { PromiseAlreadySatisfied() : FutureException("Promise already satisfied") {} };
struct FutureAlreadyRetrieved : FutureException { FutureAlreadyRetrieved() : FutureException("Future already retrieved") {} };
struct FutureInvalid : FutureException { FutureInvalid() : FutureException("Future invalid") {} };
struct FutureNotReady : FutureException { FutureNotReady() : FutureException("Future not ready") {} };
class Executor {
public:
    struct KeepAliveStub { Executor* e; Executor* get() const { return e; } };
    virtual ~Executor() = default;
    virtual void add(Func f) = 0;
};
namespace vfdetail {
template <class T> struct Core {
    std::mutex m; std::condition_variable cv; std::unique_ptr<Try<T>> res; Function<void(Try<T>&&)> cb; Executor* exec = nullptr; bool hasCb = false;
    void set(Try<T>&& t) {
        std::unique_lock<std::mutex> g(m);
        if (res) throw PromiseAlreadySatisfied();
        res = std::make_unique<Try<T>>(std::move(t));
        cv.notify_all();
        fire(g);
    }
    void setCb(Function<void(Try<T>&&)> f, Executor* e) { std::unique_lock<std::mutex> g(m); cb = std::move(f); exec = e; hasCb = true; fire(g); }
    bool ready() { std::lock_guard<std::mutex> g(m); return res != nullptr; }
    void wait() {
        if (vf::pump()) { while (!ready()) if (!vf::pump()()) throw vf::Stuck(); return; }
        std::unique_lock<std::mutex> g(m); while (!res) cv.wait(g);
    }
private:
    void fire(std::unique_lock<std::mutex>& g) {
        if (!res || !hasCb || !cb) return;
        auto f = std::move(cb); auto t = std::move(*res); auto* e = exec; cb = nullptr;
        g.unlock();
        if (e) e->add([f = std::move(f), t = std::move(t)]() mutable { f(std::move(t)); });
        else f(std::move(t));
    }
};
}
template <class T> class Future; template <class T> class SemiFuture; template <class T> class Promise;
template <class T> struct IsFuture : std::false_type { using Inner = T; };
template <class T> struct IsFuture<Future<T>> : std::true_type { using Inner = T; };
template <class T> struct IsFuture<SemiFuture<T>> : std::true_type { using Inner = T; };
template <class T> class FutureBase {
protected:
    std::shared_ptr<vfdetail::Core<T>> c_; Executor* exec_ = nullptr;
    template <class> friend class FutureBase; template <class> friend class Promise; template <class> friend class Future; template <class> friend class SemiFuture;
    vfdetail::Core<T>& core() const { if (!c_) throw FutureInvalid(); return *c_; }
public:
    using value_type = T;
    FutureBase() = default;
    explicit FutureBase(std::shared_ptr<vfdetail::Core<T>> c, Executor* e = nullptr) : c_(std::move(c)), exec_(e) {}
    FutureBase(FutureBase&&) = default; FutureBase& operator=(FutureBase&&) = default;
    bool valid() const { return c_ != nullptr; }
    bool isReady() const { return core().ready(); }
    bool hasValue() const { return result().hasValue(); }
    bool hasException() const { return result().hasException(); }
    Try<T>& result() const { auto& c = core(); std::lock_guard<std::mutex> g(c.m); if (!c.res) throw FutureNotReady(); return *c.res; }
    T& value() & { return result().value(); }
    T value() && { return std::move(result().value()); }
    Try<T> getTry() && { core().wait(); auto c = std::move(c_); std::lock_guard<std::mutex> g(c->m); return std::move(*c->res); }
    T get() && { return std::move(std::move(*this).getTry()).value(); }
    template <class F> void setCallback_(F f) {
        core().setCb([f = std::move(f)](Try<T>&& t) mutable { f(Executor::KeepAliveStub{nullptr}, std::move(t)); }, exec_);
    }
protected:
    template <class F, class G> auto chain(F f, G apply) {
        using R = decltype(apply(f, std::declval<Try<T>>()));
        using I = typename IsFuture<typename Unit::LiftT<R>>::Inner;
        Promise<I> p; auto fut = p.getFuture(); fut.exec_ = exec_;
        core().setCb([f = std::move(f), apply, p = std::move(p)](Try<T>&& t) mutable {
            Promise<I> q = std::move(p);
            try {
                if constexpr (std::is_void<R>::value) { apply(f, std::move(t)); q.setValue(Unit()); }
                else if constexpr (IsFuture<R>::value) { auto r = apply(f, std::move(t)); r.core().setCb([q = std::move(q)](Try<I>&& x) mutable { q.setTry(std::move(x)); }, nullptr); }
                else q.setValue(apply(f, std::move(t)));
            } catch (...) { q.setException(exception_wrapper(std::current_exception())); }
        }, exec_);
        c_.reset();
        return fut;
    }
};
template <class T> class SemiFuture : public FutureBase<T> {
public:
    using FutureBase<T>::FutureBase;
    SemiFuture() = default;
    template <class U = T, class = std::enable_if_t<std::is_convertible<U&&, T>::value && !std::is_same<std::decay_t<U>, exception_wrapper>::value && !IsFuture<std::decay_t<U>>::value>>
    SemiFuture(U&& v) { this->c_ = std::make_shared<vfdetail::Core<T>>(); this->c_->set(Try<T>(T(std::forward<U>(v)))); }
    SemiFuture(exception_wrapper e) { this->c_ = std::make_shared<vfdetail::Core<T>>(); this->c_->set(Try<T>(std::move(e))); }
    SemiFuture(Future<T>&& f);
    SemiFuture& wait() & { this->core().wait(); return *this; }
    SemiFuture&& wait() && { this->core().wait(); return std::move(*this); }
    Future<T> via(Executor* e) &&;
    Future<T> toUnsafeFuture() &&;
};
template <class T> class Future : public FutureBase<T> {
public:
    using FutureBase<T>::FutureBase;
    Future() = default;
    template <class U = T, class = std::enable_if_t<std::is_convertible<U&&, T>::value && !std::is_same<std::decay_t<U>, exception_wrapper>::value && !IsFuture<std::decay_t<U>>::value>>
    Future(U&& v) { this->c_ = std::make_shared<vfdetail::Core<T>>(); this->c_->set(Try<T>(T(std::forward<U>(v)))); }
    Future(exception_wrapper e) { this->c_ = std::make_shared<vfdetail::Core<T>>(); this->c_->set(Try<T>(std::move(e))); }
    template <class U, class = std::enable_if_t<!std::is_same<U, T>::value && std::is_constructible<T, U&&>::value>>
    Future(Future<U>&& o) : Future(std::move(o).thenValue([](U&& v) { return T(std::move(v)); })) {}
    Future& wait() & { this->core().wait(); return *this; }
    Future&& wait() && { this->core().wait(); return std::move(*this); }
    Future<T> via(Executor* e) && { Future<T> f(std::move(this->c_), e); return f; }
    SemiFuture<T> semi() && { return SemiFuture<T>(std::move(this->c_)); }
    template <class F> auto thenTry(F f) && { return this->chain(std::move(f), [](F& g, Try<T>&& t) { return g(std::move(t)); }); }
    template <class F> auto thenValue(F f) && { return this->chain(std::move(f), [](F& g, Try<T>&& t) { return g(std::move(t).value()); }); }
    template <class F> auto then(F f) && {
        if constexpr (std::is_invocable<F&, Try<T>&&>::value) return std::move(*this).thenTry(std::move(f));
        else if constexpr (std::is_invocable<F&, T&&>::value) return std::move(*this).thenValue(std::move(f));
        else return this->chain(std::move(f), [](F& g, Try<T>&& t) { t.throwIfFailed(); return g(); });
    }
    template <class F> Future<T> ensure(F f) && { return this->chain(std::move(f), [](F& g, Try<T>&& t) { g(); return std::move(t).value(); }); }
    template <class F> Future<T> onError(F f) && { return this->chain(std::move(f), [](F& g, Try<T>&& t) { if (t.hasException()) return T(g(t.exception())); return std::move(t).value(); }); }
};
template <class T> SemiFuture<T>::SemiFuture(Future<T>&& f) : FutureBase<T>(std::move(f.c_)) {}
template <class T> Future<T> SemiFuture<T>::via(Executor* e) && { return Future<T>(std::move(this->c_), e); }
template <class T> Future<T> SemiFuture<T>::toUnsafeFuture() && { return Future<T>(std::move(this->c_)); }
template <class T> class Promise {
    std::shared_ptr<vfdetail::Core<T>> c_ = std::make_shared<vfdetail::Core<T>>(); bool taken_ = false;
    vfdetail::Core<T>& core() const { if (!c_) throw PromiseInvalid(); return *c_; }
    void drop() { if (c_ && taken_ && !c_->ready()) { c_->set(Try<T>(exception_wrapper(BrokenPromise()))); } c_.reset(); }
public:
    Promise() = default; Promise(const Promise&) = delete;
    Promise(Promise&& o) noexcept : c_(std::move(o.c_)), taken_(o.taken_) {}
    Promise& operator=(Promise&& o) noexcept { if (this != &o) { drop(); c_ = std::move(o.c_); taken_ = o.taken_; } return *this; }
    ~Promise() { drop(); }
    static Promise<T> makeEmpty() { Promise p; p.c_.reset(); return p; }
    bool valid() const { return c_ != nullptr; }
    bool isFulfilled() const { return !c_ || c_->ready(); }
    Future<T> getFuture() { core(); if (taken_) throw FutureAlreadyRetrieved(); taken_ = true; return Future<T>(c_); }
    SemiFuture<T> getSemiFuture() { core(); if (taken_) throw FutureAlreadyRetrieved(); taken_ = true; return SemiFuture<T>(c_); }
    void setTry(Try<T>&& t) { core().set(std::move(t)); }
    template <class M> void setValue(M&& v) { setTry(Try<T>(T(std::forward<M>(v)))); }
    template <class B = T> std::enable_if_t<std::is_same<Unit, B>::value> setValue() { setTry(Try<T>(T())); }
    void setException(exception_wrapper e) { setTry(Try<T>(std::move(e))); }
    template <class F> void setWith(F&& f) {
        core();
        std::unique_ptr<Try<T>> r;
        try { if constexpr (std::is_void<decltype(f())>::value) { f(); r = std::make_unique<Try<T>>(T()); } else r = std::make_unique<Try<T>>(f()); }
        catch (...) { r = std::make_unique<Try<T>>(exception_wrapper(std::current_exception())); }
        setTry(std::move(*r));
    }
};
template <class T> std::pair<Promise<T>, SemiFuture<T>> makePromiseContract() { Promise<T> p; auto f = p.getSemiFuture(); return {std::move(p), std::move(f)}; }
template <class T> Future<std::decay_t<T>> makeFuture(T&& v) { return Future<std::decay_t<T>>(std::forward<T>(v)); }
template <class T> Future<T> makeFuture(exception_wrapper e) { return Future<T>(std::move(e)); }
template <class T, class E> std::enable_if_t<std::is_base_of<std::exception, E>::value, Future<T>> makeFuture(const E& e) { return Future<T>(exception_wrapper(e)); }
inline Future<Unit> makeFuture() { return Future<Unit>(Unit()); }
inline Future<Unit> via(Executor* e) { Future<Unit> f(Unit{}); return std::move(f).via(e); }
template <class F> auto via(Executor* e, F f) {
    using R = typename Unit::LiftT<decltype(f())>;
    Promise<R> p; auto fut = p.getFuture();
    e->add([f = std::move(f), p = std::move(p)]() mutable { Promise<R> q = std::move(p); q.setWith(f); });
    return std::move(fut).via(e);
}
}
