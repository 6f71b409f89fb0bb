// A stand-in for single-threaded drivers: delayed tasks on the virtual clock.
#pragma once
#include "common/base/Base.h"
#include <folly/io/async/EventBase.h>
namespace nebula { namespace thread {
class GenericWorker {
    std::shared_ptr<int> alive_; bool stopped_ = false;
public:
    bool start(std::string = "") { if (alive_) return false; alive_ = std::make_shared<int>(0); return true; }
    bool stop() { if (!alive_ || stopped_) return false; stopped_ = true; return true; }
    bool wait() { alive_.reset(); return true; }
    template <class F, class... A> auto addTask(F&& f, A&&... a) {
        auto b = std::bind(std::forward<F>(f), std::forward<A>(a)...);
        using R = typename folly::Unit::LiftT<decltype(b())>;
        folly::Promise<R> p; auto fut = p.getFuture();
        vf::Loop::get().ready.push_back({98, [b = std::move(b), p = std::move(p)]() mutable { p.setWith(b); }});
        return std::move(fut).semi();
    }
    template <class F, class... A> void addDelayTask(size_t ms, F&& f, A&&... a) {
        auto b = std::bind(std::forward<F>(f), std::forward<A>(a)...); std::weak_ptr<int> w = alive_;
        auto& l = vf::Loop::get(); l.timers.emplace(l.now + static_cast<int64_t>(ms), vf::Loop::Ev{98, [b, w]() mutable { if (w.lock()) b(); }});
    }
};
}}
