#pragma once
#include <folly/io/async/EventBase.h>
#include <folly/Random.h>
#include <folly/ExceptionWrapper.h>
namespace folly {
class IOThreadPoolExecutor : public Executor {
    std::vector<std::unique_ptr<EventBase>> e_; size_t next_ = 0;
public:
    explicit IOThreadPoolExecutor(size_t n, int first = 0) { for (size_t i = 0; i < n; i++) e_.push_back(std::make_unique<EventBase>(first + static_cast<int>(i))); }
    EventBase* getEventBase() { return e_[next_++ % e_.size()].get(); }
    size_t numThreads() const { return e_.size(); }
    void add(Func f) override { getEventBase()->add(std::move(f)); }
};
}
