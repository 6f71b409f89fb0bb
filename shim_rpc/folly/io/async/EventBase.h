// A stand-in: the event bases of a single-threaded driver share one queue of tasks and one virtual clock.
#pragma once
#include <folly/futures/Future.h>
#include <chrono>
#include <deque>
#include <map>
#include <memory>
#include <set>
namespace vf {
struct Loop {
    struct Ev { int base; folly::Func f; };
    std::deque<Ev> ready; std::multimap<int64_t, Ev> timers; int64_t now = 0; int running = -1; std::multiset<int> busy;
    static Loop& get() { static Loop l; return l; }
    bool step() {   // one task; false: nothing is ready
        // a base in the middle of a task (which waits for something) runs no other one
        size_t i = 0; while (i < ready.size() && busy.count(ready[i].base)) i++;
        if (i == ready.size()) return false;
        auto e = std::move(ready[i]); ready.erase(ready.begin() + static_cast<long>(i)); auto r = running; running = e.base; busy.insert(e.base);
        try { e.f(); } catch (...) { running = r; busy.erase(e.base); throw; }
        running = r; busy.erase(e.base); return true;
    }
    bool advance() {   // to the next timer; false: none
        if (timers.empty()) return false;
        auto i = timers.begin(); if (i->first > now) now = i->first; ready.push_back(std::move(i->second)); timers.erase(i); return true;
    }
    void clear() { ready.clear(); timers.clear(); }
};
// called after a task was handed to an event base: what other threads may do in the meantime
inline std::function<void()>& preempt() { static std::function<void()> f; return f; }
}
namespace folly {
class EventBase : public Executor {
    int id_;
public:
    explicit EventBase(int id = 0) : id_(id) {}
    int id() const { return id_; }
    void add(Func f) override { vf::Loop::get().ready.push_back({id_, std::move(f)}); if (vf::preempt()) vf::preempt()(); }
    void runInEventBaseThread(Func f) { add(std::move(f)); }
    void runInLoop(Func f) { add(std::move(f)); }
    bool isInEventBaseThread() const { return vf::Loop::get().running == id_; }
    void runImmediatelyOrRunInEventBaseThreadAndWait(Func f) { f(); }
    void runInEventBaseThreadAndWait(Func f) { f(); }
    void runAfterDelay(Func f, uint32_t ms) { auto& l = vf::Loop::get(); l.timers.emplace(l.now + ms, vf::Loop::Ev{id_, std::move(f)}); }
};
}
