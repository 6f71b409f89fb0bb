#include "evfake.h"
#include "vsched.h"
#include <event2/event.h>
#include <poll.h>
#include <unistd.h>
#include <algorithm>
#include <condition_variable>
#include <list>
#include <mutex>
struct event { event_base* b; int fd; short what; event_callback_fn cb; void* arg; bool added = false; int64_t due = -1, period = 0; uint64_t order = 0; };
struct event_base { std::list<event*> evs; std::condition_variable cv; bool exit = false, waiting = false; int thr = -1; };
namespace evfake {
struct Sleeper { int64_t due; std::condition_variable* cv; };
static std::mutex* mu = new std::mutex; static std::list<Sleeper*> sleepers; static std::list<event_base*> bases; static int64_t vnow; static uint64_t orders;
Hooks& hooks() { static Hooks h; return h; }
void reset() { mu = new std::mutex; sleepers.clear(); bases.clear(); vnow = 0; }
int64_t now() { return vnow; }
static bool ready(event* e) { pollfd p{e->fd, POLLIN, 0}; return e->added && e->fd >= 0 && (e->what & EV_READ) && ::poll(&p, 1, 0) == 1 && (p.revents & POLLIN); }
static bool anyReady(event_base* b) { for (auto* e : b->evs) if (ready(e)) return true; return false; }
// wait until notified or until time gets to due; whoever times out moves the time to the earliest of all deadlines
static void doze(std::unique_lock<std::mutex>& g, std::condition_variable& cv, int64_t due) {
    Sleeper s{due, &cv}; sleepers.push_back(&s);
    timespec ts{}; bool timeout = pthread_cond_timedwait(cv.native_handle(), mu->native_handle(), &ts) == ETIMEDOUT;   // the scheduler decides
    if (timeout) {
        int64_t t = due; for (auto* x : sleepers) t = std::min(t, x->due);
        if (t > vnow) {
            std::vector<int> idle; for (auto* b : bases) if (b->waiting && !anyReady(b)) idle.push_back(b->thr);
            vnow = t; if (hooks().tick) hooks().tick(t, idle);
        }
        for (auto* x : sleepers) if (x != &s && x->due <= vnow) x->cv->notify_all();
    }
    sleepers.remove(&s);
}
void sleepUntil(int64_t us) { std::unique_lock<std::mutex> g(*mu); std::condition_variable cv; while (vnow < us) doze(g, cv, us); }
}
using namespace evfake;
extern "C" {
event_base* event_base_new() { std::lock_guard<std::mutex> g(*mu); auto* b = new event_base; bases.push_back(b); return b; }
void event_base_free(event_base* b) { std::lock_guard<std::mutex> g(*mu); bases.remove(b); delete b; }
event* event_new(event_base* b, int fd, short what, event_callback_fn cb, void* arg) { return new event{b, fd, what, cb, arg}; }
int event_del(event* e) { std::lock_guard<std::mutex> g(*mu); if (e->added) { e->b->evs.remove(e); e->added = false; } e->due = -1; return 0; }
void event_free(event* e) { event_del(e); delete e; }
int event_add(event* e, const timeval* tv) {
    std::lock_guard<std::mutex> g(*mu);
    if (!e->added) { e->b->evs.push_back(e); e->added = true; }
    e->order = ++orders;
    if (tv) { e->period = int64_t(tv->tv_sec) * 1000000 + tv->tv_usec; e->due = vnow + e->period; if (!(e->what & EV_PERSIST)) e->period = 0; }
    if (e->b->waiting) e->b->cv.notify_all();
    return 0;
}
int event_base_loopexit(event_base* b, const timeval* tv) { std::lock_guard<std::mutex> g(*mu); (void)tv; b->exit = true; b->cv.notify_all(); return 0; }
int event_base_loopbreak(event_base* b) { return event_base_loopexit(b, nullptr); }
int event_base_dispatch(event_base* b) {
    std::unique_lock<std::mutex> g(*mu);
    b->thr = sched::self(); b->exit = false;
    while (!b->exit) {
        if (b->evs.empty()) return 1;
        bool did = false;
        std::vector<event*> act;
        for (auto* e : b->evs) if (ready(e)) act.push_back(e);
        for (auto* e : act) {
            if (std::find(b->evs.begin(), b->evs.end(), e) == b->evs.end()) continue;
            if (!(e->what & EV_PERSIST)) { b->evs.remove(e); e->added = false; }
            did = true; g.unlock(); e->cb(e->fd, EV_READ, e->arg); g.lock();
        }
        // what is due now, in the order of the deadlines; timers added meanwhile wait for the next turn
        int64_t t = vnow; std::vector<event*> due;
        for (auto* e : b->evs) if (e->due >= 0 && e->due <= t) due.push_back(e);
        std::stable_sort(due.begin(), due.end(), [](event* x, event* y) { return x->due < y->due; });
        for (auto* e : due) {
            if (std::find(b->evs.begin(), b->evs.end(), e) == b->evs.end() || e->due < 0 || e->due > t) continue;
            if (e->period > 0) { e->due += e->period; if (e->due < vnow) e->due = vnow + e->period; } else { e->due = -1; }
            did = true; g.unlock(); e->cb(-1, EV_TIMEOUT, e->arg); g.lock();
        }
        if (did || b->exit || anyReady(b)) continue;
        int64_t next = -1; for (auto* e : b->evs) if (e->due >= 0 && (next < 0 || e->due < next)) next = e->due;
        if (next >= 0 && next <= vnow) continue;
        b->waiting = true; if (hooks().idle) hooks().idle();
        if (next < 0) b->cv.wait(g); else doze(g, b->cv, next);
        b->waiting = false;
    }
    b->exit = false;
    return 0;
}
// a write to an eventfd wakes the loop that polls it
ssize_t __real_write(int fd, const void* p, size_t n);
ssize_t __wrap_write(int fd, const void* p, size_t n) {
    if (sched::self() < 0) return __real_write(fd, p, n);
    std::lock_guard<std::mutex> g(*mu);
    auto r = __real_write(fd, p, n);
    for (auto* b : bases) if (b->waiting) for (auto* e : b->evs) if (e->fd == fd) { b->cv.notify_all(); break; }
    return r;
}
}
