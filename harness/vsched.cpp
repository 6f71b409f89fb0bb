#include "vsched.h"
#include <dlfcn.h>
#include <errno.h>
#include <pthread.h>
#include <semaphore.h>
#include <time.h>
#include <unistd.h>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <memory>
#include <random>
#include <set>
extern "C" { extern char __executable_start; extern char etext; }
namespace sched {
namespace {
enum St { READY, MUTEX, RDLOCK, WRLOCK, CV, HELD, DONE, SLEEP, JOIN };
struct Th {
    int id = 0; sem_t sem; St st = DONE; void* obj = nullptr; void* mtx = nullptr;
    bool timed = false, timedout = false; int depth = 1;
    std::function<void()> body; pthread_t pt;
    uint64_t prio = 0; Th* joining = nullptr; void* (*fn)(void*) = nullptr; void* arg = nullptr; bool detached = false;
};
struct Mx { int owner = -1; int depth = 0; };
struct Rw { int writer = -1; std::multiset<int> readers; };
struct Choice { int chosen; std::vector<int> cost; };
thread_local Th* me = nullptr;
thread_local int quietly = 0;            // > 0: no scheduling points (harness code)
std::vector<Th*> ths;                    // threads of this execution
std::vector<Th*> pool;                   // idle workers
std::map<void*, Mx> mxs;
std::map<void*, Rw> rws;
std::vector<Choice> path;
size_t pos, steps, npoints, streak; void* lastRun;
int spuriousLeft, timeoutsLeft;
int lagId, lagBlocks;
bool lagging;
int prioMode;
bool randomMode, running = false, stuckRun, allDone;
std::mt19937_64 rng;
Options opt;
const Program* prog;
sem_t finished;
int64_t vt;
size_t lastBlocked;
const char* wlo; const char* whi;

struct Opt { Th* th; int kind; int cost; };   // kind 0 run, 1 spurious wake-up, 2 time-out

bool runnable(Th* t) {
    switch (t->st) {
        case READY: case SLEEP: return true;
        case MUTEX: return mxs[t->obj].owner < 0;
        case RDLOCK: return rws[t->obj].writer < 0;
        case WRLOCK: return rws[t->obj].writer < 0 && rws[t->obj].readers.empty();
        case JOIN: return t->joining->st == DONE;
        default: return false;
    }
}
void grant(Th* t) {
    switch (t->st) {
        case MUTEX: { auto& m = mxs[t->obj]; m.owner = t->id; m.depth = t->depth; break; }
        case RDLOCK: rws[t->obj].readers.insert(t->id); break;
        case WRLOCK: rws[t->obj].writer = t->id; break;
        default: break;
    }
    t->st = READY;
}
// Choose who goes on; nullptr: the execution is over (or stuck).
Th* pick(Th* cur) {
    for (;;) {
        std::vector<Opt> os;
        bool curOn = cur && runnable(cur) && cur->st != SLEEP;
        // a thread spinning on memory lets the others go on
        bool spin = curOn && cur->st == READY && streak > 400;
        if (spin) { for (auto* t : ths) if (t != cur && t->st != SLEEP && runnable(t)) { cur->st = SLEEP; curOn = false; break; } streak = 0; }
        if (curOn) os.push_back({cur, 0, 0});
        bool any = curOn;
        for (auto* t : ths) if (t != cur && t->st != SLEEP && runnable(t)) { os.push_back({t, 0, curOn ? 1 : 0}); any = true; }
        for (auto* t : ths) if (t->st == SLEEP) os.push_back({t, 0, any ? 1 : 0});
        any = !os.empty();
        for (auto* t : ths) if (t->st == CV && t->timed) {
            if (!any) os.push_back({t, 2, 0}); else if (timeoutsLeft > 0) os.push_back({t, 2, 1});
        }
        any = !os.empty();
        if (any && spuriousLeft > 0) for (auto* t : ths) if (t->st == CV) os.push_back({t, 1, 1});
        if (os.empty()) {
            std::vector<int> blocked; Th* h = nullptr;
            for (auto* t : ths) { if (t->st == HELD) { if (!h) h = t; } else if (t->st != DONE) blocked.push_back(t->id); }
            if (blocked.empty() && !h) { allDone = true; return nullptr; }
            lastBlocked = blocked.size();
            ++quietly; if (prog->quiet) prog->quiet(blocked); --quietly;
            if (h) { h->st = READY; continue; }
            stuckRun = true;
            return nullptr;
        }
        if (++steps > opt.maxSteps) { stuckRun = true; return nullptr; }
        size_t k = 0;
        if (os.size() > 1) {
            ++npoints;
            if (randomMode && prioMode == 2) {
                // one thread runs first until it blocks, then only when nobody else can
                if (cur && cur->id == lagId && !runnable(cur) && --lagBlocks <= 0) lagging = true;
                std::vector<size_t> mine, others;
                for (size_t i = 0; i < os.size(); ++i) if (os[i].kind == 0) (os[i].th->id == lagId ? mine : others).push_back(i);
                auto& a = lagging ? others : mine; auto& b = lagging ? mine : others;
                auto& use = a.empty() ? b : a;
                if (!use.empty()) k = use[0] == 0 && rng() % 4 ? 0 : use[rng() % use.size()];
            } else if (randomMode && prioMode == 1) {
                // strict random priorities, redrawn now and then: starves threads for long
                if (cur && (cur->st != READY ? rng() % 2 == 0 : rng() % 64 == 0)) cur->prio = rng();
                bool first = true;
                for (size_t i = 0; i < os.size(); ++i) {
                    if (os[i].kind ? rng() % 16 != 0 && (i || os.size() > 1) : false) continue;
                    if (first || os[i].th->prio > os[k].th->prio) { k = i; first = false; }
                }
            } else if (randomMode) {
                std::vector<size_t> ok;
                for (size_t i = 0; i < os.size(); ++i) if (os[i].kind == 0 || rng() % 6 == 0) ok.push_back(i);
                if (ok.empty()) ok.push_back(0);
                k = (curOn && rng() % 3) ? 0 : ok[rng() % ok.size()];
            } else {
                if (pos < path.size()) k = path[pos].chosen;
                else { Choice c; c.chosen = 0; for (auto& o : os) c.cost.push_back(o.cost); path.push_back(c); }
                if (k >= os.size()) { fprintf(stderr, "sched: nondeterministic replay\n"); _exit(97); }
                ++pos;
            }
        }
        Opt o = os[k];
        if (o.kind == 1) --spuriousLeft;
        if (o.kind == 2 && o.cost) --timeoutsLeft;
        if (o.kind) { o.th->timedout = o.kind == 2; o.th->st = MUTEX; o.th->obj = o.th->mtx; continue; }
        grant(o.th);
        if (o.th == lastRun) ++streak; else { lastRun = o.th; streak = 0; }
        return o.th;
    }
}
void reschedule(Th* cur) {
    Th* t = pick(cur);
    if (t == cur) return;
    bool over = cur->st == DONE;
    if (t) sem_post(&t->sem); else sem_post(&finished);
    if (over) return;
    while (sem_wait(&cur->sem) != 0) {}
}
bool on() { return me && !quietly && running; }
void* worker(void* p) {
    Th* t = static_cast<Th*>(p);
    for (;;) {
        while (sem_wait(&t->sem) != 0) {}
        me = t;
        t->body();
        ++quietly; t->body = nullptr; --quietly;
        t->st = DONE;
        me = nullptr;
        reschedule(t);
    }
    return nullptr;
}
typedef int (*create_t)(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*);
create_t realCreate() { static create_t f = reinterpret_cast<create_t>(dlsym(RTLD_NEXT, "pthread_create")); return f; }
Th* fresh() {
    if (!pool.empty()) { Th* t = pool.back(); pool.pop_back(); return t; }
    Th* t = new Th; sem_init(&t->sem, 0, 0);
    pthread_attr_t a; pthread_attr_init(&a); pthread_attr_setstacksize(&a, 512 << 10);
    realCreate()(&t->pt, &a, worker, t);
    pthread_attr_destroy(&a);
    return t;
}
void once() {
    pos = steps = npoints = streak = 0; lastRun = nullptr; spuriousLeft = opt.spurious; timeoutsLeft = opt.timeouts; stuckRun = allDone = false; vt = 0;
    mxs.clear(); rws.clear(); ths.clear();
    auto bodies = prog->bodies();
    auto held = prog->held ? prog->held() : std::vector<std::function<void()>>();
    int id = 0;
    for (auto& b : bodies) { Th* t = fresh(); t->id = id++; t->st = READY; t->prio = rng(); t->body = std::move(b); t->detached = false; t->fn = nullptr; ths.push_back(t); }
    for (auto& b : held) { Th* t = fresh(); t->id = id++; t->st = HELD; t->prio = rng(); t->body = std::move(b); t->detached = false; t->fn = nullptr; ths.push_back(t); }
    running = true;
    Th* t = pick(nullptr);
    if (t) { sem_post(&t->sem); while (sem_wait(&finished) != 0) {} }
    running = false;
    bool st = stuckRun;
    if (!st) for (auto* x : ths) pool.push_back(x);     // the threads of a stuck run stay parked
    ths.clear();
    wlo = whi = nullptr;
    if (prog->done) prog->done(st);
}
// Advance the depth-first path to the next one within the budget.
bool advance() {
    while (!path.empty()) {
        Choice& c = path.back();
        int used = 0;
        for (size_t i = 0; i + 1 < path.size(); ++i) used += path[i].cost[path[i].chosen];
        int k = c.chosen + 1;
        while (k < static_cast<int>(c.cost.size()) && used + c.cost[k] > opt.deviations) ++k;
        if (k < static_cast<int>(c.cost.size())) { c.chosen = k; return true; }
        path.pop_back();
    }
    return false;
}
}  // namespace

int self() { return me ? me->id : -1; }
int64_t vtime() { return vt; }
size_t blockedCount() { return lastBlocked; }
void watch(const void* p, size_t n) { wlo = static_cast<const char*>(p); whi = wlo + n; }
void unwatch() { wlo = whi = nullptr; }
void point() { if (on()) reschedule(me); }
static void access(const void* p) { if (p >= wlo && p < whi && on()) reschedule(me); }

Result explore(const Program& p, const Options& o) {
    static bool inited = false; if (!inited) { sem_init(&finished, 0, 0); inited = true; }
    prog = &p; opt = o; Result r; path.clear(); randomMode = false;
    if (o.maxRuns) for (;;) {
        size_t keep = path.size(); (void)keep;
        once();
        ++r.runs; r.stuck += stuckRun; if (npoints > r.maxPoints) r.maxPoints = npoints;
        path.resize(pos);
        if (r.stuck > 200 || r.runs >= o.maxRuns) break;
        if (!advance()) { r.exhausted = true; break; }
    }
    randomMode = true; rng.seed(o.seed);
    for (size_t i = 0; i < o.randomRuns && r.stuck <= 200; ++i) { prioMode = i % 3; lagging = false; lagId = rng() % 4; lagBlocks = 1 + rng() % 2; once(); ++r.runs; r.stuck += stuckRun; if (npoints > r.maxPoints) r.maxPoints = npoints; }
    return r;
}

// ---------------------------------------------------------------- interposition
template <class F> static F real(const char* n, F) {
    return reinterpret_cast<F>(dlsym(RTLD_NEXT, n));
}
#define REAL(n) static auto real_##n = real(#n, &n)
static bool ours(void* ra) { return ra >= static_cast<void*>(&__executable_start) && ra < static_cast<void*>(&etext); }
#define MANAGED() (on() && ours(__builtin_return_address(0)))

static bool recursive(pthread_mutex_t* m) { return (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE_NP; }
static int lockv(pthread_mutex_t* m) {
    auto& x = mxs[m];
    if (x.owner == me->id) { if (recursive(m)) { ++x.depth; return 0; } }
    me->st = MUTEX; me->obj = m; me->depth = 1;
    reschedule(me);
    return 0;
}
static void unlockv(pthread_mutex_t* m) {
    auto& x = mxs[m];
    if (x.owner == me->id && --x.depth > 0) return;
    x.owner = -1; x.depth = 0;
    reschedule(me);
}
static int cvwait(pthread_cond_t* c, pthread_mutex_t* m, bool timed) {
    auto& x = mxs[m]; int d = x.depth; x.owner = -1; x.depth = 0;
    me->st = CV; me->obj = c; me->mtx = m; me->timed = timed; me->timedout = false; me->depth = d > 0 ? d : 1;
    reschedule(me);
    return me->timedout ? ETIMEDOUT : 0;
}
static void wake(pthread_cond_t* c, bool all) {
    for (auto* t : ths) if (t->st == CV && t->obj == c) { t->st = MUTEX; t->obj = t->mtx; t->timedout = false; if (!all) break; }
    reschedule(me);
}
static int rd(pthread_rwlock_t* l) { me->st = RDLOCK; me->obj = l; reschedule(me); return 0; }
static int wr(pthread_rwlock_t* l) { me->st = WRLOCK; me->obj = l; reschedule(me); return 0; }
static int rwun(pthread_rwlock_t* l) {
    auto& x = rws[l];
    if (x.writer == me->id) x.writer = -1; else { auto i = x.readers.find(me->id); if (i != x.readers.end()) x.readers.erase(i); }
    reschedule(me); return 0;
}
static int naps() { me->st = SLEEP; reschedule(me); return 0; }
}  // namespace sched
using namespace sched;
extern "C" {
int pthread_mutex_lock(pthread_mutex_t* m) { if (MANAGED()) return lockv(m); REAL(pthread_mutex_lock); return real_pthread_mutex_lock(m); }
int pthread_mutex_trylock(pthread_mutex_t* m) {
    if (MANAGED()) { reschedule(me); auto& x = mxs[m]; if (x.owner == me->id && recursive(m)) { ++x.depth; return 0; } if (x.owner >= 0) return EBUSY; x.owner = me->id; x.depth = 1; return 0; }
    REAL(pthread_mutex_trylock); return real_pthread_mutex_trylock(m);
}
int pthread_mutex_unlock(pthread_mutex_t* m) { if (MANAGED()) { unlockv(m); return 0; } REAL(pthread_mutex_unlock); return real_pthread_mutex_unlock(m); }
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) { if (on()) return cvwait(c, m, false); REAL(pthread_cond_wait); return real_pthread_cond_wait(c, m); }
int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec* t) { if (on()) return cvwait(c, m, true); REAL(pthread_cond_timedwait); return real_pthread_cond_timedwait(c, m, t); }
int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t k, const struct timespec* t) { if (on()) return cvwait(c, m, true); REAL(pthread_cond_clockwait); return real_pthread_cond_clockwait(c, m, k, t); }
int pthread_cond_signal(pthread_cond_t* c) { if (on()) { wake(c, false); return 0; } REAL(pthread_cond_signal); return real_pthread_cond_signal(c); }
int pthread_cond_broadcast(pthread_cond_t* c) { if (on()) { wake(c, true); return 0; } REAL(pthread_cond_broadcast); return real_pthread_cond_broadcast(c); }
int pthread_rwlock_rdlock(pthread_rwlock_t* l) { if (MANAGED()) return rd(l); REAL(pthread_rwlock_rdlock); return real_pthread_rwlock_rdlock(l); }
int pthread_rwlock_wrlock(pthread_rwlock_t* l) { if (MANAGED()) return wr(l); REAL(pthread_rwlock_wrlock); return real_pthread_rwlock_wrlock(l); }
int pthread_rwlock_unlock(pthread_rwlock_t* l) { if (MANAGED()) return rwun(l); REAL(pthread_rwlock_unlock); return real_pthread_rwlock_unlock(l); }
int pthread_rwlock_tryrdlock(pthread_rwlock_t* l) { if (MANAGED()) { reschedule(me); auto& x = rws[l]; if (x.writer >= 0) return EBUSY; x.readers.insert(me->id); return 0; } REAL(pthread_rwlock_tryrdlock); return real_pthread_rwlock_tryrdlock(l); }
int pthread_rwlock_trywrlock(pthread_rwlock_t* l) { if (MANAGED()) { reschedule(me); auto& x = rws[l]; if (x.writer >= 0 || !x.readers.empty()) return EBUSY; x.writer = me->id; return 0; } REAL(pthread_rwlock_trywrlock); return real_pthread_rwlock_trywrlock(l); }
int sched_yield() { if (on()) return naps(); REAL(sched_yield); return real_sched_yield(); }
int usleep(useconds_t u) { if (on()) { vt += int64_t(u) * 1000; return naps(); } REAL(usleep); return real_usleep(u); }
int nanosleep(const struct timespec* a, struct timespec* b) { if (on()) { vt += a->tv_sec * 1000000000LL + a->tv_nsec; return naps(); } REAL(nanosleep); return real_nanosleep(a, b); }
int clock_nanosleep(clockid_t k, int f, const struct timespec* a, struct timespec* b) { if (on()) { return naps(); } REAL(clock_nanosleep); return real_clock_nanosleep(k, f, a, b); }
int pthread_create(pthread_t* p, const pthread_attr_t* a, void* (*f)(void*), void* arg) {
    if (!on()) return realCreate()(p, a, f, arg);
    Th* t = fresh(); t->id = static_cast<int>(ths.size()); t->st = READY; t->detached = false;
    t->body = [f, arg] { f(arg); };
    ths.push_back(t); *p = t->pt;
    reschedule(me);
    return 0;
}
int pthread_join(pthread_t p, void** r) {
    if (on()) {
        // a pooled worker may appear twice in one execution only after it was joined
        for (auto it = ths.rbegin(); it != ths.rend(); ++it) if (pthread_equal((*it)->pt, p)) { if (r) *r = nullptr; me->st = JOIN; me->joining = *it; reschedule(me); return 0; }
    }
    REAL(pthread_join); return real_pthread_join(p, r);
}
int pthread_detach(pthread_t p) { if (on()) for (auto* t : ths) if (pthread_equal(t->pt, p)) return 0; REAL(pthread_detach); return real_pthread_detach(p); }

// ------------------------------------------------ the runtime -fsanitize=thread calls
#define ACC(n) void __tsan_read##n(void* p) { sched::access(p); } void __tsan_write##n(void* p) { sched::access(p); } \
    void __tsan_unaligned_read##n(void* p) { sched::access(p); } void __tsan_unaligned_write##n(void* p) { sched::access(p); } \
    void __tsan_volatile_read##n(void* p) { sched::access(p); } void __tsan_volatile_write##n(void* p) { sched::access(p); } \
    void __tsan_read##n##_pc(void* p, void*) { sched::access(p); } void __tsan_write##n##_pc(void* p, void*) { sched::access(p); }
ACC(1) ACC(2) ACC(4) ACC(8) ACC(16)
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
void __tsan_read_range(void* p, unsigned long) { sched::access(p); }
void __tsan_write_range(void* p, unsigned long) { sched::access(p); }
void __tsan_vptr_update(void** p, void*) { sched::access(p); }
void __tsan_vptr_read(void** p) { sched::access(p); }
void __tsan_atomic_thread_fence(int) {}
void __tsan_atomic_signal_fence(int) {}
#define AT(bits, T) \
    T __tsan_atomic##bits##_load(const volatile T* a, int) { sched::access(const_cast<const T*>(a)); return __atomic_load_n(a, __ATOMIC_SEQ_CST); } \
    void __tsan_atomic##bits##_store(volatile T* a, T v, int) { sched::access(const_cast<const T*>(a)); __atomic_store_n(a, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##bits##_exchange(volatile T* a, T v, int) { sched::access(const_cast<const T*>(a)); return __atomic_exchange_n(a, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##bits##_fetch_add(volatile T* a, T v, int) { sched::access(const_cast<const T*>(a)); return __atomic_fetch_add(a, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##bits##_fetch_sub(volatile T* a, T v, int) { sched::access(const_cast<const T*>(a)); return __atomic_fetch_sub(a, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##bits##_fetch_and(volatile T* a, T v, int) { sched::access(const_cast<const T*>(a)); return __atomic_fetch_and(a, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##bits##_fetch_or(volatile T* a, T v, int) { sched::access(const_cast<const T*>(a)); return __atomic_fetch_or(a, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##bits##_fetch_xor(volatile T* a, T v, int) { sched::access(const_cast<const T*>(a)); return __atomic_fetch_xor(a, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##bits##_fetch_nand(volatile T* a, T v, int) { sched::access(const_cast<const T*>(a)); return __atomic_fetch_nand(a, v, __ATOMIC_SEQ_CST); } \
    int __tsan_atomic##bits##_compare_exchange_strong(volatile T* a, T* c, T v, int, int) { sched::access(const_cast<const T*>(a)); return __atomic_compare_exchange_n(a, c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
    int __tsan_atomic##bits##_compare_exchange_weak(volatile T* a, T* c, T v, int, int) { sched::access(const_cast<const T*>(a)); return __atomic_compare_exchange_n(a, c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##bits##_compare_exchange_val(volatile T* a, T c, T v, int, int) { sched::access(const_cast<const T*>(a)); __atomic_compare_exchange_n(a, &c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); return c; }
AT(8, unsigned char) AT(16, unsigned short) AT(32, unsigned int) AT(64, unsigned long)
}
