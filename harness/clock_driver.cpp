// Duration, WallClock and SlowOpTracker over virtual time: the clock and sleep functions
// are interposed, and the processor's tick counter traps (PR_SET_TSC) and is emulated.
#include "common/base/Base.h"
#include "common/time/Duration.h"
#include "common/time/WallClock.h"
#include "common/base/SlowOpTracker.h"
#include "drv.h"
#include <signal.h>
#include <sys/prctl.h>
#include <sys/time.h>
#include <ucontext.h>
#include <dlfcn.h>
#include <sys/syscall.h>
#include <unistd.h>
typedef unsigned __int128 u128;
static volatile bool virt = false;
static volatile uint64_t nowNs = 0;                 // virtual nanoseconds since the start
static uint64_t wallNs0 = 0, monoNs0 = 0, tick0 = 0, khz = 1000000;
static uint64_t tsc() { return tick0 + static_cast<uint64_t>(static_cast<u128>(nowNs) * khz / 1000000); }
static void onTrap(int, siginfo_t*, void* u) {
    auto* c = static_cast<ucontext_t*>(u);
    auto* ip = reinterpret_cast<unsigned char*>(c->uc_mcontext.gregs[REG_RIP]);
    int n = 0;
    if (ip[0] == 0x0f && ip[1] == 0x31) n = 2;
    else if (ip[0] == 0x0f && ip[1] == 0x01 && ip[2] == 0xf9) { n = 3; c->uc_mcontext.gregs[REG_RCX] = 0; }
    else { signal(SIGSEGV, SIG_DFL); return; }
    uint64_t t = tsc();
    c->uc_mcontext.gregs[REG_RAX] = t & 0xffffffffu;
    c->uc_mcontext.gregs[REG_RDX] = t >> 32;
    c->uc_mcontext.gregs[REG_RIP] += n;
}
static std::mutex mu;
static std::condition_variable cv;
static uint64_t wakeAt = 0;                         // of the one background sleeper
static int sleepers = 0;
static std::thread::id mainThread;
static void vsleep(uint64_t ns) {
    if (std::this_thread::get_id() == mainThread) { nowNs = nowNs + ns; return; }
    std::unique_lock<std::mutex> l(mu);
    wakeAt = nowNs + ns;
    ++sleepers;
    cv.notify_all();
    cv.wait(l, [] { return nowNs >= wakeAt; });
    --sleepers;
}
extern "C" {
int clock_gettime(clockid_t id, struct timespec* ts) {
    if (!virt) { static auto real = reinterpret_cast<int (*)(clockid_t, struct timespec*)>(dlsym(RTLD_NEXT, "clock_gettime")); return real(id, ts); }
    uint64_t t = nowNs + (id == CLOCK_REALTIME || id == CLOCK_REALTIME_COARSE ? wallNs0 : monoNs0);
    ts->tv_sec = t / 1000000000; ts->tv_nsec = t % 1000000000;
    return 0;
}
int gettimeofday(struct timeval* tv, void*) { struct timespec ts; clock_gettime(CLOCK_REALTIME, &ts); tv->tv_sec = ts.tv_sec; tv->tv_usec = ts.tv_nsec / 1000; return 0; }
time_t time(time_t* o) { struct timespec ts; clock_gettime(CLOCK_REALTIME, &ts); if (o) *o = ts.tv_sec; return ts.tv_sec; }
unsigned sleep(unsigned s) { vsleep(s * 1000000000ull); return 0; }
int usleep(useconds_t u) { vsleep(u * 1000ull); return 0; }
int nanosleep(const struct timespec* t, struct timespec*) { vsleep(t->tv_sec * 1000000000ull + t->tv_nsec); return 0; }
int clock_nanosleep(clockid_t id, int flags, const struct timespec* t, struct timespec*) {
    uint64_t ns = t->tv_sec * 1000000000ull + t->tv_nsec;
    if (flags & TIMER_ABSTIME) { uint64_t at = nowNs + (id == CLOCK_REALTIME ? wallNs0 : monoNs0); ns = ns > at ? ns - at : 0; }
    vsleep(ns);
    return 0;
}
}
static void settle(bool first) {                     // let the background thread go back to sleep
    std::unique_lock<std::mutex> l(mu);
    if (first) { auto t0 = std::chrono::milliseconds(0); while (!sleepers && t0.count() < 2000) { l.unlock(); for (int i = 0; i < 100; ++i) sched_yield(); { long ts[2] = {0, 1000000}; syscall(SYS_nanosleep, ts, nullptr); } l.lock(); t0 += std::chrono::milliseconds(1); } return; }
    if (!sleepers) return;
    if (nowNs >= wakeAt) { cv.notify_all(); cv.wait(l, [] { return sleepers && wakeAt > nowNs; }); }
}
static void advance(uint64_t ns, bool fine) {
    uint64_t end = nowNs + ns;
    if (fine) while (sleepers && wakeAt < end) { { std::lock_guard<std::mutex> g(mu); if (nowNs < wakeAt) nowNs = wakeAt; } settle(false); }
    { std::lock_guard<std::mutex> g(mu); nowNs = end; }
    settle(false);
}
struct Sink : google::LogSink { std::string last; void send(google::LogSeverity, const char*, const char*, int, const struct ::tm*, const char* m, size_t n) override { last.assign(m, n); } };
static Sink sink;
static std::string split(uint64_t v, uint64_t per) { if (v / per > 2000000000) return "{\"s\":2000000000,\"x\":0}"; return "{\"s\":" + std::to_string(v / per) + ",\"x\":" + std::to_string(v % per) + "}"; }
static std::string sec(uint64_t v) { return std::to_string(std::min<uint64_t>(v, 2000000000)); }
using nebula::time::Duration; using nebula::time::WallClock;
int main(int, char** v) {   // kHz, first tick, wall ns
    google::InitGoogleLogging("x"); google::AddLogSink(&sink); FLAGS_logtostderr = true; FLAGS_stderrthreshold = 3; FLAGS_minloglevel = 0;
    LOG(INFO) << "warm-up";
    mainThread = std::this_thread::get_id();
    khz = std::stoull(v[1]); tick0 = std::stoull(v[2]); wallNs0 = std::stoull(v[3]); monoNs0 = 777000000123ull;
    struct sigaction a; memset(&a, 0, sizeof a); a.sa_sigaction = onTrap; a.sa_flags = SA_SIGINFO | SA_NODEFER;
    sigaction(SIGSEGV, &a, nullptr);
    if (prctl(PR_SET_TSC, PR_TSC_SIGSEGV, 0, 0, 0)) return 77;
    virt = true;
    WallClock::fastNowInSec();
    settle(true);
    uint64_t base = nowNs;
    std::map<std::string, std::unique_ptr<Duration>> w;
    std::map<std::string, std::unique_ptr<nebula::SlowOpTracker>> tr;
    int rc = drv::loop([&](const std::vector<std::string>& c) -> std::string {
        auto& o = c[0];
        if (o == "reset") { w.clear(); tr.clear(); return "{}"; }
        if (o == "start") {
            base = nowNs;
            uint64_t t = wallNs0 + nowNs;
            return "{\"wall\":{\"s\":" + std::to_string(t / 1000000000) + ",\"u\":" + std::to_string(t % 1000000000 / 1000) + "}}";
        }
        if (o == "tick") { advance(std::stoull(c[1]) * 1000000000ull + std::stoull(c[2]) * 1000ull, c[3] == "fine"); return "{}"; }
        if (o == "new") { w[c[1]].reset(c[2] == "default" ? new Duration() : new Duration(c[2] == "1")); return "{}"; }
        if (o == "rst") { if (c[2] == "default") w[c[1]]->reset(); else w[c[1]]->reset(c[2] == "1"); return "{}"; }
        if (o == "pause") { w[c[1]]->pause(); return "{}"; }
        if (o == "resume") { w[c[1]]->resume(); return "{}"; }
        if (o == "copy") { w[c[1]].reset(new Duration(*w[c[2]])); return "{}"; }
        if (o == "read") { const Duration& d = *w[c[1]]; return drv::Obj().boolean("paused", d.isPaused()).raw("sec", sec(d.elapsedInSec())).raw("msec", split(d.elapsedInMSec(), 1000)).raw("usec", split(d.elapsedInUSec(), 1000000)).done(); }
        if (o == "slow") return drv::Obj().raw("sec", sec(WallClock::slowNowInSec())).raw("msec", split(WallClock::slowNowInMilliSec(), 1000)).raw("usec", split(WallClock::slowNowInMicroSec(), 1000000)).done();
        if (o == "fast") return drv::Obj().raw("sec", sec(WallClock::fastNowInSec())).raw("msec", split(WallClock::fastNowInMilliSec(), 1000)).raw("usec", split(WallClock::fastNowInMicroSec(), 1000000)).done();
        if (o == "warp") { tick0 -= std::stoull(c[1]) * khz / 1000; return "{}"; }
        if (o == "track") { tr[c[1]].reset(new nebula::SlowOpTracker()); return "{}"; }
        if (o == "isslow") {
            FLAGS_slow_op_threshhold_ms = std::stoll(c[3]);
            bool r = c[2] == "0" ? tr[c[1]]->slow() : tr[c[1]]->slow(std::stoll(c[2]));
            sink.last.clear();
            tr[c[1]]->output("Op ", "tail");
            unsigned long long ms = 0; int used = 0;
            bool ok = sscanf(sink.last.c_str(), "Op total time:%llums, tail%n", &ms, &used) == 1 && used == static_cast<int>(sink.last.size());
            return drv::Obj().boolean("res", r).raw("dur", ok ? split(ms, 1000) : "{\"s\":-1,\"x\":0}").str("msg", sink.last).done();
        }
        abort();
    });
    std::cout << std::flush;
    _exit(rc);              // the calibrating thread never ends
}
