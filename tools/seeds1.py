from mkseed import mkseed, demo
mkseed("latch-spurious", "C02", [("concurrent/Latch.cpp", "        return;\n    }\n    cond_.wait(unique, [this] () { return counter_ == 0; });", "        return;\n    }\n    cond_.wait(unique);")],
 "a spurious wake-up of a thread blocked in downWait while the count is still above zero", "downWait returns before all events have happened",
 {"demo.sh": demo(), "demo.cpp": r'''
#include <pthread.h>
#include <atomic>
#include <thread>
#include <unistd.h>
#include <dlfcn.h>
#include "common/concurrent/Latch.h"
static thread_local int spurious = 0;
// a wait that may, as POSIX allows, wake up for no reason
void std::condition_variable::wait(std::unique_lock<std::mutex>& l) noexcept {
    if (spurious > 0) { spurious--; l.unlock(); usleep(1000); l.lock(); return; }
    l.unlock(); usleep(1000); l.lock();
}
int main() {
    nebula::concurrent::Latch latch(2);
    std::atomic<bool> second{false}; bool early = false;
    std::thread t([&] { spurious = 3; latch.downWait(); early = !second; });
    usleep(200000);
    second = true; latch.down();
    t.join();
    return early ? 1 : 0;
}
'''})
mkseed("latch-count32", "C02", [("concurrent/Latch.h", "    volatile size_t         counter_{0};", "    volatile uint32_t       counter_{0};")],
 "an initial count of 2^32 or more", "the count is cut to 32 bits, so the latch opens early",
 {"demo.sh": demo(), "demo.cpp": r'''
#include "common/concurrent/Latch.h"
int main() { nebula::concurrent::Latch l((1ULL << 32) + 1); l.down(); return l.isReady() ? 1 : 0; }
'''})
mkseed("barrier-parity", "C03", [("concurrent/Barrier.cpp", "++generation_;", "generation_ ^= 1;")],
 "more threads than parties, and two further rounds completing before a waiter of an earlier round is scheduled", "the waiter of the earlier round takes the round as still open and stays blocked: a lost wake-up",
 {"demo.sh": demo(), "demo.cpp": r'''
#include <condition_variable>
#include <thread>
#include <vector>
#include <unistd.h>
#include "common/concurrent/Barrier.h"
// a condition variable on which the thread called slow sleeps long enough to miss a few rounds
static thread_local bool slow = false;
void std::condition_variable::wait(std::unique_lock<std::mutex>& l) noexcept {
    l.unlock(); usleep(slow ? 300000 : 500); l.lock();
}
int main() {
    nebula::concurrent::Barrier b(2);
    std::thread a([&] { slow = true; b.wait(); });
    usleep(50000);
    std::thread p([&] { b.wait(); });      // releases a
    p.join();
    std::thread c([&] { b.wait(); }), d([&] { b.wait(); });   // the next round
    c.join(); d.join();
    alarm(5);                               // a has to come out now
    a.join();
    return 0;
}
'''})
mkseed("cord-full-tail", "C06", [("base/Cord.cpp", "    // Last block\n    return visitor(tail_, blockPt_);", "    // Last block\n    return visitor(tail_, len_ % blockContentSize_);")],
 "a cord whose last block is exactly full, visited block by block or appended to another cord", "the bytes of the last block are not shown to the visitor",
 {"demo.sh": demo(), "demo.cpp": r'''
#include "common/base/Cord.h"
int main() {
    for (int n = 0; n < 70; n++) {
        nebula::Cord c(16), d(16);
        std::string s(n, 'x');
        c << s; d << "ab" << c;
        if (d.str() != "ab" + s) return 1;
    }
    return 0;
}
'''})
mkseed("icord-visit-stop", "C06", [("base/ICord.h", "            if (!visitor(n, kBlockContentSize)) {\n                // stop visiting further\n                return false;\n            }\n            // Get the pointer to the next block\n            n = next(n);",
 "            bool more = visitor(n, kBlockContentSize);\n            // Get the pointer to the next block\n            n = next(n);\n            if (!more) {\n                // stop visiting further\n                return n != tail_;\n            }")],
 "a visitor that refuses a block before the one next to the last", "the visit reports success though the visitor stopped it",
 {"demo.sh": demo("", False), "demo.cpp": r'''
#include "common/base/ICord.h"
int main() {
    nebula::ICord<8> c; c << std::string(40, 'x');
    for (int stop = 1; stop <= 5; stop++) {
        int k = 0;
        if (c.applyTo([&](const char*, int32_t) { return ++k < stop; })) return 1;
        if (k != stop) return 1;
    }
    return 0;
}
'''})
mkseed("duration-paused-reset", "C08", [("time/Duration.cpp", '''#if defined(__x86_64__)
void Duration::reset(bool paused) {
    isPaused_ = paused;
    accumulated_ = 0;
    if (isPaused_) {
        startTick_ = 0;
    } else {''', '''#if defined(__x86_64__)
void Duration::reset(bool paused) {
    isPaused_ = paused;
    if (isPaused_) {
        startTick_ = 0;
    } else {
        accumulated_ = 0;''')],
 "a stop-watch that has run, is reset into the paused state and resumed", "the time before the reset is still counted",
 {"demo.sh": demo(), "demo.cpp": r'''
#include <unistd.h>
#include "common/time/Duration.h"
int main() {
    nebula::time::Duration d(false);
    usleep(300000);
    d.pause(); d.reset(true);
    d.resume();
    return d.elapsedInMSec() >= 200 ? 1 : 0;
}
'''})
mkseed("tsc-float", "C08", [("time/detail/TscHelper.h", "std::atomic<double> ticksPerMSecFactor_{0.0};", "std::atomic<float> ticksPerMSecFactor_{0.0};")],
 "a watch read in milliseconds after running for days", "the factor keeps only 24 bits, so readings of long spans are off by up to hundreds of milliseconds and disagree with the microsecond reading",
 {"demo.sh": demo(), "demo.cpp": r'''
#include <unistd.h>
#include "common/time/detail/TscHelper.h"
using nebula::time::TscHelper;
int main() {
    // about 100 days of ticks, taking the factor anew until no calibration came in between
    for (int k = 0; k < 5; k++) {
        TscHelper::readTsc();
        uint64_t ticks = 8640000ULL * 2600000000ULL + k * 999999999ULL;
        uint64_t u1 = TscHelper::ticksToDurationInUSec(ticks), m = TscHelper::ticksToDurationInMSec(ticks), u2 = TscHelper::ticksToDurationInUSec(ticks);
        if (u1 != u2) continue;
        long long diff = (long long)(u1 / 1000) - (long long)m;
        if (diff > 2 || diff < -2) return 1;
    }
    return 0;
}
'''})
dt = r'''
namespace nebula { extern const int64_t kDaysSoFar[] = {0, 31, 59, 90, 120, 151, 181, 212, 243, 273, 304, 334, 365};
extern const int64_t kLeapDaysSoFar[] = {0, 31, 60, 91, 121, 152, 182, 213, 244, 274, 305, 335, 366}; }
'''
mkseed("calendar-floor", "C09", [("time/TimeConversion.cpp", "#define DIV(a, b) ((a) / (b) - ((a) % (b) < 0))", "#define DIV(a, b) ((a) / (b))")],
 "an instant before the year 1", "dates of negative years are off by a day",
 {"demo.sh": demo(), "demo.cpp": r'''
#include "common/time/TimeConversion.h"
using namespace nebula; using time::TimeConversion;
namespace nebula { extern const int64_t kDaysSoFar[] = {0, 31, 59, 90, 120, 151, 181, 212, 243, 273, 304, 334, 365};
extern const int64_t kLeapDaysSoFar[] = {0, 31, 60, 91, 121, 152, 182, 213, 244, 274, 305, 335, 366}; }
int main() {
    for (int y = -900; y < 900; y++) for (int m = 1; m <= 12; m++) {
        DateTime d(y, m, 28, 13, 5, 6, 0);
        auto r = TimeConversion::unixSecondsToDateTime(TimeConversion::dateTimeToUnixSeconds(d));
        if (!(r == d)) return 1;
    }
    return 0;
}
''' })
mkseed("calendar-century", "C09", [("time/TimeConversion.cpp", "int a100 = (a4 + (a4 < 0)) / 25 - (a4 < 0);", "int a100 = a4 / 25 - (a4 < 0);")],
 "a date in the hundred years before certain negative century years, converted to seconds", "the seconds since the epoch are a day off",
 {"demo.sh": demo(), "demo.cpp": r'''
#include "common/time/TimeConversion.h"
using namespace nebula; using time::TimeConversion;
namespace nebula { extern const int64_t kDaysSoFar[] = {0, 31, 59, 90, 120, 151, 181, 212, 243, 273, 304, 334, 365};
extern const int64_t kLeapDaysSoFar[] = {0, 31, 60, 91, 121, 152, 182, 213, 244, 274, 305, 335, 366}; }
int main() {
    for (int y = -3000; y < 3000; y++) {
        // New Year follows New Year's Eve
        int64_t a = TimeConversion::dateTimeToUnixSeconds(DateTime(y, 12, 31, 0, 0, 0, 0)), b = TimeConversion::dateTimeToUnixSeconds(DateTime(y + 1, 1, 1, 0, 0, 0, 0));
        if (b - a != 86400) return 1;
    }
    return 0;
}
''' })
mkseed("slowop-limit", "C10", [("base/SlowOpTracker.h", "threshhold > 0 ? dur_ > threshhold : dur_", "threshhold > 0 ? dur_ >= threshhold : dur_")],
 "an operation that takes exactly as many milliseconds as the given threshold", "it is reported as slow though it did not take longer",
 {"demo.sh": demo("", False), "demo.cpp": r'''
#include <gflags/gflags.h>
#include "common/base/SlowOpTracker.h"
DEFINE_int64(slow_op_threshhold_ms, 50, "");
static int64_t now = 1000;
int64_t nebula::time::WallClock::fastNowInMilliSec() { return now; }
int main() {
    nebula::SlowOpTracker t;
    now += 20;
    if (t.slow(20) || !t.slow(19) || t.slow()) return 1;
    now += 30; if (t.slow()) return 1;
    now += 1; return t.slow() ? 0 : 1;
}
'''})
mkseed("fastclock-usec", "C10", [("time/detail/TscHelper.cpp", "    static const int64_t st = get().startRealTime_.tv_sec * 1000\n                                + get().startRealTime_.tv_nsec / 1000000;\n    return st +", "    static const int64_t st = get().startRealTime_.tv_sec * 1000\n                                + get().startRealTime_.tv_nsec / 1000000 % 512;\n    return st +")],
 "a process that first reads the clock in the second half of a second", "the fast clock in milliseconds is 512 ms behind",
 {"demo.sh": demo("", True).replace("timeout 120 ./demo", "timeout 120 ./demo || exit 1\nsleep 0.$(( (1500 - 10#$(date +%3N)) % 1000 / 100 + 1 ))\nfor i in 1 2 3 4 5 6 7 8; do ./demo || exit 1; sleep 0.21; done"),
  "demo.cpp": r'''
#include <time.h>
#include "common/time/WallClock.h"
using nebula::time::WallClock;
int main() {
    for (int i = 0; i < 5; i++) {
        long long s0 = WallClock::slowNowInMilliSec(), f = WallClock::fastNowInMilliSec(), s1 = WallClock::slowNowInMilliSec();
        if (f < s0 - 100 || f > s1 + 100) return 1;
    }
    return 0;
}
'''})
mkseed("response-pointer", "C11", [("graph/Response.h", "    if (lhs == rhs) {\n        return true;\n    } else if", "    if (lhs == rhs || rhs == nullptr) {\n        return true;\n    } else if")],
 "comparing a record with an optional part to one without it, in that order", "records that differ compare equal, and equality is not symmetric",
 {"demo.sh": demo("", False), "demo.cpp": r'''
#include "common/graph/Response.h"
int main() {
    nebula::AuthResponse a, b;
    a.errorMsg = std::make_unique<std::string>("x");
    return (a == b) || (b == a) ? 1 : 0;
}
'''})
mkseed("response-profiles", "C11", [("graph/Response.cpp", "    if (!checkPointer(profiles.get(), rhs.profiles.get())) {\n        return false;\n    }\n", "    if ((profiles == nullptr) != (rhs.profiles == nullptr) ||\n        (profiles && profiles->size() != rhs.profiles->size())) {\n        return false;\n    }\n")],
 "two plan nodes that differ only inside their profiling statistics", "they compare equal",
 {"demo.sh": demo("", True), "demo.cpp": r'''
#include "common/graph/Response.h"
int main() {
    nebula::PlanNodeDescription a, b;
    a.profiles = std::make_unique<std::vector<nebula::ProfilingStats>>(1);
    b.profiles = std::make_unique<std::vector<nebula::ProfilingStats>>(1);
    if (!(a == b)) return 1;
    (*a.profiles)[0].rows = 5;
    return a == b ? 1 : 0;
}
'''})
mkseed("either-convert-copy", "C01", [("base/EitherOr.h", """    >& operator=(EitherOr<U, V>&& rhs) noexcept {
        reset();
        switch (rhs.state_) {
            case State::VOID:
                break;
            case State::LEFT_TYPE:
                new (&val_) Variant(kConstructLeft, std::move(rhs).left());
                state_ = State::LEFT_TYPE;
                break;
            case State::RIGHT_TYPE:
                new (&val_) Variant(kConstructRight, std::move(rhs).right());
                state_ = State::RIGHT_TYPE;
                break;
        }""", """    >& operator=(EitherOr<U, V>&& rhs) noexcept {
        if (rhs.state_ == State::VOID) {
            return *this;
        }
        reset();
        switch (rhs.state_) {
            case State::VOID:
                break;
            case State::LEFT_TYPE:
                new (&val_) Variant(kConstructLeft, std::move(rhs).left());
                state_ = State::LEFT_TYPE;
                break;
            case State::RIGHT_TYPE:
                new (&val_) Variant(kConstructRight, std::move(rhs).right());
                state_ = State::RIGHT_TYPE;
                break;
        }""")],
 "moving an empty either-or of convertible types into one that holds a value", "the target keeps its old value instead of becoming empty",
 {"demo.sh": demo("", False), "demo.cpp": r"""
#include "common/base/EitherOr.h"
using namespace nebula;
int main() {
    EitherOr<int16_t, const char*> a, k(static_cast<int16_t>(7));
    EitherOr<int, std::string> b(5), c(std::string("x"));
    b = std::move(k);
    if (!k.isVoid() || !b.isLeftType() || b.left() != 7) return 1;
    b = std::move(a); c = std::move(a);
    return b.isVoid() && c.isVoid() ? 0 : 1;
}
"""})
