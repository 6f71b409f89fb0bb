// A stand-in for the statistics check: exact sliding windows.  It is, like folly's, for one thread at a
// time; where scheduled it lets others go on in the middle of every operation.
#pragma once
#include <algorithm>
#include <chrono>
#include <cstdint>
#include <initializer_list>
#include <utility>
#include <vector>
#ifdef VF_CONC
#include "vsched.h"
#define VF_MIDDLE() ::sched::point()
#else
#define VF_MIDDLE() (void)0
#endif
namespace folly {
template <class VT> class MultiLevelTimeSeries {
public:
    using Duration = std::chrono::seconds; using TimePoint = std::chrono::seconds; using ValueType = VT;
    std::vector<Duration> durations; std::vector<std::pair<int64_t, VT>> pts; int64_t now = 0;
    MultiLevelTimeSeries(size_t, std::initializer_list<Duration> d) : durations(d) {}
    MultiLevelTimeSeries(size_t, size_t n, const Duration* d) : durations(d, d + n) {}
    struct Level {
        const MultiLevelTimeSeries* s; int64_t w;
        template <class F> void each(F f) const { for (size_t i = 0; i < s->pts.size(); i++) { auto p = s->pts[i]; if (p.first > s->now - w && p.first <= s->now) f(p.second); VF_MIDDLE(); } }
        VT sum() const { VT r = 0; each([&](VT v) { r += v; }); return r; }
        uint64_t count() const { uint64_t r = 0; each([&](VT) { r++; }); return r; }
        template <class R = double> R avg() const { auto c = count(); return c ? static_cast<R>(sum()) / static_cast<R>(c) : R(0); }
        int64_t elapsed() const { if (s->pts.empty()) return 0; return std::min<int64_t>(w, s->now - s->pts.front().first + 1); }
        template <class R = double> R rate() const { auto e = elapsed(); return e ? static_cast<R>(sum()) / static_cast<R>(e) : R(0); }
    };
    void addValue(Duration t, const VT& v) { addValue(t, v, 1); }
    void addValue(Duration t, const VT& v, uint64_t times) { update(t); auto c = std::move(pts); pts.clear(); VF_MIDDLE(); while (times--) c.emplace_back(t.count(), v); pts = std::move(c); }
    void addValueAggregated(Duration t, const VT& sum, uint64_t n) { addValue(t, sum); while (--n) addValue(t, 0); }
    void update(Duration t) { VF_MIDDLE(); if (t.count() > now) now = t.count(); }
    void flush() {}
    void clear() { pts.clear(); }
    size_t numLevels() const { return durations.size(); }
    Level getLevel(size_t i) const { return {this, durations.at(i).count()}; }
    Level getLevel(int i) const { return getLevel(static_cast<size_t>(i)); }
    Level getLevel(Duration d) const { for (auto x : durations) if (d <= x) return {this, x.count()}; return {this, durations.back().count()}; }
    VT sum(size_t i) const { return getLevel(i).sum(); }
    uint64_t count(size_t i) const { return getLevel(i).count(); }
    template <class R = double> R avg(size_t i) const { return getLevel(i).template avg<R>(); }
    template <class R = double> R rate(size_t i) const { return getLevel(i).template rate<R>(); }
};
}
