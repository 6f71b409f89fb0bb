// A stand-in: exact sliding windows, oldest level first as given.
#pragma once
#include <algorithm>
#include <chrono>
#include <cstdint>
#include <initializer_list>
#include <utility>
#include <vector>
namespace folly {
template <class VT> class MultiLevelTimeSeries {
public:
    using Duration = std::chrono::seconds; using TimePoint = std::chrono::seconds; using ValueType = VT;
    std::vector<Duration> durations; std::vector<std::pair<int64_t, VT>> pts; int64_t now = 0;
    MultiLevelTimeSeries(size_t, std::initializer_list<Duration> d) : durations(d) {}
    MultiLevelTimeSeries(size_t, size_t n, const Duration* d) : durations(d, d + n) {}
    struct Level {
        const MultiLevelTimeSeries* s; int64_t w;
        template <class F> void each(F f) const { for (auto& p : s->pts) if (p.first > s->now - w && p.first <= s->now) f(p.second); }
        VT sum() const { VT r = 0; each([&](VT v) { r += v; }); return r; }
        uint64_t count() const { uint64_t r = 0; each([&](VT) { r++; }); return r; }
        template <class R = double> R avg() const { auto c = count(); return c ? static_cast<R>(sum()) / static_cast<R>(c) : R(0); }
        int64_t elapsed() const { if (s->pts.empty()) return 0; return std::min<int64_t>(w, s->now - s->pts.front().first + 1); }
        template <class R = double> R rate() const { auto e = elapsed(); return e ? static_cast<R>(sum()) / static_cast<R>(e) : R(0); }
    };
    void addValue(Duration t, const VT& v) { update(t); pts.emplace_back(t.count(), v); }
    void update(Duration t) { if (t.count() > now) now = t.count(); }
    void flush() {}
    Level getLevel(size_t i) const { return {this, durations.at(i).count()}; }
    VT sum(size_t i) const { return getLevel(i).sum(); }
    uint64_t count(size_t i) const { return getLevel(i).count(); }
    template <class R = double> R avg(size_t i) const { return getLevel(i).template avg<R>(); }
    template <class R = double> R rate(size_t i) const { return getLevel(i).template rate<R>(); }
};
}
