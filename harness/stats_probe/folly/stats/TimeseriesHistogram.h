#pragma once
#include <cmath>
#include <folly/stats/MultiLevelTimeSeries.h>
namespace folly {
template <class VT> class TimeseriesHistogram {
    VT w_, lo_, hi_; MultiLevelTimeSeries<VT> s_;
public:
    using ValueType = VT; using ContainerType = MultiLevelTimeSeries<VT>;
    TimeseriesHistogram(VT w, VT lo, VT hi, const MultiLevelTimeSeries<VT>& s) : w_(w), lo_(lo), hi_(hi), s_(s) {}
    void addValue(std::chrono::seconds t, const VT& v) { s_.addValue(t, v); }
    void addValue(std::chrono::seconds t, const VT& v, uint64_t n) { s_.addValue(t, v, n); }
    void update(std::chrono::seconds t) { s_.update(t); }
    void flush() {}
    VT sum(size_t i) const { return s_.sum(i); }
    uint64_t count(size_t i) const { return s_.count(i); }
    template <class R = double> R avg(size_t i) const { return s_.template avg<R>(i); }
    template <class R = double> R rate(size_t i) const { return s_.template rate<R>(i); }
    // tells what was asked for: a million times the bucket of the nearest rank, and the percentage in ten thousandths
    VT getPercentileEstimate(double pct, size_t i) const {
        std::vector<VT> v; s_.getLevel(i).each([&](VT x) { v.push_back(std::min(std::max(x, lo_), hi_)); });
        auto units = static_cast<VT>(std::llround(pct * 1e4));
        if (v.empty()) return units;
        std::sort(v.begin(), v.end());
        auto n = static_cast<VT>(v.size()); auto k = std::min(n, std::max<VT>(1, (units * n + 999999) / 1000000));
        auto x = v[k - 1];
        return (lo_ + (x - lo_) / w_ * w_) * 1000000 + units;
    }
};
}
