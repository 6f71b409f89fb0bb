#pragma once
#include <folly/stats/MultiLevelTimeSeries.h>
namespace folly {
template <class VT> class TimeseriesHistogram {
    VT w_, lo_, hi_; MultiLevelTimeSeries<VT> s_;
public:
    TimeseriesHistogram(VT w, VT lo, VT hi, const MultiLevelTimeSeries<VT>& s) : w_(w), lo_(lo), hi_(hi), s_(s) {}
    void addValue(std::chrono::seconds t, const VT& v) { s_.addValue(t, v); }
    void update(std::chrono::seconds t) { s_.update(t); }
    void flush() {}
    VT sum(size_t i) const { return s_.sum(i); }
    uint64_t count(size_t i) const { return s_.count(i); }
    template <class R = double> R avg(size_t i) const { return s_.template avg<R>(i); }
    template <class R = double> R rate(size_t i) const { return s_.template rate<R>(i); }
    // the smallest value that at least pct per cent of the values do not exceed
    VT getPercentileEstimate(double pct, size_t i) const {
        std::vector<VT> v; s_.getLevel(i).each([&](VT x) { v.push_back(std::min(std::max(x, lo_), hi_)); });
        if (v.empty()) return 0;
        std::sort(v.begin(), v.end()); size_t k = static_cast<size_t>(pct / 100 * static_cast<double>(v.size()) + 0.9999999); return v[std::min(v.size() - 1, k ? k - 1 : 0)];
    }
};
}
