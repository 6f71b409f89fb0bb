#pragma once
#include <folly/Portability.h>
namespace folly {
// Deterministic, harness-controlled randomness: shimRand is seeded by the driver.
struct Random {
    static std::mt19937_64& gen() { static std::mt19937_64 g(1); return g; }
    static std::function<uint64_t(uint64_t)>& oracle() { static std::function<uint64_t(uint64_t)> f; return f; }
    static uint64_t pick(uint64_t n) { if (n == 0) return 0; if (oracle()) return oracle()(n) % n; return gen()() % n; }
    static uint32_t rand32() { return static_cast<uint32_t>(pick(uint64_t(1) << 32)); }
    static uint32_t rand32(uint32_t max) { return static_cast<uint32_t>(pick(max)); }
    static uint32_t rand32(uint32_t min, uint32_t max) { return min + static_cast<uint32_t>(pick(max - min)); }
    static uint64_t rand64() { return oracle() ? oracle()(UINT64_MAX) : gen()(); }
    static uint64_t rand64(uint64_t max) { return pick(max); }
    static uint64_t rand64(uint64_t min, uint64_t max) { return min + pick(max - min); }
    static bool oneIn(uint32_t n) { return n && pick(n) == 0; }
    static double randDouble01() { return static_cast<double>(pick(1u << 30)) / (1u << 30); }
    static double randDouble(double a, double b) { return a + (b - a) * randDouble01(); }
    template <class... A> static uint32_t rand(A... a) { return rand32(a...); }
    using DefaultGenerator = std::mt19937_64;
    static DefaultGenerator create() { return DefaultGenerator(1); }
};
using ThreadLocalPRNG = std::mt19937_64;
}
