#pragma once
#include <folly/Range.h>
#include <tuple>
#include <utility>
namespace folly { namespace hash {
constexpr uint64_t FNV_64_HASH_START = 14695981039346656037ULL;
constexpr uint32_t FNV_32_HASH_START = 2166136261UL;
inline uint64_t fnv64_buf(const void* buf, size_t n, uint64_t h = FNV_64_HASH_START) {
    auto* p = static_cast<const signed char*>(buf);
    for (size_t i = 0; i < n; ++i) { h += (h << 1) + (h << 4) + (h << 5) + (h << 7) + (h << 8) + (h << 40); h ^= p[i]; }
    return h;
}
inline uint64_t fnv64(const std::string& s, uint64_t h = FNV_64_HASH_START) { return fnv64_buf(s.data(), s.size(), h); }
inline uint64_t fnv64(const char* s, uint64_t h = FNV_64_HASH_START) { return fnv64_buf(s, strlen(s), h); }
inline uint32_t fnv32_buf(const void* buf, size_t n, uint32_t h = FNV_32_HASH_START) {
    auto* p = static_cast<const signed char*>(buf);
    for (size_t i = 0; i < n; ++i) { h += (h << 1) + (h << 4) + (h << 7) + (h << 8) + (h << 24); h ^= p[i]; }
    return h;
}
inline uint32_t fnv32(const std::string& s, uint32_t h = FNV_32_HASH_START) { return fnv32_buf(s.data(), s.size(), h); }
inline uint64_t hash_128_to_64(uint64_t upper, uint64_t lower) {
    const uint64_t kMul = 0x9ddfea08eb382d69ULL;
    uint64_t a = (lower ^ upper) * kMul; a ^= (a >> 47); uint64_t b = (upper ^ a) * kMul; b ^= (b >> 47); return b * kMul;
}
inline uint64_t twang_mix64(uint64_t k) { k = (~k) + (k << 21); k ^= k >> 24; k = k + (k << 3) + (k << 8); k ^= k >> 14; k = k + (k << 2) + (k << 4); k ^= k >> 28; k += k << 31; return k; }
inline uint32_t jenkins_rev_mix32(uint32_t k) { return k * 2654435761u; }
inline size_t hash_combine() { return 0; }
template <class T, class... R> size_t hash_combine(const T& t, const R&... r) {
    size_t s = std::hash<T>()(t); if constexpr (sizeof...(R) == 0) return s; else return hash_128_to_64(s, hash_combine(r...));
}
struct SpookyHashV2 { static uint64_t Hash64(const void* p, size_t n, uint64_t seed) { return fnv64_buf(p, n, FNV_64_HASH_START ^ seed); } };
}  // namespace hash
template <class K = void> struct hasher { size_t operator()(const K& k) const { return hash::twang_mix64(std::hash<K>()(k)); } };
}  // namespace folly
// folly/hash/Hash.h hashes pairs and tuples of hashable members
namespace std {
template <class A, class B> struct hash<std::pair<A, B>> { size_t operator()(const std::pair<A, B>& p) const { return folly::hash::hash_combine(p.first, p.second); } };
template <class... T> struct hash<std::tuple<T...>> { size_t operator()(const std::tuple<T...>& t) const { return std::apply([](const T&... x) { return folly::hash::hash_combine(x...); }, t); } };
}
