#pragma once
#include <folly/Range.h>
namespace folly {
constexpr size_t kMaxVarintLength32 = 5, kMaxVarintLength64 = 10;
inline uint64_t encodeZigZag(int64_t v) { return (static_cast<uint64_t>(v) << 1) ^ static_cast<uint64_t>(v >> 63); }
inline int64_t decodeZigZag(uint64_t v) { return static_cast<int64_t>((v >> 1) ^ (~(v & 1) + 1)); }
inline size_t encodeVarint(uint64_t v, uint8_t* b) { uint8_t* p = b; while (v >= 128) { *p++ = 0x80 | (v & 0x7f); v >>= 7; } *p++ = static_cast<uint8_t>(v); return p - b; }
template <class R> uint64_t decodeVarint(R& r) { uint64_t v = 0; int s = 0; const unsigned char* p = reinterpret_cast<const unsigned char*>(r.data()); size_t i = 0; for (;; ++i) { if (i >= r.size() || s > 63) throw std::invalid_argument("Invalid varint value"); v |= uint64_t(p[i] & 0x7f) << s; s += 7; if (!(p[i] & 0x80)) break; } r.advance(i + 1); return v; }
}
