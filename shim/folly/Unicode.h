#pragma once
#include <folly/Range.h>
namespace folly {
inline std::string codePointToUtf8(char32_t cp) {
    std::string r;
    if (cp <= 0x7f) r += static_cast<char>(cp);
    else if (cp <= 0x7ff) { r += static_cast<char>(0xc0 | (cp >> 6)); r += static_cast<char>(0x80 | (cp & 0x3f)); }
    else if (cp <= 0xffff) { r += static_cast<char>(0xe0 | (cp >> 12)); r += static_cast<char>(0x80 | ((cp >> 6) & 0x3f)); r += static_cast<char>(0x80 | (cp & 0x3f)); }
    else if (cp <= 0x10ffff) { r += static_cast<char>(0xf0 | (cp >> 18)); r += static_cast<char>(0x80 | ((cp >> 12) & 0x3f)); r += static_cast<char>(0x80 | ((cp >> 6) & 0x3f)); r += static_cast<char>(0x80 | (cp & 0x3f)); }
    return r;
}
}
