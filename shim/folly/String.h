#pragma once
#include <folly/Conv.h>
#include <folly/Range.h>
namespace folly {
inline std::string stringVPrintf(const char* f, va_list ap) {
    va_list c; va_copy(c, ap); int n = vsnprintf(nullptr, 0, f, c); va_end(c);
    std::string s(n < 0 ? 0 : n, '\0');
    if (n > 0) vsnprintf(&s[0], n + 1, f, ap);
    return s;
}
inline std::string stringPrintf(const char* f, ...) __attribute__((format(printf, 1, 2)));
inline std::string stringPrintf(const char* f, ...) { va_list ap; va_start(ap, f); auto s = stringVPrintf(f, ap); va_end(ap); return s; }
inline void stringPrintf(std::string* o, const char* f, ...) { va_list ap; va_start(ap, f); *o = stringVPrintf(f, ap); va_end(ap); }
inline std::string& stringAppendf(std::string* o, const char* f, ...) { va_list ap; va_start(ap, f); *o += stringVPrintf(f, ap); va_end(ap); return *o; }
template <class D, class It> std::string joinIt(const D& d, It b, It e) {
    std::string o; bool first = true;
    for (; b != e; ++b) { if (!first) detail_conv::app(o, d); first = false; detail_conv::app(o, *b); }
    return o;
}
template <class D, class C> std::string join(const D& d, const C& c) { return joinIt(d, c.begin(), c.end()); }
template <class D, class V> std::string join(const D& d, const std::initializer_list<V>& c) { return joinIt(d, c.begin(), c.end()); }
template <class D, class It> std::string join(const D& d, It b, It e) { return joinIt(d, b, e); }
template <class D, class C> void join(const D& d, const C& c, std::string& o) { o = joinIt(d, c.begin(), c.end()); }
namespace detail_split {
inline size_t dl(char) { return 1; }
inline size_t dl(StringPiece s) { return s.size(); }
template <class V> V mk(StringPiece s) { if constexpr (std::is_same<V, StringPiece>::value) return s; else if constexpr (std::is_same<V, std::string>::value) return s.str(); else if constexpr (std::is_same<V, std::string_view>::value) return std::string_view(s); else return to<V>(s); }
}
template <class D, class V> void splitTo_(const D& d, StringPiece s, std::vector<V>& out, bool ignoreEmpty) {
    size_t p = 0;
    if constexpr (!std::is_same<D, char>::value) if (StringPiece(d).empty()) { if (!(ignoreEmpty && s.empty())) out.push_back(detail_split::mk<V>(s)); return; }
    for (;;) {
        size_t q; if constexpr (std::is_same<D, char>::value) q = s.find(d, p); else q = s.find(StringPiece(d), p);
        StringPiece t = q == StringPiece::npos ? s.subpiece(p) : s.subpiece(p, q - p);
        if (!(ignoreEmpty && t.empty())) out.push_back(detail_split::mk<V>(t));
        if (q == StringPiece::npos) break;
        p = q + (std::is_same<D, char>::value ? 1 : detail_split::dl(StringPiece(d)));
    }
}
template <class V> void split(char d, StringPiece s, std::vector<V>& o, bool ie = false) { splitTo_(d, s, o, ie); }
template <class V> void split(const char* d, StringPiece s, std::vector<V>& o, bool ie = false) { splitTo_(std::string(d), s, o, ie); }
template <class V> void split(const std::string& d, StringPiece s, std::vector<V>& o, bool ie = false) { splitTo_(d, s, o, ie); }
inline StringPiece ltrimWhitespace(StringPiece s) { while (!s.empty() && (s.front() == ' ' || s.front() == '\n' || s.front() == '\r' || s.front() == '\t')) s.pop_front(); return s; }
inline StringPiece rtrimWhitespace(StringPiece s) { while (!s.empty() && (s.back() == ' ' || s.back() == '\n' || s.back() == '\r' || s.back() == '\t')) s.pop_back(); return s; }
inline StringPiece trimWhitespace(StringPiece s) { return ltrimWhitespace(rtrimWhitespace(s)); }
inline StringPiece skipWhitespace(StringPiece s) { return ltrimWhitespace(s); }
inline void toLowerAscii(char* s, size_t n) { for (size_t i = 0; i < n; ++i) if (s[i] >= 'A' && s[i] <= 'Z') s[i] += 32; }
inline void toLowerAscii(std::string& s) { toLowerAscii(&s[0], s.size()); }
template <class S> bool hexlify(const S& in, std::string& out) { static const char h[] = "0123456789abcdef"; out.clear(); for (unsigned char c : in) { out += h[c >> 4]; out += h[c & 15]; } return true; }
inline std::string hexlify(StringPiece s) { std::string o; hexlify(s, o); return o; }
inline std::string cEscape(StringPiece s) { return s.str(); }
inline std::string exceptionStr(const std::exception& e) { return e.what(); }
}  // namespace folly
