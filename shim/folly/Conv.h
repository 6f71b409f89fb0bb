#pragma once
#include <folly/Range.h>
#include <folly/Unit.h>
namespace folly {
class ConversionError : public std::range_error { public: using std::range_error::range_error; };
namespace detail_conv {
inline void app(std::string& o, const std::string& s) { o += s; }
inline void app(std::string& o, const char* s) { if (s) o += s; }
inline void app(std::string& o, StringPiece s) { o.append(s.data(), s.size()); }
inline void app(std::string& o, std::string_view s) { o.append(s.data(), s.size()); }
inline void app(std::string& o, char c) { o += c; }
inline void app(std::string& o, bool b) { o += b ? '1' : '0'; }
// shortest representation that reads back to the same double, as folly (double-conversion) prints
inline std::string dbl(double v) {
    if (std::isnan(v)) return "NaN";
    if (std::isinf(v)) return v < 0 ? "-Infinity" : "Infinity";
    if (v == 0) return std::signbit(v) ? "-0" : "0";
    char b[64];
    int prec = 1;
    for (; prec <= 17; ++prec) { snprintf(b, sizeof(b), "%.*e", prec - 1, v); if (strtod(b, nullptr) == v) break; }
    std::string s(b); bool neg = s[0] == '-'; if (neg) s = s.substr(1);
    auto ep = s.find('e'); int e = atoi(s.c_str() + ep + 1);
    std::string dg; for (size_t i = 0; i < ep; ++i) if (s[i] != '.') dg += s[i];
    while (dg.size() > 1 && dg.back() == '0') dg.pop_back();
    std::string o;
    int n = dg.size();
    if (e >= 21 || e < -6) {
        o = dg.substr(0, 1); if (n > 1) o += "." + dg.substr(1);
        o += "E" + std::string(e < 0 ? "-" : "") + std::to_string(std::abs(e));
    } else if (e < 0) {
        o = "0." + std::string(-e - 1, '0') + dg;
    } else if (n <= e + 1) {
        o = dg + std::string(e + 1 - n, '0');
    } else {
        o = dg.substr(0, e + 1) + "." + dg.substr(e + 1);
    }
    return (neg ? "-" : "") + o;
}
template <class T> std::enable_if_t<std::is_floating_point<T>::value> app(std::string& o, T v) { o += dbl(v); }
template <class T> std::enable_if_t<std::is_integral<T>::value && !std::is_same<T, char>::value && !std::is_same<T, bool>::value>
app(std::string& o, T v) { o += std::to_string(v); }
template <class T> std::enable_if_t<std::is_enum<T>::value> app(std::string& o, T v) { o += std::to_string(static_cast<int64_t>(v)); }
inline StringPiece trim(StringPiece s) {
    while (!s.empty() && isspace(static_cast<unsigned char>(s.front()))) s.pop_front();
    while (!s.empty() && isspace(static_cast<unsigned char>(s.back()))) s.pop_back();
    return s;
}
template <class T> std::enable_if_t<std::is_integral<T>::value && !std::is_same<T, bool>::value && std::is_signed<T>::value, T> parse(StringPiece s) {
    std::string t = trim(s).str(); if (t.empty()) throw ConversionError("empty");
    if (!isdigit(static_cast<unsigned char>(t[0])) && !(t.size() > 1 && (t[0] == '-' || t[0] == '+') && isdigit(static_cast<unsigned char>(t[1])))) throw ConversionError("nondigit: " + t);
    errno = 0; char* e; long long v = strtoll(t.c_str(), &e, 10);
    if (*e || size_t(e - t.c_str()) != t.size()) throw ConversionError("trailing: " + t);
    if (errno == ERANGE || v < std::numeric_limits<T>::min() || v > std::numeric_limits<T>::max()) throw ConversionError("overflow: " + t);
    return static_cast<T>(v);
}
template <class T> std::enable_if_t<std::is_integral<T>::value && !std::is_same<T, bool>::value && std::is_unsigned<T>::value, T> parse(StringPiece s) {
    std::string t = trim(s).str(); if (t.empty()) throw ConversionError("empty");
    if (!isdigit(static_cast<unsigned char>(t[0]))) throw ConversionError("nondigit: " + t);
    errno = 0; char* e; unsigned long long v = strtoull(t.c_str(), &e, 10);
    if (*e || size_t(e - t.c_str()) != t.size()) throw ConversionError("trailing: " + t);
    if (errno == ERANGE || v > std::numeric_limits<T>::max()) throw ConversionError("overflow: " + t);
    return static_cast<T>(v);
}
template <class T> std::enable_if_t<std::is_floating_point<T>::value, T> parse(StringPiece s) {
    std::string t = trim(s).str(); if (t.empty()) throw ConversionError("empty");
    std::string l; for (char c : t) l += static_cast<char>(tolower(static_cast<unsigned char>(c)));
    if (l.find('x') != std::string::npos) throw ConversionError("bad: " + t);
    errno = 0; char* e; double v = strtod(t.c_str(), &e);
    if (size_t(e - t.c_str()) != t.size()) throw ConversionError("trailing: " + t);
    return static_cast<T>(v);
}
template <class T> std::enable_if_t<std::is_same<T, bool>::value, bool> parse(StringPiece s) {
    std::string l; for (char c : trim(s).str()) l += static_cast<char>(tolower(static_cast<unsigned char>(c)));
    if (l == "1" || l == "true" || l == "t" || l == "yes" || l == "y" || l == "on") return true;
    if (l == "0" || l == "false" || l == "f" || l == "no" || l == "n" || l == "off") return false;
    throw ConversionError("bool: " + l);
}
}  // namespace detail_conv
template <class T, class... A> std::enable_if_t<std::is_same<T, std::string>::value, T> to(const A&... a) {
    std::string o; (detail_conv::app(o, a), ...); return o;
}
template <class... A> void toAppend(const A&... a) {
    auto t = std::tie(a...);
    constexpr size_t n = sizeof...(A);
    auto* out = const_cast<std::string*>(std::get<n - 1>(t));
    std::string s;
    auto f = [&](const auto& x) { if constexpr (!std::is_same<std::decay_t<decltype(x)>, std::string*>::value) detail_conv::app(s, x); };
    (f(a), ...);
    *out += s;
}
template <class T> std::enable_if_t<!std::is_same<T, std::string>::value, T> to(StringPiece s) { return detail_conv::parse<T>(s); }
template <class T> std::enable_if_t<!std::is_same<T, std::string>::value, T> to(const std::string& s) { return detail_conv::parse<T>(s); }
template <class T> std::enable_if_t<!std::is_same<T, std::string>::value, T> to(const char* s) { return detail_conv::parse<T>(s); }
template <class T, class S> std::enable_if_t<std::is_arithmetic<T>::value && std::is_arithmetic<S>::value, T> to(S v) {
    T r = static_cast<T>(v);
    if (static_cast<S>(r) != v || ((r < T(0)) != (v < S(0)))) throw ConversionError("loss of precision");
    return r;
}
template <class T, class S> std::enable_if_t<std::is_arithmetic<T>::value && std::is_enum<S>::value, T> to(S v) { return to<T>(static_cast<std::underlying_type_t<S>>(v)); }
template <class T> struct TryToResult : std::optional<T> { using std::optional<T>::optional; bool hasValue() const { return this->has_value(); } bool hasError() const { return !this->has_value(); } };
template <class T> TryToResult<T> tryTo(StringPiece s) { try { return TryToResult<T>(detail_conv::parse<T>(s)); } catch (const ConversionError&) { return TryToResult<T>(); } }
}  // namespace folly
