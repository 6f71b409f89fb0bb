#pragma once
#include <folly/Portability.h>
namespace folly {
template <class Iter> class Range;
template <> class Range<const char*> {
public:
    using value_type = char; using iterator = const char*; using const_iterator = const char*;
    using size_type = size_t; using reference = const char&;
    static constexpr size_t npos = std::string::npos;
    constexpr Range() : b_(nullptr), e_(nullptr) {}
    /* implicit */ Range(const char* s) : b_(s), e_(s ? s + ::strlen(s) : s) {}
    constexpr Range(const char* s, size_t n) : b_(s), e_(s + n) {}
    constexpr Range(const char* b, const char* e) : b_(b), e_(e) {}
    /* implicit */ Range(const std::string& s) : b_(s.data()), e_(s.data() + s.size()) {}
    /* implicit */ constexpr Range(std::string_view s) : b_(s.data()), e_(s.data() + s.size()) {}
    Range(const std::string& s, size_t from) : Range(Range(s).subpiece(from)) {}
    Range(const std::string& s, size_t from, size_t n) : Range(Range(s).subpiece(from, n)) {}
    constexpr const char* begin() const { return b_; }
    constexpr const char* end() const { return e_; }
    constexpr const char* cbegin() const { return b_; }
    constexpr const char* cend() const { return e_; }
    constexpr const char* data() const { return b_; }
    constexpr const char* start() const { return b_; }
    constexpr size_t size() const { return e_ - b_; }
    constexpr bool empty() const { return b_ == e_; }
    constexpr bool isNull() const { return b_ == nullptr; }
    const char& front() const { return *b_; }
    const char& back() const { return e_[-1]; }
    const char& operator[](size_t i) const { return b_[i]; }
    const char& at(size_t i) const { if (i >= size()) throw std::out_of_range("index out of range"); return b_[i]; }
    std::string str() const { return std::string(b_, size()); }
    std::string toString() const { return str(); }
    explicit operator std::string() const { return str(); }
    operator std::string_view() const { return std::string_view(b_, size()); }
    void clear() { b_ = e_ = nullptr; }
    void reset(const char* s, size_t n) { b_ = s; e_ = s + n; }
    void advance(size_t n) { if (n > size()) throw std::out_of_range("index out of range"); b_ += n; }
    void subtract(size_t n) { if (n > size()) throw std::out_of_range("index out of range"); e_ -= n; }
    void pop_front() { ++b_; }
    void pop_back() { --e_; }
    Range subpiece(size_t first, size_t length = npos) const {
        if (first > size()) throw std::out_of_range("index out of range");
        return Range(b_ + first, std::min(length, size() - first));
    }
    int compare(const Range& o) const {
        size_t n = std::min(size(), o.size());
        int r = n ? ::memcmp(b_, o.b_, n) : 0;
        return r ? r : (size() < o.size() ? -1 : (size() > o.size() ? 1 : 0));
    }
    bool equals(const Range& o) const { return compare(o) == 0; }
    bool startsWith(const Range& o) const { return size() >= o.size() && subpiece(0, o.size()).equals(o); }
    bool startsWith(char c) const { return !empty() && front() == c; }
    bool endsWith(const Range& o) const { return size() >= o.size() && subpiece(size() - o.size()).equals(o); }
    bool endsWith(char c) const { return !empty() && back() == c; }
    bool removePrefix(const Range& o) { return startsWith(o) && (b_ += o.size(), true); }
    bool removePrefix(char c) { return startsWith(c) && (++b_, true); }
    bool removeSuffix(const Range& o) { return endsWith(o) && (e_ -= o.size(), true); }
    bool removeSuffix(char c) { return endsWith(c) && (--e_, true); }
    size_t find(const Range& o, size_t p = 0) const { return std::string_view(*this).find(std::string_view(o), p); }
    size_t find(char c, size_t p = 0) const { return std::string_view(*this).find(c, p); }
    size_t rfind(char c) const { return std::string_view(*this).rfind(c); }
    size_t find_first_of(const Range& o, size_t p = 0) const { return std::string_view(*this).find_first_of(std::string_view(o), p); }
    bool contains(const Range& o) const { return find(o) != npos; }
    bool contains(char c) const { return find(c) != npos; }
    Range split_step(char d) {
        auto i = find(d);
        if (i == npos) { Range r(*this); b_ = e_; return r; }
        Range r(b_, i); b_ += i + 1; return r;
    }
private:
    const char* b_; const char* e_;
};
using StringPiece = Range<const char*>;
inline bool operator==(const StringPiece& a, const StringPiece& b) { return a.compare(b) == 0; }
inline bool operator!=(const StringPiece& a, const StringPiece& b) { return a.compare(b) != 0; }
inline bool operator<(const StringPiece& a, const StringPiece& b) { return a.compare(b) < 0; }
inline bool operator>(const StringPiece& a, const StringPiece& b) { return a.compare(b) > 0; }
inline bool operator<=(const StringPiece& a, const StringPiece& b) { return a.compare(b) <= 0; }
inline bool operator>=(const StringPiece& a, const StringPiece& b) { return a.compare(b) >= 0; }
inline std::ostream& operator<<(std::ostream& os, const StringPiece& s) { return os.write(s.data(), s.size()); }
template <> class Range<const unsigned char*> {
public:
    Range() = default;
    Range(const unsigned char* b, const unsigned char* e) : b_(b), e_(e) {}
    Range(const unsigned char* b, size_t n) : b_(b), e_(b + n) {}
    explicit Range(const StringPiece& s) : b_(reinterpret_cast<const unsigned char*>(s.begin())), e_(reinterpret_cast<const unsigned char*>(s.end())) {}
    const unsigned char* begin() const { return b_; }
    const unsigned char* end() const { return e_; }
    const unsigned char* data() const { return b_; }
    size_t size() const { return e_ - b_; }
    bool empty() const { return b_ == e_; }
    unsigned char operator[](size_t i) const { return b_[i]; }
    void advance(size_t n) { b_ += n; }
private:
    const unsigned char* b_{nullptr}; const unsigned char* e_{nullptr};
};
using ByteRange = Range<const unsigned char*>;
}  // namespace folly
namespace std {
template <> struct hash<folly::StringPiece> {
    size_t operator()(const folly::StringPiece& s) const { return std::hash<std::string_view>()(std::string_view(s)); }
};
}
