// A stand-in for the parts of fbthrift that hand-written (de)serializers use: types,
// the methods for containers and numbers, and three protocols: binary, compact, and
// one that names its fields instead of numbering them.
#pragma once
#include <cstring>
#include <map>
#include <memory>
#include <set>
#include <stdexcept>
#include <string>
#include <type_traits>
#include <unordered_map>
#include <unordered_set>
#include <vector>
#include <folly/Range.h>
namespace apache {
namespace thrift {
namespace protocol {
enum TType : uint8_t { T_STOP = 0, T_VOID = 1, T_BOOL = 2, T_BYTE = 3, T_DOUBLE = 4, T_I16 = 6, T_I32 = 8, T_U64 = 9, T_I64 = 10, T_STRING = 11, T_STRUCT = 12, T_MAP = 13, T_SET = 14, T_LIST = 15, T_FLOAT = 19 };
class TProtocolException : public std::runtime_error {
public:
    using std::runtime_error::runtime_error;
    [[noreturn]] static void throwUnionMissingStop() { throw TProtocolException("union: missing stop"); }
    [[noreturn]] static void throwMissingRequiredField(const char* f, const char* t) { throw TProtocolException(std::string("missing ") + f + " of " + t); }
    [[noreturn]] static void bad(const char* what) { throw TProtocolException(what); }
};
}  // namespace protocol
using protocol::TProtocolException;
namespace type_class {
struct nothing;
struct integral;
struct floating_point;
struct binary;
struct string;
struct enumeration;
struct structure;
struct variant;
template <class> struct list;
template <class> struct set;
template <class, class> struct map;
}  // namespace type_class
template <class T, class = void> class Cpp2Ops;
namespace detail {
template <class T> struct TccStructTraits;
namespace pm {
using protocol::TType;
template <class TC, class T, class = void> struct protocol_methods;
template <class T> struct protocol_methods<type_class::integral, T> {
    static constexpr TType ttype() { return std::is_same<T, bool>::value ? protocol::T_BOOL : sizeof(T) == 1 ? protocol::T_BYTE : sizeof(T) == 2 ? protocol::T_I16 : sizeof(T) == 4 ? protocol::T_I32 : protocol::T_I64; }
    template <class P> static uint32_t write(P& p, const T& v) {
        if constexpr (std::is_same<T, bool>::value) return p.writeBool(v);
        else if constexpr (sizeof(T) == 1) return p.writeByte(v);
        else if constexpr (sizeof(T) == 2) return p.writeI16(v);
        else if constexpr (sizeof(T) == 4) return p.writeI32(v);
        else return p.writeI64(v);
    }
    template <class P> static void read(P& p, T& v) {
        if constexpr (std::is_same<T, bool>::value) p.readBool(v);
        else if constexpr (sizeof(T) == 1) { int8_t x; p.readByte(x); v = x; }
        else if constexpr (sizeof(T) == 2) { int16_t x; p.readI16(x); v = x; }
        else if constexpr (sizeof(T) == 4) { int32_t x; p.readI32(x); v = x; }
        else { int64_t x; p.readI64(x); v = x; }
    }
    template <bool, class P> static uint32_t serializedSize(const P& p, const T& v) {
        if constexpr (std::is_same<T, bool>::value) return p.serializedSizeBool(v);
        else if constexpr (sizeof(T) == 1) return p.serializedSizeByte(v);
        else if constexpr (sizeof(T) == 2) return p.serializedSizeI16(v);
        else if constexpr (sizeof(T) == 4) return p.serializedSizeI32(v);
        else return p.serializedSizeI64(v);
    }
};
template <class T> struct protocol_methods<type_class::enumeration, T> {
    static constexpr TType ttype() { return protocol::T_I32; }
    template <class P> static uint32_t write(P& p, const T& v) { return p.writeI32(static_cast<int32_t>(v)); }
    template <class P> static void read(P& p, T& v) { int32_t x; p.readI32(x); v = static_cast<T>(x); }
    template <bool, class P> static uint32_t serializedSize(const P& p, const T& v) { return p.serializedSizeI32(static_cast<int32_t>(v)); }
};
template <class T> struct protocol_methods<type_class::floating_point, T> {
    static constexpr TType ttype() { return protocol::T_DOUBLE; }
    template <class P> static uint32_t write(P& p, const T& v) { return p.writeDouble(v); }
    template <class P> static void read(P& p, T& v) { double x; p.readDouble(x); v = x; }
    template <bool, class P> static uint32_t serializedSize(const P& p, const T& v) { return p.serializedSizeDouble(v); }
};
template <class T> struct protocol_methods<type_class::binary, T> {
    static constexpr TType ttype() { return protocol::T_STRING; }
    template <class P> static uint32_t write(P& p, const T& v) { return p.writeBinary(v); }
    template <class P> static void read(P& p, T& v) { p.readBinary(v); }
    template <bool, class P> static uint32_t serializedSize(const P& p, const T& v) { return p.serializedSizeBinary(v); }
};
template <class T> struct protocol_methods<type_class::string, T> : protocol_methods<type_class::binary, T> {};
template <class T> struct protocol_methods<type_class::structure, T> {
    static constexpr TType ttype() { return protocol::T_STRUCT; }
    template <class P> static uint32_t write(P& p, const T& v) { return Cpp2Ops<T>::write(&p, &v); }
    template <class P> static void read(P& p, T& v) { Cpp2Ops<T>::read(&p, &v); }
    template <bool ZC, class P> static uint32_t serializedSize(const P& p, const T& v) {
        if constexpr (ZC) return Cpp2Ops<T>::serializedSizeZC(&p, &v);
        else return Cpp2Ops<T>::serializedSize(&p, &v);
    }
};
template <class E, class T> struct protocol_methods<type_class::list<E>, T> {
    using M = protocol_methods<E, typename T::value_type>;
    static constexpr TType ttype() { return protocol::T_LIST; }
    template <class P> static uint32_t write(P& p, const T& v) {
        uint32_t x = p.writeListBegin(M::ttype(), v.size());
        for (auto& e : v) x += M::write(p, e);
        return x + p.writeListEnd();
    }
    template <class P> static void read(P& p, T& v) {
        TType t; uint32_t n;
        p.readListBegin(t, n);
        for (uint32_t i = 0; i < n; ++i) {
            if (t != M::ttype()) { p.skip(t); continue; }
            typename T::value_type e{};
            M::read(p, e);
            v.emplace_back(std::move(e));
        }
        p.readListEnd();
    }
    template <bool ZC, class P> static uint32_t serializedSize(const P& p, const T& v) {
        uint32_t x = p.serializedSizeListBegin(M::ttype(), v.size());
        for (auto& e : v) x += M::template serializedSize<ZC>(p, e);
        return x;
    }
};
template <class E, class T> struct protocol_methods<type_class::set<E>, T> {
    using M = protocol_methods<E, typename T::value_type>;
    static constexpr TType ttype() { return protocol::T_SET; }
    template <class P> static uint32_t write(P& p, const T& v) {
        uint32_t x = p.writeSetBegin(M::ttype(), v.size());
        for (auto& e : v) x += M::write(p, e);
        return x + p.writeSetEnd();
    }
    template <class P> static void read(P& p, T& v) {
        TType t; uint32_t n;
        p.readSetBegin(t, n);
        for (uint32_t i = 0; i < n; ++i) {
            if (t != M::ttype()) { p.skip(t); continue; }
            typename T::value_type e{};
            M::read(p, e);
            v.emplace(std::move(e));
        }
        p.readSetEnd();
    }
    template <bool ZC, class P> static uint32_t serializedSize(const P& p, const T& v) {
        uint32_t x = p.serializedSizeSetBegin(M::ttype(), v.size());
        for (auto& e : v) x += M::template serializedSize<ZC>(p, e);
        return x;
    }
};
template <class K, class E, class T> struct protocol_methods<type_class::map<K, E>, T> {
    using MK = protocol_methods<K, typename T::key_type>;
    using M = protocol_methods<E, typename T::mapped_type>;
    static constexpr TType ttype() { return protocol::T_MAP; }
    template <class P> static uint32_t write(P& p, const T& v) {
        uint32_t x = p.writeMapBegin(MK::ttype(), M::ttype(), v.size());
        for (auto& e : v) { x += MK::write(p, e.first); x += M::write(p, e.second); }
        return x + p.writeMapEnd();
    }
    template <class P> static void read(P& p, T& v) {
        TType kt, t; uint32_t n;
        p.readMapBegin(kt, t, n);
        for (uint32_t i = 0; i < n; ++i) {
            if (kt != MK::ttype() || t != M::ttype()) { p.skip(kt); p.skip(t); continue; }
            typename T::key_type k{};
            MK::read(p, k);
            M::read(p, v[std::move(k)]);
        }
        p.readMapEnd();
    }
    template <bool ZC, class P> static uint32_t serializedSize(const P& p, const T& v) {
        uint32_t x = p.serializedSizeMapBegin(MK::ttype(), M::ttype(), v.size());
        for (auto& e : v) { x += MK::template serializedSize<ZC>(p, e.first); x += M::template serializedSize<ZC>(p, e.second); }
        return x;
    }
};
}  // namespace pm

template <class P> struct ProtocolReaderStructReadState {
    int16_t fieldId;
    protocol::TType fieldType;
    void readStructBegin(P* p) { p->readStructBegin(name_); }
    void readStructEnd(P* p) { p->readStructEnd(); }
    void readFieldBegin(P* p) { p->readFieldBegin(name_, fieldType, fieldId); }
    void readFieldBeginNoInline(P* p) { readFieldBegin(p); }
    void readFieldEnd(P* p) { p->readFieldEnd(); }
    std::string& fieldName() { return name_; }
    bool advanceToNextField(P* p, int32_t cur, int32_t next, protocol::TType type) {
        if (cur != 0) readFieldEnd(p);
        readFieldBegin(p);
        if (next == 0) return fieldType == protocol::T_STOP;
        return fieldType == type && fieldId == next;
    }
private:
    std::string name_;
};
}  // namespace detail

// what all readers have in common
template <class Self> class ReaderBase {
public:
    void setInput(std::string s) { in_ = std::move(s); at_ = 0; }
    size_t at() const { return at_; }
    void skip(protocol::TType t) {
        auto& p = *static_cast<Self*>(this);
        switch (t) {
        case protocol::T_BOOL: { bool x; p.readBool(x); return; }
        case protocol::T_BYTE: { int8_t x; p.readByte(x); return; }
        case protocol::T_I16: { int16_t x; p.readI16(x); return; }
        case protocol::T_I32: { int32_t x; p.readI32(x); return; }
        case protocol::T_I64: { int64_t x; p.readI64(x); return; }
        case protocol::T_DOUBLE: { double x; p.readDouble(x); return; }
        case protocol::T_STRING: { std::string x; p.readBinary(x); return; }
        case protocol::T_STRUCT: {
            std::string n; protocol::TType ft; int16_t id;
            p.readStructBegin(n);
            for (;;) {
                p.readFieldBegin(n, ft, id);
                if (ft == protocol::T_STOP) break;
                p.skip(ft);
                p.readFieldEnd();
            }
            p.readStructEnd();
            return;
        }
        case protocol::T_LIST: { protocol::TType e; uint32_t n; p.readListBegin(e, n); while (n--) p.skip(e); p.readListEnd(); return; }
        case protocol::T_SET: { protocol::TType e; uint32_t n; p.readSetBegin(e, n); while (n--) p.skip(e); p.readSetEnd(); return; }
        case protocol::T_MAP: { protocol::TType k, e; uint32_t n; p.readMapBegin(k, e, n); while (n--) { p.skip(k); p.skip(e); } p.readMapEnd(); return; }
        default: protocol::TProtocolException::bad("skip of an unknown type");
        }
    }
protected:
    uint8_t byte() { if (at_ >= in_.size()) protocol::TProtocolException::bad("end of input"); return in_[at_++]; }
    std::string bytes(size_t n) { if (n > in_.size() - at_) protocol::TProtocolException::bad("end of input"); auto s = in_.substr(at_, n); at_ += n; return s; }
    std::string in_;
    size_t at_{0};
};
class WriterBase {
public:
    std::string out;
protected:
    uint32_t put(uint8_t b) { out.push_back(b); return 1; }
    uint32_t put(const std::string& s) { out += s; return s.size(); }
    template <class T> uint32_t be(T v) { for (int i = sizeof(T) - 1; i >= 0; --i) put(static_cast<uint8_t>(static_cast<uint64_t>(v) >> (8 * i))); return sizeof(T); }
};

class BinaryProtocolWriter : public WriterBase {
public:
    using T = protocol::TType;
    static constexpr bool kUsesFieldNames() { return false; }
    uint32_t writeStructBegin(const char*) { return 0; }
    uint32_t writeStructEnd() { return 0; }
    uint32_t writeFieldBegin(const char*, T t, int16_t id) { return put(t) + be(id); }
    uint32_t writeFieldEnd() { return 0; }
    uint32_t writeFieldStop() { return put(0); }
    uint32_t writeBool(bool b) { return put(b); }
    uint32_t writeByte(int8_t b) { return be(b); }
    uint32_t writeI16(int16_t v) { return be(v); }
    uint32_t writeI32(int32_t v) { return be(v); }
    uint32_t writeI64(int64_t v) { return be(v); }
    uint32_t writeDouble(double d) { int64_t v; memcpy(&v, &d, 8); return be(v); }
    uint32_t writeBinary(const std::string& s) { auto n = be(static_cast<int32_t>(s.size())); return n + put(s); }
    uint32_t writeString(const std::string& s) { return writeBinary(s); }
    uint32_t writeListBegin(T t, uint32_t n) { auto x = put(t); return x + be(n); }
    uint32_t writeListEnd() { return 0; }
    uint32_t writeSetBegin(T t, uint32_t n) { return writeListBegin(t, n); }
    uint32_t writeSetEnd() { return 0; }
    uint32_t writeMapBegin(T k, T v, uint32_t n) { auto x = put(k); x += put(v); return x + be(n); }
    uint32_t writeMapEnd() { return 0; }
    uint32_t serializedStructSize(const char*) const { return 0; }
    uint32_t serializedFieldSize(const char*, T, int16_t) const { return 3; }
    uint32_t serializedSizeStop() const { return 1; }
    uint32_t serializedSizeBool(bool) const { return 1; }
    uint32_t serializedSizeByte(int8_t) const { return 1; }
    uint32_t serializedSizeI16(int16_t) const { return 2; }
    uint32_t serializedSizeI32(int32_t) const { return 4; }
    uint32_t serializedSizeI64(int64_t) const { return 8; }
    uint32_t serializedSizeDouble(double) const { return 8; }
    uint32_t serializedSizeBinary(const std::string& s) const { return 4 + s.size(); }
    uint32_t serializedSizeString(const std::string& s) const { return 4 + s.size(); }
    uint32_t serializedSizeZCBinary(const std::string& s) const { return 4 + s.size(); }
    uint32_t serializedSizeListBegin(T, uint32_t) const { return 5; }
    uint32_t serializedSizeSetBegin(T, uint32_t) const { return 5; }
    uint32_t serializedSizeMapBegin(T, T, uint32_t) const { return 6; }
};
class BinaryProtocolReader : public ReaderBase<BinaryProtocolReader> {
public:
    using T = protocol::TType;
    static constexpr bool kUsesFieldNames() { return false; }
    void readStructBegin(std::string&) {}
    void readStructEnd() {}
    void readFieldBegin(std::string&, T& t, int16_t& id) { t = static_cast<T>(byte()); if (t != protocol::T_STOP) id = be<int16_t>(); else id = 0; }
    void readFieldEnd() {}
    void readBool(bool& b) { b = byte() != 0; }
    void readBool(std::vector<bool>::reference b) { b = byte() != 0; }
    void readByte(int8_t& v) { v = be<int8_t>(); }
    void readI16(int16_t& v) { v = be<int16_t>(); }
    void readI32(int32_t& v) { v = be<int32_t>(); }
    void readI64(int64_t& v) { v = be<int64_t>(); }
    void readDouble(double& d) { auto v = be<int64_t>(); memcpy(&d, &v, 8); }
    void readBinary(std::string& s) { s = bytes(static_cast<uint32_t>(be<int32_t>())); }
    void readString(std::string& s) { readBinary(s); }
    void readListBegin(T& t, uint32_t& n) { t = static_cast<T>(byte()); n = be<int32_t>(); }
    void readListEnd() {}
    void readSetBegin(T& t, uint32_t& n) { readListBegin(t, n); }
    void readSetEnd() {}
    void readMapBegin(T& k, T& v, uint32_t& n) { k = static_cast<T>(byte()); v = static_cast<T>(byte()); n = be<int32_t>(); }
    void readMapEnd() {}
private:
    template <class I> I be() { uint64_t v = 0; for (size_t i = 0; i < sizeof(I); ++i) v = v << 8 | byte(); return static_cast<I>(v); }
};

namespace compact {
inline uint8_t of(protocol::TType t) {
    switch (t) { case protocol::T_BOOL: return 1; case protocol::T_BYTE: return 3; case protocol::T_I16: return 4; case protocol::T_I32: return 5; case protocol::T_I64: return 6; case protocol::T_DOUBLE: return 7; case protocol::T_STRING: return 8; case protocol::T_LIST: return 9; case protocol::T_SET: return 10; case protocol::T_MAP: return 11; case protocol::T_STRUCT: return 12; default: return 0; }
}
inline protocol::TType to(uint8_t c) {
    static const protocol::TType k[] = {protocol::T_STOP, protocol::T_BOOL, protocol::T_BOOL, protocol::T_BYTE, protocol::T_I16, protocol::T_I32, protocol::T_I64, protocol::T_DOUBLE, protocol::T_STRING, protocol::T_LIST, protocol::T_SET, protocol::T_MAP, protocol::T_STRUCT};
    if (c > 12) protocol::TProtocolException::bad("compact type");
    return k[c];
}
}  // namespace compact
class CompactProtocolWriter : public WriterBase {
public:
    using T = protocol::TType;
    static constexpr bool kUsesFieldNames() { return false; }
    uint32_t writeStructBegin(const char*) { stack_.push_back(last_); last_ = 0; return 0; }
    uint32_t writeStructEnd() { last_ = stack_.back(); stack_.pop_back(); return 0; }
    uint32_t writeFieldBegin(const char*, T t, int16_t id) { if (t == protocol::T_BOOL) { boolId_ = id; pending_ = true; return 0; } return field(compact::of(t), id); }
    uint32_t writeFieldEnd() { return 0; }
    uint32_t writeFieldStop() { return put(0); }
    uint32_t writeBool(bool b) { if (pending_) { pending_ = false; return field(b ? 1 : 2, boolId_); } return put(b ? 1 : 2); }
    uint32_t writeByte(int8_t b) { return put(b); }
    uint32_t writeI16(int16_t v) { return writeI64(v); }
    uint32_t writeI32(int32_t v) { return writeI64(v); }
    uint32_t writeI64(int64_t v) { return varint(static_cast<uint64_t>(v) << 1 ^ static_cast<uint64_t>(v >> 63)); }
    uint32_t writeDouble(double d) { int64_t v; memcpy(&v, &d, 8); return be(v); }
    uint32_t writeBinary(const std::string& s) { auto n = varint(s.size()); return n + put(s); }
    uint32_t writeString(const std::string& s) { return writeBinary(s); }
    uint32_t writeListBegin(T t, uint32_t n) { if (n <= 14) return put(n << 4 | compact::of(t)); auto x = put(0xf0 | compact::of(t)); return x + varint(n); }
    uint32_t writeListEnd() { return 0; }
    uint32_t writeSetBegin(T t, uint32_t n) { return writeListBegin(t, n); }
    uint32_t writeSetEnd() { return 0; }
    uint32_t writeMapBegin(T k, T v, uint32_t n) { if (n == 0) return put(0); auto x = varint(n); return x + put(compact::of(k) << 4 | compact::of(v)); }
    uint32_t writeMapEnd() { return 0; }
    uint32_t serializedStructSize(const char*) const { return 0; }
    uint32_t serializedFieldSize(const char*, T, int16_t) const { return 1 + 3; }
    uint32_t serializedSizeStop() const { return 1; }
    uint32_t serializedSizeBool(bool) const { return 1; }
    uint32_t serializedSizeByte(int8_t) const { return 1; }
    uint32_t serializedSizeI16(int16_t) const { return 3; }
    uint32_t serializedSizeI32(int32_t) const { return 5; }
    uint32_t serializedSizeI64(int64_t) const { return 10; }
    uint32_t serializedSizeDouble(double) const { return 8; }
    uint32_t serializedSizeBinary(const std::string& s) const { return 5 + s.size(); }
    uint32_t serializedSizeString(const std::string& s) const { return 5 + s.size(); }
    uint32_t serializedSizeZCBinary(const std::string& s) const { return 5 + s.size(); }
    uint32_t serializedSizeListBegin(T, uint32_t) const { return 6; }
    uint32_t serializedSizeSetBegin(T, uint32_t) const { return 6; }
    uint32_t serializedSizeMapBegin(T, T, uint32_t) const { return 6; }
private:
    uint32_t varint(uint64_t v) { uint32_t n = 1; while (v >= 128) { put((v & 127) | 128); v >>= 7; ++n; } put(v); return n; }
    uint32_t field(uint8_t t, int16_t id) {
        uint32_t n;
        if (id > last_ && id - last_ <= 15) n = put((id - last_) << 4 | t);
        else { n = put(t); n += writeI16(id); }
        last_ = id;
        return n;
    }
    std::vector<int16_t> stack_;
    int16_t last_{0}, boolId_{0};
    bool pending_{false};
};
class CompactProtocolReader : public ReaderBase<CompactProtocolReader> {
public:
    using T = protocol::TType;
    static constexpr bool kUsesFieldNames() { return false; }
    void readStructBegin(std::string&) { stack_.push_back(last_); last_ = 0; }
    void readStructEnd() { last_ = stack_.back(); stack_.pop_back(); }
    void readFieldBegin(std::string&, T& t, int16_t& id) {
        auto b = byte();
        t = compact::to(b & 15);
        if (t == protocol::T_STOP) { id = 0; return; }
        if (b >> 4) id = last_ + (b >> 4); else readI16(id);
        if (t == protocol::T_BOOL) { pending_ = true; bool_ = (b & 15) == 1; }
        last_ = id;
    }
    void readFieldEnd() {}
    void readBool(bool& b) { if (pending_) { pending_ = false; b = bool_; } else { b = byte() == 1; } }
    void readByte(int8_t& v) { v = byte(); }
    void readI16(int16_t& v) { int64_t x; readI64(x); v = x; }
    void readI32(int32_t& v) { int64_t x; readI64(x); v = x; }
    void readI64(int64_t& v) { auto u = varint(); v = static_cast<int64_t>(u >> 1) ^ -static_cast<int64_t>(u & 1); }
    void readDouble(double& d) { uint64_t v = 0; for (int i = 0; i < 8; ++i) v = v << 8 | byte(); memcpy(&d, &v, 8); }
    void readBinary(std::string& s) { s = bytes(varint()); }
    void readString(std::string& s) { readBinary(s); }
    void readListBegin(T& t, uint32_t& n) { auto b = byte(); t = compact::to(b & 15); n = b >> 4; if (n == 15) n = varint(); }
    void readListEnd() {}
    void readSetBegin(T& t, uint32_t& n) { readListBegin(t, n); }
    void readSetEnd() {}
    void readMapBegin(T& k, T& v, uint32_t& n) { n = varint(); k = v = protocol::T_STOP; if (n) { auto b = byte(); k = compact::to(b >> 4); v = compact::to(b & 15); } }
    void readMapEnd() {}
private:
    uint64_t varint() { uint64_t v = 0; for (int s = 0; s < 70; s += 7) { auto b = byte(); v |= static_cast<uint64_t>(b & 127) << s; if (!(b & 128)) return v; } protocol::TProtocolException::bad("varint"); }
    std::vector<int16_t> stack_;
    int16_t last_{0};
    bool pending_{false}, bool_{false};
};

// Words, one per item: fields by name, and the type of whatever follows.
class NamesProtocolWriter : public WriterBase {
public:
    using T = protocol::TType;
    static constexpr bool kUsesFieldNames() { return true; }
    uint32_t writeStructBegin(const char*) { return word(std::string("{")); }
    uint32_t writeStructEnd() { return word(std::string("}")); }
    uint32_t writeFieldBegin(const char* n, T, int16_t) { return word(std::string("=") + n); }
    uint32_t writeFieldEnd() { return 0; }
    uint32_t writeFieldStop() { return 0; }
    uint32_t writeBool(bool b) { return word(std::string(b ? "b1" : "b0")); }
    uint32_t writeByte(int8_t v) { return num('y', v); }
    uint32_t writeI16(int16_t v) { return num('h', v); }
    uint32_t writeI32(int32_t v) { return num('i', v); }
    uint32_t writeI64(int64_t v) { return num('l', v); }
    uint32_t writeDouble(double d) { char b[64]; snprintf(b, sizeof b, "d%a", d); return word(std::string(b)); }
    uint32_t writeBinary(const std::string& s) { std::string h = "s"; char b[4]; for (unsigned char c : s) { snprintf(b, sizeof b, "%02x", c); h += b; } return word(h); }
    uint32_t writeString(const std::string& s) { return writeBinary(s); }
    uint32_t writeListBegin(T t, uint32_t n) { return word("L" + std::to_string(t) + ":" + std::to_string(n)); }
    uint32_t writeListEnd() { return 0; }
    uint32_t writeSetBegin(T t, uint32_t n) { return word("S" + std::to_string(t) + ":" + std::to_string(n)); }
    uint32_t writeSetEnd() { return 0; }
    uint32_t writeMapBegin(T k, T v, uint32_t n) { return word("M" + std::to_string(k) + ":" + std::to_string(v) + ":" + std::to_string(n)); }
    uint32_t writeMapEnd() { return 0; }
private:
    uint32_t num(char c, int64_t v) { return word(c + std::to_string(v)); }
    uint32_t word(const std::string& s) { put(s); put(' '); return s.size() + 1; }
};
class NamesProtocolReader : public ReaderBase<NamesProtocolReader> {
public:
    using T = protocol::TType;
    static constexpr bool kUsesFieldNames() { return true; }
    void readStructBegin(std::string&) { want('{'); }
    void readStructEnd() { want('}'); }
    void readFieldBegin(std::string& n, T& t, int16_t& id) {
        id = 0;
        if (in_.at(at_) == '}') { n.clear(); t = protocol::T_STOP; return; }
        n = want('=');
        t = protocol::T_VOID;
    }
    void readFieldEnd() {}
    void readBool(bool& b) { b = want('b') == "1"; }
    void readByte(int8_t& v) { v = std::stoll(want('y')); }
    void readI16(int16_t& v) { v = std::stoll(want('h')); }
    void readI32(int32_t& v) { v = std::stoll(want('i')); }
    void readI64(int64_t& v) { v = std::stoll(want('l')); }
    void readDouble(double& d) { d = strtod(want('d').c_str(), nullptr); }
    void readBinary(std::string& s) { auto h = want('s'); s.clear(); for (size_t i = 0; i + 1 < h.size(); i += 2) s.push_back(static_cast<char>(std::stoi(h.substr(i, 2), nullptr, 16))); }
    void readString(std::string& s) { readBinary(s); }
    void readListBegin(T& t, uint32_t& n) { auto w = want('L'); t = static_cast<T>(std::stoi(w)); n = std::stoi(w.substr(w.find(':') + 1)); }
    void readListEnd() {}
    void readSetBegin(T& t, uint32_t& n) { auto w = want('S'); t = static_cast<T>(std::stoi(w)); n = std::stoi(w.substr(w.find(':') + 1)); }
    void readSetEnd() {}
    void readMapBegin(T& k, T& v, uint32_t& n) { auto w = want('M'); auto a = w.find(':'), b = w.rfind(':'); k = static_cast<T>(std::stoi(w)); v = static_cast<T>(std::stoi(w.substr(a + 1))); n = std::stoi(w.substr(b + 1)); }
    void readMapEnd() {}
    void skip(T t) {
        if (t != protocol::T_VOID) return ReaderBase::skip(t);
        switch (in_.at(at_)) {
        case '{': return ReaderBase::skip(protocol::T_STRUCT);
        case 'L': return ReaderBase::skip(protocol::T_LIST);
        case 'S': return ReaderBase::skip(protocol::T_SET);
        case 'M': return ReaderBase::skip(protocol::T_MAP);
        default: word();
        }
    }
private:
    std::string word() { auto e = in_.find(' ', at_); if (e == std::string::npos) protocol::TProtocolException::bad("end of input"); auto w = in_.substr(at_, e - at_); at_ = e + 1; return w; }
    std::string want(char c) { auto w = word(); if (w[0] != c) protocol::TProtocolException::bad("unexpected word"); return w.substr(1); }
};

struct CompactSerializer {
    template <class T> static void serialize(const T& v, std::string* out) { CompactProtocolWriter w; Cpp2Ops<T>::write(&w, &v); out->append(w.out); }      // fbthrift appends
    template <class T> static std::string serialize(const T& v) { std::string s; serialize(v, &s); return s; }
    template <class S, class T> static size_t deserialize(const S& s, T& v) { CompactProtocolReader r; r.setInput(std::string(s.data(), s.size())); Cpp2Ops<T>::read(&r, &v); return r.at(); }
};
}  // namespace thrift
}  // namespace apache
