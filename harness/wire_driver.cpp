// Writes and reads what travels between peers: src/common/datatypes/*Ops.inl and
// src/common/graph/*Ops.inl, over three protocols.
#include "common/base/Base.h"
#include "common/datatypes/HostAddrOps.inl"
#include "common/datatypes/KeyValueOps.inl"
#include "common/datatypes/ValueOps.inl"
#include "common/graph/PairOps.inl"
#include "common/graph/ProfilingStatsOps.inl"
#include "common/graph/PlanNodeBranchInfoOps.inl"
#include "common/graph/PlanNodeDescriptionOps.inl"
#include "common/graph/PlanDescriptionOps.inl"
#include "common/graph/ExecutionResponseOps.inl"
#include "common/graph/AuthResponseOps.inl"
#include "value_io.h"
using namespace nebula;  // NOLINT
using namespace apache::thrift;  // NOLINT
using protocol::TType;
using vio::Words;

// ---- what the words of a script say, and back
template <class T> struct Text;
template <> struct Text<Value> { static Value get(const Words& w, size_t& i) { return vio::get(w, i); } static void put(std::string& o, const Value& v) { vio::put(o, v); } };
template <> struct Text<HostAddr> {
    static HostAddr get(const Words& w, size_t& i) { auto h = vio::str(w, i); return HostAddr(h, vio::num(w, i)); }
    static void put(std::string& o, const HostAddr& h) { vio::tok(o, vio::hex(h.host)); vio::n(o, h.port); }
};
template <> struct Text<KeyValue> {
    static KeyValue get(const Words& w, size_t& i) { auto k = vio::str(w, i); return KeyValue(std::make_pair(k, vio::str(w, i))); }
    static void put(std::string& o, const KeyValue& k) { vio::tok(o, vio::hex(k.key)); vio::tok(o, vio::hex(k.value)); }
};
template <> struct Text<std::string> { static std::string get(const Words& w, size_t& i) { return vio::str(w, i); } static void put(std::string& o, const std::string& s) { vio::tok(o, vio::hex(s)); } };
template <> struct Text<int64_t> { static int64_t get(const Words& w, size_t& i) { return vio::num(w, i); } static void put(std::string& o, int64_t v) { vio::n(o, v); } };
template <> struct Text<int32_t> { static int32_t get(const Words& w, size_t& i) { return vio::num(w, i); } static void put(std::string& o, int32_t v) { vio::n(o, v); } };
template <> struct Text<DataSet> { static DataSet get(const Words& w, size_t& i) { return vio::dataset(w, i); } static void put(std::string& o, const DataSet& v) { vio::dataset(o, v); } };
template <class T> struct Text<std::vector<T>> {
    static std::vector<T> get(const Words& w, size_t& i) { std::vector<T> r; for (auto n = vio::num(w, i); n > 0; --n) r.emplace_back(Text<T>::get(w, i)); return r; }
    static void put(std::string& o, const std::vector<T>& v) { vio::n(o, v.size()); for (auto& x : v) Text<T>::put(o, x); }
};
template <class K, class T> struct Text<std::unordered_map<K, T>> {
    static std::unordered_map<K, T> get(const Words& w, size_t& i) { std::unordered_map<K, T> r; for (auto n = vio::num(w, i); n > 0; --n) { auto k = Text<K>::get(w, i); r.emplace(k, Text<T>::get(w, i)); } return r; }
    static void put(std::string& o, const std::unordered_map<K, T>& v) { vio::n(o, v.size()); for (auto& x : v) { Text<K>::put(o, x.first); Text<T>::put(o, x.second); } }
};
template <class T> struct Text<std::unique_ptr<T>> {
    static std::unique_ptr<T> get(const Words& w, size_t& i) { if (w.at(i++) == "-") return nullptr; return std::make_unique<T>(Text<T>::get(w, i)); }
    static void put(std::string& o, const std::unique_ptr<T>& v) { vio::tok(o, v ? "+" : "-"); if (v) Text<T>::put(o, *v); }
};
template <class T> void fill(T& x, const Words& w, size_t& i) { x = Text<T>::get(w, i); }
#define FIELDS(TYPE, ...)                                                                            \
    template <> struct Text<TYPE> {                                                                  \
        static TYPE get(const Words& w, size_t& i) { TYPE x; each(x, [&](auto& f) { fill(f, w, i); }); return x; }   \
        static void put(std::string& o, const TYPE& x) { each(const_cast<TYPE&>(x), [&](auto& f) { Text<std::decay_t<decltype(f)>>::put(o, f); }); }   \
        template <class F> static void each(TYPE& x, F f) { __VA_ARGS__ }                             \
    };
template <> struct Text<bool> { static bool get(const Words& w, size_t& i) { return vio::num(w, i); } static void put(std::string& o, bool v) { vio::n(o, v); } };
template <> struct Text<ErrorCode> { static ErrorCode get(const Words& w, size_t& i) { return static_cast<ErrorCode>(vio::num(w, i)); } static void put(std::string& o, ErrorCode v) { vio::n(o, static_cast<int>(v)); } };
FIELDS(Pair, f(x.key); f(x.value);)
FIELDS(ProfilingStats, f(x.rows); f(x.execDurationInUs); f(x.totalDurationInUs); f(x.otherStats);)
FIELDS(PlanNodeBranchInfo, f(x.isDoBranch); f(x.conditionNodeId);)
FIELDS(PlanNodeDescription, f(x.name); f(x.id); f(x.outputVar); f(x.description); f(x.profiles); f(x.branchInfo); f(x.dependencies);)
FIELDS(PlanDescription, f(x.planNodeDescs); f(x.nodeIndexMap); f(x.format); f(x.optimize_time_in_us);)
FIELDS(ExecutionResponse, f(x.errorCode); f(x.latencyInUs); f(x.data); f(x.spaceName); f(x.errorMsg); f(x.planDesc); f(x.comment);)
FIELDS(AuthResponse, f(x.errorCode); f(x.errorMsg); f(x.sessionId); f(x.timeZoneOffsetSeconds); f(x.timeZoneName);)

// ---- wire trees: { n id=name sub ... | y h i l number | b0 | d%a | shex | L n .. | S n .. | M n k v ..
static const std::map<char, TType> kTypes{{'{', protocol::T_STRUCT}, {'y', protocol::T_BYTE}, {'h', protocol::T_I16}, {'i', protocol::T_I32}, {'l', protocol::T_I64}, {'b', protocol::T_BOOL},
                                          {'d', protocol::T_DOUBLE}, {'s', protocol::T_STRING}, {'L', protocol::T_LIST}, {'S', protocol::T_SET}, {'M', protocol::T_MAP}};
template <class R> void dump(std::string& o, R& r, TType t) {
    switch (t) {
    case protocol::T_BYTE: { int8_t v; r.readByte(v); vio::tok(o, "y" + std::to_string(v)); return; }
    case protocol::T_I16: { int16_t v; r.readI16(v); vio::tok(o, "h" + std::to_string(v)); return; }
    case protocol::T_I32: { int32_t v; r.readI32(v); vio::tok(o, "i" + std::to_string(v)); return; }
    case protocol::T_I64: { int64_t v; r.readI64(v); vio::tok(o, "l" + std::to_string(v)); return; }
    case protocol::T_BOOL: { bool v; r.readBool(v); vio::tok(o, v ? "b1" : "b0"); return; }
    case protocol::T_DOUBLE: { double v; r.readDouble(v); char b[64]; snprintf(b, sizeof b, "d%a", v); vio::tok(o, b); return; }
    case protocol::T_STRING: { std::string v; r.readBinary(v); auto h = vio::hex(v); h[0] = 's'; vio::tok(o, h); return; }
    case protocol::T_STRUCT: {
        std::string n, body; TType ft; int16_t id; int k = 0;
        r.readStructBegin(n);
        for (;; ++k) {
            r.readFieldBegin(n, ft, id);
            if (ft == protocol::T_STOP) break;
            vio::tok(body, std::to_string(id) + "=");
            dump(body, r, ft);
            r.readFieldEnd();
        }
        r.readStructEnd();
        vio::tok(o, "{"); vio::n(o, k); if (k) vio::tok(o, body);
        return;
    }
    case protocol::T_LIST: case protocol::T_SET: {
        TType e; uint32_t n;
        if (t == protocol::T_LIST) r.readListBegin(e, n); else r.readSetBegin(e, n);
        vio::tok(o, t == protocol::T_LIST ? "L" : "S"); vio::n(o, n);
        while (n--) dump(o, r, e);
        return;
    }
    case protocol::T_MAP: { TType k, e; uint32_t n; r.readMapBegin(k, e, n); vio::tok(o, "M"); vio::n(o, n); while (n--) { dump(o, r, k); dump(o, r, e); } return; }
    default: protocol::TProtocolException::bad("type");
    }
}
// the words of the protocol with names
void dumpNames(std::string& o, const Words& w, size_t& i) {
    const auto& x = w.at(i++);
    switch (x[0]) {
    case '{': {
        std::string body; int k = 0;
        for (; w.at(i) != "}"; ++k) { if (w[i][0] != '=') protocol::TProtocolException::bad("field"); vio::tok(body, w[i++]); dumpNames(body, w, i); }
        ++i;
        vio::tok(o, "{"); vio::n(o, k); if (k) vio::tok(o, body);
        return;
    }
    case 'L': case 'S': { int n = std::stoi(x.substr(x.find(':') + 1)); vio::tok(o, x.substr(0, 1)); vio::n(o, n); while (n--) dumpNames(o, w, i); return; }
    case 'M': { int n = std::stoi(x.substr(x.rfind(':') + 1)); vio::tok(o, "M"); vio::n(o, n); while (n--) { dumpNames(o, w, i); dumpNames(o, w, i); } return; }
    default: vio::tok(o, x);
    }
}
template <class P> void emit(P& p, const Words& w, size_t& i) {
    const std::string x = w.at(i++);
    auto num = [&] { return std::stoll(x.substr(1)); };
    switch (x[0]) {
    case 'y': p.writeByte(num()); return;
    case 'h': p.writeI16(num()); return;
    case 'i': p.writeI32(num()); return;
    case 'l': p.writeI64(num()); return;
    case 'b': p.writeBool(x[1] == '1'); return;
    case 'd': p.writeDouble(strtod(x.c_str() + 1, nullptr)); return;
    case 's': p.writeBinary(drv::unhex(x)); return;
    case '{': {
        p.writeStructBegin("");
        for (auto n = vio::num(w, i); n > 0; --n) {
            auto& f = w.at(i++);
            auto e = f.find('=');
            p.writeFieldBegin(f.c_str() + e + 1, kTypes.at(w.at(i)[0]), std::stoi(f));
            emit(p, w, i);
            p.writeFieldEnd();
        }
        p.writeFieldStop();
        p.writeStructEnd();
        return;
    }
    case 'L': case 'S': { auto n = vio::num(w, i); auto t = n ? kTypes.at(w.at(i)[0]) : protocol::T_STRUCT; x[0] == 'L' ? p.writeListBegin(t, n) : p.writeSetBegin(t, n); for (; n > 0; --n) emit(p, w, i); return; }
    case 'M': {
        auto n = vio::num(w, i);
        auto k = protocol::T_STRING, t = protocol::T_STRUCT;
        if (n) { k = kTypes.at(w.at(i)[0]); size_t j = i; std::string scratch; CompactProtocolWriter q; emit(q, w, j); t = kTypes.at(w.at(j)[0]); }
        p.writeMapBegin(k, t, n);
        for (; n > 0; --n) { emit(p, w, i); emit(p, w, i); }
        return;
    }
    }
    throw std::runtime_error("tree token " + x);
}

template <class T, class R> std::string back(const std::string& s) {
    T v{};
    R r;
    r.setInput(s);
    try { Cpp2Ops<T>::read(&r, &v); } catch (const protocol::TProtocolException& e) { return "fail"; }
    if (r.at() != s.size()) return "rest";
    std::string o;
    Text<T>::put(o, v);
    return o;
}
template <class T, class W, class R> void one(drv::Obj& o, const std::string& p, const T& v, bool sizes) {
    W w;
    auto n = Cpp2Ops<T>::write(&w, &v);
    bool ok = n == w.out.size() && Cpp2Ops<T>::thriftType() == protocol::T_STRUCT;
    std::string t;
    if constexpr (std::is_same<W, NamesProtocolWriter>::value) {
        auto ws = drv::words(w.out); size_t i = 0;
        dumpNames(t, ws, i);
    } else {
        W z;
        ok = ok && Cpp2Ops<T>::serializedSize(&z, &v) >= n && Cpp2Ops<T>::serializedSizeZC(&z, &v) >= n;
        R r;
        r.setInput(w.out);
        dump(t, r, protocol::T_STRUCT);
        ok = ok && r.at() == n;
    }
    o.str(p, t).boolean("ok" + p, ok).str("back" + p, back<T, R>(w.out));
}
template <class T> std::string enc(const Words& w, size_t i) {
    T v = Text<T>::get(w, i);
    drv::Obj o;
    one<T, BinaryProtocolWriter, BinaryProtocolReader>(o, "b", v, true);
    one<T, CompactProtocolWriter, CompactProtocolReader>(o, "c", v, true);
    one<T, NamesProtocolWriter, NamesProtocolReader>(o, "n", v, false);
    return o.done();
}
template <class T> std::string dec(const Words& w, size_t i0) {
    drv::Obj o;
    { BinaryProtocolWriter p; auto i = i0; emit(p, w, i); o.str("b", back<T, BinaryProtocolReader>(p.out)); }
    { CompactProtocolWriter p; auto i = i0; emit(p, w, i); o.str("c", back<T, CompactProtocolReader>(p.out)); }
    { NamesProtocolWriter p; auto i = i0; emit(p, w, i); o.str("n", back<T, NamesProtocolReader>(p.out)); }
    return o.done();
}
template <class T> std::string run(const Words& w) { return w[0] == "enc" ? enc<T>(w, 2) : dec<T>(w, 2); }
int main() {
    return drv::loop([](const Words& w) -> std::string {
        const auto& t = w.at(1);
        if (t == "Value") return run<Value>(w);
        if (t == "HostAddr") return run<HostAddr>(w);
        if (t == "KeyValue") return run<KeyValue>(w);
        if (t == "ExecutionResponse") return run<ExecutionResponse>(w);
        if (t == "AuthResponse") return run<AuthResponse>(w);
        return "{}";
    });
}
