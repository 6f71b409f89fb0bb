// Stand-ins for what the thrift compiler's output relies on, and conversions of the types to and from folly::dynamic.
#pragma once
#include <folly/dynamic.h>
#include <folly/json.h>
#include <algorithm>
#include <cstring>
#include <map>
#include <memory>
#include <set>
#include <stdexcept>
#include <string>
#include <unordered_map>
#include <unordered_set>
#include <vector>
#include "common/base/Base.h"
#include "common/thrift/ThriftTypes.h"
#include "common/datatypes/Value.h"
#include "common/datatypes/Date.h"
#include "common/datatypes/Vertex.h"
#include "common/datatypes/Edge.h"
#include "common/datatypes/Path.h"
#include "common/datatypes/List.h"
#include "common/datatypes/Map.h"
#include "common/datatypes/Set.h"
#include "common/datatypes/DataSet.h"
#include "common/datatypes/HostAddr.h"
#include "common/datatypes/KeyValue.h"
#include "value_io.h"
namespace apache { namespace thrift {
template <class T> struct TEnumTraits;
struct bad_optional_field_access : std::runtime_error { bad_optional_field_access() : std::runtime_error("accessing unset optional field") {} };
namespace util {
template <class E> const char* enumName(E e, const char* d = nullptr) { auto p = TEnumTraits<E>::findName(e); return p ? p : d; }
template <class E> std::string enumNameSafe(E e) { auto p = TEnumTraits<E>::findName(e); return p ? p : std::to_string(static_cast<int>(e)); }
}
}}
namespace vf {
template <class T> struct Ref {
    T& v; std::conditional_t<std::is_const<T>::value, const bool, bool>& set;
    Ref(T& x, std::conditional_t<std::is_const<T>::value, const bool, bool>& s) : v(x), set(s) {}
    T& operator*() const { return v; } T* operator->() const { return &v; } T& value() const { return v; }
    bool has_value() const { return set; } bool is_set() const { return set; }
    template <class U> const Ref& operator=(U&& x) const { v = std::forward<U>(x); set = true; return *this; }
    template <class... A> T& emplace(A&&... a) const { v = T(std::forward<A>(a)...); set = true; return v; }
    T& ensure() const { set = true; return v; }
};
template <class T> struct OptRef {
    T& v; std::conditional_t<std::is_const<T>::value, const bool, bool>& set;
    OptRef(T& x, std::conditional_t<std::is_const<T>::value, const bool, bool>& s) : v(x), set(s) {}
    T& value() const { if (!set) throw apache::thrift::bad_optional_field_access(); return v; }
    T& operator*() const { return value(); } T* operator->() const { return &value(); }
    bool has_value() const { return set; } explicit operator bool() const { return set; }
    template <class U> std::decay_t<T> value_or(U&& d) const { return set ? v : static_cast<std::decay_t<T>>(std::forward<U>(d)); }
    template <class U> const OptRef& operator=(U&& x) const { v = std::forward<U>(x); set = true; return *this; }
    template <class... A> T& emplace(A&&... a) const { v = T(std::forward<A>(a)...); set = true; return v; }
    void reset() const { v = T(); set = false; }
};
using folly::dynamic;
inline std::string enc(const std::string& s) {
    bool ok = s.compare(0, 2, "x:") != 0;
    for (unsigned char c : s) ok = ok && c >= 32 && c < 127;
    return ok ? s : "x:" + vio::hex(s).substr(1);
}
inline std::string dec(const std::string& s) { return s.compare(0, 2, "x:") ? s : drv::unhex("x" + s.substr(2)); }
inline dynamic toDyn(const std::string& s) { return enc(s); }
inline void fromDyn(const dynamic& d, std::string& s) { s = dec(d.asString()); }
inline dynamic toDyn(const nebula::Value& v) { return vio::text(v); }
inline void fromDyn(const dynamic& d, nebula::Value& v) { auto w = drv::words(d.asString()); size_t i = 0; v = vio::get(w, i); }
inline std::string hostText(const nebula::HostAddr& h) { return h.host.empty() && h.port == 0 ? "" : h.host + ":" + std::to_string(h.port); }
inline nebula::HostAddr hostOf(const std::string& s) { auto p = s.rfind(':'); return p == std::string::npos ? nebula::HostAddr("", 0) : nebula::HostAddr(s.substr(0, p), std::stoi(s.substr(p + 1))); }
inline dynamic toDyn(const nebula::HostAddr& h) { return hostText(h); }
inline void fromDyn(const dynamic& d, nebula::HostAddr& h) { h = hostOf(d.asString()); }
inline dynamic toDyn(const nebula::KeyValue& k) { return dynamic::array(enc(k.key), enc(k.value)); }
inline void fromDyn(const dynamic& d, nebula::KeyValue& k) { k.key = dec(d[0].asString()); k.value = dec(d[1].asString()); }
inline dynamic toDyn(const nebula::DataSet& x) { return vio::text(nebula::Value(x)); }
inline void fromDyn(const dynamic& d, nebula::DataSet& x) { nebula::Value v; fromDyn(d, v); x = v.getDataSet(); }
inline dynamic toDyn(const nebula::Row& r) { return vio::text(nebula::Value(r)); }
inline void fromDyn(const dynamic& d, nebula::Row& r) { nebula::Value v; fromDyn(d, v); r.values = v.getList().values; }
template <class T> std::enable_if_t<std::is_arithmetic<T>::value, dynamic> toDyn(const T& x) { return dynamic(x); }
inline dynamic toDyn(bool b) { return dynamic(b); }
inline void fromDyn(const dynamic& d, bool& b) { b = d.asBool(); }
inline void fromDyn(const dynamic& d, double& b) { b = d.asDouble(); }
inline void fromDyn(const dynamic& d, int8_t& b) { b = static_cast<int8_t>(d.asInt()); }
inline void fromDyn(const dynamic& d, int16_t& b) { b = static_cast<int16_t>(d.asInt()); }
inline void fromDyn(const dynamic& d, int32_t& b) { b = static_cast<int32_t>(d.asInt()); }
inline void fromDyn(const dynamic& d, int64_t& b) { b = d.asInt(); }
template <class T> std::enable_if_t<std::is_enum<T>::value, dynamic> toDyn(const T& x) { return apache::thrift::util::enumNameSafe(x); }
template <class T> std::enable_if_t<std::is_enum<T>::value> fromDyn(const dynamic& d, T& x) {
    if (d.isInt()) { x = static_cast<T>(d.asInt()); return; }
    if (!apache::thrift::TEnumTraits<T>::findValue(d.asString().c_str(), &x)) throw std::runtime_error("no such enumerator: " + d.asString());
}
template <class T> auto toDyn(const T& x) -> decltype(x.vf_dyn()) { return x.vf_dyn(); }
template <class T> auto fromDyn(const dynamic& d, T& x) -> decltype(x.vf_from(d)) { x.vf_from(d); }
template <class T> dynamic toDyn(const std::vector<T>& v);
template <class K, class V> dynamic toDyn(const std::unordered_map<K, V>& m);
template <class K, class V> dynamic toDyn(const std::map<K, V>& m);
template <class T> dynamic toDyn(const std::unordered_set<T>& v);
template <class T> dynamic toDyn(const std::set<T>& v);
template <class T> void fromDyn(const dynamic& d, std::vector<T>& v);
template <class K, class V> void fromDyn(const dynamic& d, std::unordered_map<K, V>& m);
template <class K, class V> void fromDyn(const dynamic& d, std::map<K, V>& m);
template <class T> void fromDyn(const dynamic& d, std::unordered_set<T>& v);
template <class T> void fromDyn(const dynamic& d, std::set<T>& v);
template <class T> dynamic toDyn(const std::vector<T>& v) { dynamic a = dynamic::array(); for (const auto& x : v) a.push_back(toDyn(static_cast<const T&>(x))); return a; }
inline dynamic sorted(std::vector<dynamic> v) {
    std::vector<std::pair<std::string, size_t>> k; for (size_t i = 0; i < v.size(); i++) k.emplace_back(folly::toJson(v[i]), i);
    std::sort(k.begin(), k.end()); dynamic a = dynamic::array(); for (auto& x : k) a.push_back(v[x.second]); return a;
}
template <class M> dynamic mapDyn(const M& m) { std::vector<dynamic> v; for (auto& e : m) v.push_back(dynamic::array(toDyn(e.first), toDyn(e.second))); return sorted(v); }
template <class M> dynamic setDyn(const M& m) { std::vector<dynamic> v; for (auto& e : m) v.push_back(toDyn(e)); return sorted(v); }
template <class K, class V> dynamic toDyn(const std::unordered_map<K, V>& m) { return mapDyn(m); }
template <class K, class V> dynamic toDyn(const std::map<K, V>& m) { return mapDyn(m); }
template <class T> dynamic toDyn(const std::unordered_set<T>& v) { return setDyn(v); }
template <class T> dynamic toDyn(const std::set<T>& v) { return setDyn(v); }
template <class T> void fromDyn(const dynamic& d, std::vector<T>& v) { v.clear(); for (auto& e : d) { T x{}; fromDyn(e, x); v.push_back(std::move(x)); } }
template <class M> void mapFrom(const dynamic& d, M& m) { m.clear(); for (auto& e : d) { typename M::key_type k{}; typename M::mapped_type x{}; fromDyn(e[0], k); fromDyn(e[1], x); m.emplace(std::move(k), std::move(x)); } }
template <class M> void setFrom(const dynamic& d, M& m) { m.clear(); for (auto& e : d) { typename M::key_type k{}; fromDyn(e, k); m.insert(std::move(k)); } }
template <class K, class V> void fromDyn(const dynamic& d, std::unordered_map<K, V>& m) { mapFrom(d, m); }
template <class K, class V> void fromDyn(const dynamic& d, std::map<K, V>& m) { mapFrom(d, m); }
template <class T> void fromDyn(const dynamic& d, std::unordered_set<T>& m) { setFrom(d, m); }
template <class T> void fromDyn(const dynamic& d, std::set<T>& m) { setFrom(d, m); }
}
