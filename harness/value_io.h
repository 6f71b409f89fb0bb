// Values to and from prefix text (tokens separated by spaces); see lib/vals.py.
#pragma once
#include "common/base/Base.h"
#include "common/datatypes/DataSet.h"
#include "common/datatypes/Date.h"
#include "common/datatypes/Edge.h"
#include "common/datatypes/List.h"
#include "common/datatypes/Map.h"
#include "common/datatypes/Path.h"
#include "common/datatypes/Set.h"
#include "common/datatypes/Value.h"
#include "common/datatypes/Vertex.h"
#include "drv.h"
namespace vio {
using namespace nebula;  // NOLINT
using Words = std::vector<std::string>;
using Props = std::unordered_map<std::string, Value>;
inline Value get(const Words& w, size_t& i);
inline int64_t num(const Words& w, size_t& i) { return std::stoll(w.at(i++)); }
inline std::string str(const Words& w, size_t& i) { return drv::unhex(w.at(i++)); }
inline Props props(const Words& w, size_t& i) {
    Props p;
    for (auto n = num(w, i); n > 0; --n) { auto k = str(w, i); p[k] = get(w, i); }
    return p;
}
inline Vertex vertex(const Words& w, size_t& i) {
    Vertex v;
    v.vid = get(w, i);
    for (auto n = num(w, i); n > 0; --n) { auto k = str(w, i); v.tags.emplace_back(k, props(w, i)); }
    return v;
}
inline Edge edge(const Words& w, size_t& i) {
    auto s = get(w, i); auto d = get(w, i); auto t = num(w, i); auto n = str(w, i); auto r = num(w, i); auto p = props(w, i);
    return Edge(std::move(s), std::move(d), t, n, r, std::move(p));
}
inline Step step(const Words& w, size_t& i) {
    auto d = vertex(w, i); auto t = num(w, i); auto n = str(w, i); auto r = num(w, i); auto p = props(w, i);
    return Step(std::move(d), t, n, r, std::move(p));
}
inline Path path(const Words& w, size_t& i) {
    Path p;
    p.src = vertex(w, i);
    for (auto n = num(w, i); n > 0; --n) p.steps.emplace_back(step(w, i));
    return p;
}
inline List list(const Words& w, size_t& i) {
    List l;
    for (auto n = num(w, i); n > 0; --n) l.values.emplace_back(get(w, i));
    return l;
}
inline DataSet dataset(const Words& w, size_t& i) {
    DataSet g;
    for (auto n = num(w, i); n > 0; --n) g.colNames.emplace_back(str(w, i));
    for (auto n = num(w, i); n > 0; --n) g.rows.emplace_back(list(w, i));
    return g;
}
inline Value get(const Words& w, size_t& i) {
    const std::string& t = w.at(i++);
    switch (t[0]) {
    case 'E': return Value();
    case 'N': return Value(static_cast<NullType>(num(w, i)));
    case 'B': return Value(num(w, i) != 0);
    case 'I': return Value(num(w, i));
    case 'F': return Value(strtod(w.at(i++).c_str(), nullptr));
    case 'S': return Value(str(w, i));
    case 'D': { auto y = num(w, i), m = num(w, i), d = num(w, i); return Value(Date(y, m, d)); }
    case 'T': { auto h = num(w, i), m = num(w, i), s = num(w, i), u = num(w, i); return Value(Time(h, m, s, u)); }
    case 'X': { auto y = num(w, i), o = num(w, i), d = num(w, i), h = num(w, i), m = num(w, i), s = num(w, i), u = num(w, i);
                return Value(DateTime(y, o, d, h, m, s, u)); }
    case 'V': return Value(vertex(w, i));
    case 'W': return Value(edge(w, i));
    case 'P': return Value(path(w, i));
    case 'L': return Value(list(w, i));
    case 'M': return Value(Map(props(w, i)));
    case 'U': { Set s; for (auto n = num(w, i); n > 0; --n) s.values.emplace(get(w, i)); return Value(std::move(s)); }
    case 'G': return Value(dataset(w, i));
    }
    throw std::runtime_error("value token " + t);
}
inline std::string hex(const std::string& s) { std::string r = "x"; char b[4]; for (unsigned char c : s) { snprintf(b, sizeof b, "%02x", c); r += b; } return r; }
inline void put(std::string& o, const Value& v);
inline void tok(std::string& o, const std::string& s) { if (!o.empty()) o += ' '; o += s; }
inline void n(std::string& o, long long v) { tok(o, std::to_string(v)); }
inline void props(std::string& o, const Props& p) { n(o, p.size()); for (auto& e : p) { tok(o, hex(e.first)); put(o, e.second); } }
inline void vertex(std::string& o, const Vertex& v) { put(o, v.vid); n(o, v.tags.size()); for (auto& t : v.tags) { tok(o, hex(t.name)); props(o, t.props); } }
inline void edge(std::string& o, const Edge& e) { put(o, e.src); put(o, e.dst); n(o, e.type); tok(o, hex(e.name)); n(o, e.ranking); props(o, e.props); }
inline void step(std::string& o, const Step& e) { vertex(o, e.dst); n(o, e.type); tok(o, hex(e.name)); n(o, e.ranking); props(o, e.props); }
inline void path(std::string& o, const Path& p) { vertex(o, p.src); n(o, p.steps.size()); for (auto& s : p.steps) step(o, s); }
inline void list(std::string& o, const List& l) { n(o, l.values.size()); for (auto& v : l.values) put(o, v); }
inline void dataset(std::string& o, const DataSet& g) {
    n(o, g.colNames.size()); for (auto& c : g.colNames) tok(o, hex(c));
    n(o, g.rows.size()); for (auto& r : g.rows) list(o, r);
}
inline void put(std::string& o, const Value& v) {
    char b[64];
    switch (v.type()) {
    case Value::Type::__EMPTY__: tok(o, "E"); return;
    case Value::Type::NULLVALUE: tok(o, "N"); n(o, static_cast<int>(v.getNull())); return;
    case Value::Type::BOOL: tok(o, "B"); n(o, v.getBool()); return;
    case Value::Type::INT: tok(o, "I"); n(o, v.getInt()); return;
    case Value::Type::FLOAT: tok(o, "F"); snprintf(b, sizeof b, "%a", v.getFloat()); tok(o, b); return;
    case Value::Type::STRING: tok(o, "S"); tok(o, hex(v.getStr())); return;
    case Value::Type::DATE: { auto& d = v.getDate(); tok(o, "D"); n(o, d.year); n(o, d.month); n(o, d.day); return; }
    case Value::Type::TIME: { auto& t = v.getTime(); tok(o, "T"); n(o, t.hour); n(o, t.minute); n(o, t.sec); n(o, t.microsec); return; }
    case Value::Type::DATETIME: { auto& t = v.getDateTime(); tok(o, "X"); n(o, t.year); n(o, t.month); n(o, t.day); n(o, t.hour); n(o, t.minute); n(o, t.sec); n(o, t.microsec); return; }
    case Value::Type::VERTEX: tok(o, "V"); vertex(o, v.getVertex()); return;
    case Value::Type::EDGE: tok(o, "W"); edge(o, v.getEdge()); return;
    case Value::Type::PATH: tok(o, "P"); path(o, v.getPath()); return;
    case Value::Type::LIST: tok(o, "L"); list(o, v.getList()); return;
    case Value::Type::MAP: tok(o, "M"); props(o, v.getMap().kvs); return;
    case Value::Type::SET: tok(o, "U"); n(o, v.getSet().values.size()); for (auto& e : v.getSet().values) put(o, e); return;
    case Value::Type::DATASET: tok(o, "G"); dataset(o, v.getDataSet()); return;
    }
    tok(o, "?"); n(o, static_cast<int64_t>(v.type()));
}
inline std::string text(const Value& v) { std::string o; put(o, v); return o; }
inline std::string qtext(const Value& v) { return drv::quote(text(v)); }
}  // namespace vio
