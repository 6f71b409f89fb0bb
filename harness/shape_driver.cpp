// Operations on paths, data sets and the like: values are put into a table with "def".
#include "value_io.h"
#include "common/datatypes/HostAddr.h"
#include <glog/logging.h>
using vio::Words;
using namespace nebula;  // NOLINT
static std::vector<Value> tab;
static const Value& at(const std::string& w) { return tab.at(std::stoul(w)); }
static std::string res(const Value& v) { return drv::Obj().str("r", vio::text(v)).done(); }
static std::string tried(bool ok, const Value& v) { return drv::Obj().boolean("ok", ok).str("r", vio::text(v)).done(); }
static std::string yes(bool ok) { return drv::Obj().boolean("ok", ok).done(); }
template <class T> static std::string made() {      // in memory that was used before
    static char room[sizeof(T)];
    memset(room, 0xA5, sizeof room);
    T* t = new (room) T();
    auto r = res(Value(*t));
    t->~T();
    return r;
}
template <class T> static std::string shown(const Value& v, const T& t) {
    std::stringstream a, b;
    a << v;
    b << t;
    return drv::Obj().bytes("c", v.toString()).boolean("ok", a.str() == v.toString() && b.str() == v.toString() && t.toString() == v.toString()).done();
}
int main() {
    return drv::loop([](const Words& w) -> std::string {
        const auto& o = w[0];
        if (o == "reset") { tab.clear(); return "{}"; }
        if (o == "def") { size_t i = 1; tab.emplace_back(vio::get(w, i)); return "{}"; }
        if (o == "host") {
            HostAddr x(drv::unhex(w[1]), std::stoi(w[2])), y(drv::unhex(w[3]), std::stoi(w[4]));
            std::hash<HostAddr> h;
            std::stringstream s;
            s << x;
            bool def = HostAddr() == HostAddr("", 0u);
            auto z = x;
            z.clear();
            if (!(z == HostAddr()) || s.str() != x.toString()) def = false;
            return drv::Obj().boolean("eq", def && x == y).boolean("ne", x != y).boolean("lt", x < y).bytes("c", x.toString()).boolean("h", h(x) == h(y)).done();
        }
        const Value& a = at(w[1]);
        if (o == "preverse") { Path p = a.getPath(); p.reverse(); return res(Value(p)); }
        if (o == "dupv") return yes(a.getPath().hasDuplicateVertices());
        if (o == "dupe") return yes(a.getPath().hasDuplicateEdges());
        if (o == "ereverse") { Edge e(a.getEdge()); e.reverse(); return res(Value(e)); }
        if (o == "eformat") { Edge e(a.getEdge()); e.format(); return res(Value(e)); }
        if (o == "size") return drv::Obj().num("n", a.isMap() ? a.getMap().size() : a.isSet() ? a.getSet().size() : a.getList().size()).done();
        if (o == "items") { List l; auto& x = a.getList(); l.reserve(3); for (size_t i = 0; i < x.size(); ++i) l.emplace_back(x[i]); return tried(x.empty(), Value(l)); }
        if (o == "dump") {
            auto& d = a.getDataSet();
            DataSet e(d.keys()), f;
            for (size_t i = 0; i < d.size(); ++i) e.rows.emplace_back(d.rowValues(i));
            f.colNames = d.keys();
            for (auto& r : d) f.rows.emplace_back(r);
            DataSet g(d);
            size_t k = 0;
            for (auto& r : g) { if (!(r == f.rows.at(k++))) throw std::runtime_error("iteration"); }
            return drv::Obj().str("r", vio::text(Value(e))).num("rows", d.rowSize()).num("cols", d.colSize()).num("n", f == e && k == d.size() ? f.size() : -1).done();
        }
        if (o == "text") {
            switch (a.type()) {
            case Value::Type::VERTEX: return shown(a, a.getVertex());
            case Value::Type::EDGE: return shown(a, a.getEdge());
            case Value::Type::PATH: return shown(a, a.getPath());
            case Value::Type::LIST: return shown(a, a.getList());
            case Value::Type::MAP: return shown(a, a.getMap());
            case Value::Type::SET: return shown(a, a.getSet());
            case Value::Type::DATASET: return shown(a, a.getDataSet());
            case Value::Type::DATE: return shown(a, a.getDate());
            case Value::Type::TIME: return shown(a, a.getTime());
            case Value::Type::DATETIME: return shown(a, a.getDateTime());
            default: return shown(a, a);
            }
        }
        if (o == "clear" || o == "fresh") {
            bool c = o == "clear";
#define X(N) if (a.is##N()) { if (!c) return made<N>(); N x(a.get##N()); x.clear(); return res(Value(x)); }
            X(Vertex) X(Edge) X(Path) X(List) X(Map) X(Set) X(DataSet) X(Date) X(Time) X(DateTime)
#undef X
        }
        const Value& b = at(w[2]);
        if (o == "pappend") { Path p = a.getPath(), q = b.getPath(); bool ok = p.append(std::move(q)); return tried(ok, Value(p)); }
        if (o == "addstep") { Path p = a.getPath(); for (auto& s : b.getPath().steps) p.addStep(s); return res(Value(p)); }
        if (o == "contains") {
#define X(N) if (a.is##N()) return yes(a.get##N().contains(b));
            X(Edge) X(Vertex) X(Map) X(List) X(Set)
#undef X
        }
        if (o == "value") {
            if (a.isEdge()) return res(a.getEdge().value(b.getStr()));
            if (a.isVertex()) return res(a.getVertex().value(b.getStr()));
            return res(a.getMap().at(b.getStr()));
        }
        if (o == "row") { DataSet d = a.getDataSet(); bool ok = d.emplace_back(b.getList()); return tried(ok, Value(d)); }
        if (o == "stack") { DataSet d = a.getDataSet(), e = b.getDataSet(); bool ok = d.append(std::move(e)); return tried(ok, Value(d)); }
        if (o == "join") { DataSet d = a.getDataSet(), e = b.getDataSet(); bool ok = d.merge(std::move(e)); return tried(ok, Value(d)); }
        if (o == "column") return res(Value(List(a.getDataSet().colValues(b.getStr()))));
        throw std::runtime_error("op " + o);
    });
}
