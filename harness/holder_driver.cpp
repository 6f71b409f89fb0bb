// Value as a container. Contents by kind and variant: "lib K V <prefix text>" first.
#include <fstream>
#include <sys/wait.h>
#include <unistd.h>
#include "value_io.h"
#include <glog/logging.h>
using vio::Words;
using namespace nebula;  // NOLINT
static std::map<std::string, std::string> lib;      // "KIND V" -> text
static Value fresh(const std::string& k, const std::string& v) {
    auto w = drv::words(lib.at(k + " " + v));
    size_t i = 0;
    return vio::get(w, i);
}
alignas(Value) static char room[2][sizeof(Value)];
static Value& at(int i) { return *reinterpret_cast<Value*>(room[i]); }
static int of(const std::string& w) { return std::stoi(w) - 1; }
static std::string see(const Value& v) {
    std::string f;
#define F(p) if (v.p()) f += #p ",";
    F(empty) F(isNull) F(isBadNull) F(isNumeric) F(isBool) F(isInt) F(isFloat) F(isStr) F(isDate) F(isTime) F(isDateTime)
    F(isVertex) F(isEdge) F(isPath) F(isList) F(isMap) F(isSet) F(isDataSet)
#undef F
    bool p = true;
    if (v.isVertex()) p = v.getVertexPtr() == &v.getVertex();
    if (v.isEdge()) p = v.getEdgePtr() == &v.getEdge();
    if (v.isPath()) p = v.getPathPtr() == &v.getPath();
    if (v.isList()) p = v.getListPtr() == &v.getList();
    if (v.isMap()) p = v.getMapPtr() == &v.getMap();
    if (v.isSet()) p = v.getSetPtr() == &v.getSet();
    if (v.isDataSet()) p = v.getDataSetPtr() == &v.getDataSet();
    return vio::text(v) + ";" + v.typeName() + ";" + f + (p ? "" : "ptr");
}
#define KINDS(X) X(BOOL, Bool) X(FLOAT, Float) X(DATE, Date) X(TIME, Time) X(DATETIME, DateTime)
#define COMPOUNDS(X) X(VERTEX, Vertex) X(EDGE, Edge) X(PATH, Path) X(LIST, List) X(MAP, Map) X(SET, Set) X(DATASET, DataSet)
template <class T, class SC, class SM, class SP>
static void put(Value& d, const T& x, int how, SC sc, SM sm, SP sp) {
    T y(x);
    switch (how % 6) {
    case 0: sc(y); break;
    case 1: sm(std::move(y)); break;
    case 2: sp(std::move(y)); break;
    case 3: d = Value(y); break;
    case 4: d = Value(std::move(y)); break;
    case 5: d.~Value(); new (&d) Value(y); break;
    }
}
template <class I> static bool putInt(Value& d, int64_t n, int how) {
    I y = n;
    switch (how) {
    case 0: d.setInt(y); break;
    case 1: d.setInt(std::move(y)); break;
    case 2: d = Value(y); break;
    case 3: d = Value(std::move(y)); break;
    case 4: d = y; break;
    case 5: d.~Value(); new (&d) Value(std::move(y)); break;
    }
    return true;
}
static void set(Value& d, const std::string& k, const std::string& v, int how, bool part = false) {
    Value x = fresh(k, v);
    if (k == "INT") {
        auto n = x.getInt();
        switch (how / 6 % 4) { case 0: putInt<int64_t>(d, n, how % 6); break; case 1: putInt<int32_t>(d, n, how % 6); break;
                               case 2: putInt<int16_t>(d, n, how % 6); break; case 3: putInt<int8_t>(d, n, how % 6); break; }
        return;
    }
    if (k == "NULL") { put(d, x.getNull(), how, [&](auto& y) { d.setNull(y); }, [&](auto&& y) { d.setNull(std::move(y)); }, [&](auto&& y) { d = y; }); return; }
    if (k == "STRING") { put(d, x.getStr(), how, [&](auto& y) { d.setStr(y); }, [&](auto&& y) { d.setStr(std::move(y)); }, [&](auto&& y) { if (how < 6) d.setStr(y.c_str()); else d = Value(y.c_str()); }); return; }
#define S(K, N) if (k == #K) { put(d, x.get##N(), how, [&](auto& y) { d.set##N(y); }, [&](auto&& y) { d.set##N(std::move(y)); }, [&](auto&& y) { d = y; }); return; }
    KINDS(S)
#undef S
#define S(K, N) if (k == #K) { put(d, x.get##N(), how, [&](auto& y) { d.set##N(y); }, [&](auto&& y) { d.set##N(std::move(y)); }, [&](auto&& y) { d.set##N(std::make_unique<N>(std::move(y))); }); return; }
    COMPOUNDS(S)
#undef S
    throw std::runtime_error("kind " + k);
}
static const Value& partOf(const Value& v) {
    if (v.isVertex()) return v.getVertex().vid;
    if (v.isEdge()) return v.getEdge().src;
    if (v.isPath()) return v.getPath().src.vid;
    if (v.isList()) return v.getList().values.at(0);
    if (v.isMap()) return v.getMap().kvs.at("k");
    if (v.isSet()) return *v.getSet().values.begin();
    return v.getDataSet().rows.at(0).values.at(0);
}
static void setFrom(Value& d, const Value& p) {
    if (p.isStr()) d.setStr(p.getStr());
    else if (p.isInt()) d.setInt(p.getInt());
    else if (p.isDate()) d.setDate(p.getDate());
    else if (p.isTime()) d.setTime(p.getTime());
    else if (p.isDateTime()) d.setDateTime(p.getDateTime());
#define S(K, N) else if (p.is##N()) d.set##N(p.get##N());
    COMPOUNDS(S)
#undef S
    else throw std::runtime_error("setFrom");
}
static Value take(Value& d) {
    if (d.empty()) throw std::runtime_error("take");
    if (d.isNull()) return Value(d.moveNull());
    if (d.isInt()) return Value(d.moveInt());
    if (d.isStr()) return Value(d.moveStr());
#define S(K, N) if (d.is##N()) return Value(d.move##N());
    KINDS(S) COMPOUNDS(S)
#undef S
    throw std::runtime_error("take");
}
static void mutate(Value& d, const Value& x) {
    if (d.isNull()) d.mutableNull() = x.getNull();
    else if (d.isInt()) d.mutableInt() = x.getInt();
    else if (d.isStr()) d.mutableStr() = x.getStr();
    else if (d.isEdge()) { auto& e = d.mutableEdge(); auto& f = x.getEdge(); e.src = f.src; e.dst = f.dst; e.type = f.type; e.name = f.name; e.ranking = f.ranking; e.props = f.props; }
#define S(K, N) else if (d.is##N()) d.mutable##N() = x.get##N();
    S(BOOL, Bool) S(FLOAT, Float) S(DATE, Date) S(TIME, Time) S(DATETIME, DateTime) S(VERTEX, Vertex) S(PATH, Path) S(LIST, List) S(MAP, Map) S(SET, Set) S(DATASET, DataSet)
#undef S
}
// an accessor of one type on a value: does it return (or end the process)?
static bool returns(Value v, const std::string& k, const std::string& acc) {
    fflush(nullptr);
    pid_t p = fork();
    if (p == 0) {
        close(2);
        volatile const void* r = nullptr;
#define S(K, N) if (k == #K) { if (acc == "get") r = &v.get##N(); else if (acc == "mutable") r = &v.mutable##N(); else if (acc == "move") { auto x = v.move##N(); r = &x; } }
        S(NULL_, Null) S(BOOL, Bool) S(INT, Int) S(FLOAT, Float) S(STRING, Str) S(DATE, Date) S(TIME, Time) S(DATETIME, DateTime) COMPOUNDS(S)
#undef S
#define S(K, N) if (k == #K && acc == "ptr") r = v.get##N##Ptr();
        COMPOUNDS(S)
#undef S
        _exit(r ? 0 : 3);
    }
    int st = 0;
    waitpid(p, &st, 0);
    return WIFEXITED(st) && WEXITSTATUS(st) == 0;
}
int main(int, char** argv) {
    std::ifstream f(argv[1]);
    for (std::string line; std::getline(f, line);) { auto w = drv::words(line); std::string t; for (size_t i = 3; i < w.size(); ++i) t += w[i] + " "; lib[w[1] + " " + w[2]] = t; }
    new (&at(0)) Value();
    new (&at(1)) Value();
    return drv::loop([](const Words& w) -> std::string {
        std::string r;
        if (w[0] == "reset") { for (int i : {0, 1}) { at(i).~Value(); new (&at(i)) Value(); } return "{}"; }
        if (w[0] == "access") { return returns(w[1] == "EMPTY" ? Value() : fresh(w[1], w[2]), w[3] == "NULL" ? "NULL_" : w[3], w[4]) ? "yes" : "no"; }
        Value& d = at(of(w[1]));
        if (w[0] == "set") set(d, w[2], w[3], std::stoi(w[4]));
        else if (w[0] == "clear") d.clear();
        else if (w[0] == "take") r = vio::text(take(d));
        else if (w[0] == "copy") { Value& s = at(of(w[2])); if (w[3] == "assign") d = s; else { d.~Value(); new (&d) Value(s); } }
        else if (w[0] == "move") { Value& s = at(of(w[2])); if (w[3] == "assign") d = std::move(s); else { d.~Value(); new (&d) Value(std::move(s)); } }
        else if (w[0] == "swap") swap(d, at(of(w[2])));
        else if (w[0] == "copypart") { auto& p = partOf(at(of(w[2]))); if (w[3] == "assign") d = p; else setFrom(d, p); }
        else if (w[0] == "movepart") d = std::move(const_cast<Value&>(partOf(d)));
        else if (w[0] == "setown") setFrom(d, d);
        else if (w[0] == "mutate") { Value x = fresh(w[2], w[3]); mutate(d, x); }
        else throw std::runtime_error("op " + w[0]);
        return see(at(0)) + "|" + see(at(1)) + "|" + r;
    });
}
