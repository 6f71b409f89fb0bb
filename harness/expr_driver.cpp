// Expressions: built from prefix text, evaluated, encoded, copied, compared.
//   expr <E>            makes the next expression        eval o|d|c <i> <j>   in context j, with the object,
//   ctx <C>             makes the next context           what was decoded, or the copy
//   eq <i> <j>          cast <from> <to>                 agg: see below
#include <glog/logging.h>
#include <deque>
#include "common/base/ObjectPool.h"
#include "common/context/ExpressionContext.h"
#include "common/expression/AggregateExpression.h"
#include "common/expression/ExprVisitor.h"
#include "common/expression/TextSearchExpression.h"
#include "common/function/AggFunctionManager.h"
#include "common/function/FunctionManager.h"
#include "common/time/TimezoneInfo.h"
#include "value_io.h"
DECLARE_string(timezone_name);
using namespace nebula;  // NOLINT
using vio::Words;
using K = Expression::Kind;
static const char* kNames[] = {"Constant", "Add", "Minus", "Multiply", "Division", "Mod", "UnaryPlus", "UnaryNegate", "UnaryNot", "UnaryIncr", "UnaryDecr",
    "RelEQ", "RelNE", "RelLT", "RelLE", "RelGT", "RelGE", "RelREG", "RelIn", "RelNotIn", "Contains", "NotContains", "StartsWith", "NotStartsWith", "EndsWith", "NotEndsWith",
    "Subscript", "Attribute", "LabelAttribute", "Column", "LogicalAnd", "LogicalOr", "LogicalXor", "TypeCasting", "FunctionCall",
    "TagProperty", "EdgeProperty", "InputProperty", "VarProperty", "DstProperty", "SrcProperty", "EdgeSrc", "EdgeType", "EdgeRank", "EdgeDst", "Vertex", "Edge", "UUID",
    "Var", "VersionedVar", "List", "Set", "Map", "Label", "Case", "Predicate", "ListComprehension", "Reduce", "PathBuild", "TSPrefix", "TSWildcard", "TSRegexp", "TSFuzzy",
    "Aggregate", "IsNull", "IsNotNull", "IsEmpty", "IsNotEmpty", "SubscriptRange"};
static const std::map<std::string, K>& kinds() {
#define X(n) {#n, K::k##n},
    static const std::map<std::string, K> m = {X(Constant) X(Add) X(Minus) X(Multiply) X(Division) X(Mod) X(UnaryPlus) X(UnaryNegate) X(UnaryNot) X(UnaryIncr) X(UnaryDecr)
        X(RelEQ) X(RelNE) X(RelLT) X(RelLE) X(RelGT) X(RelGE) X(RelREG) X(RelIn) X(RelNotIn) X(Contains) X(NotContains) X(StartsWith) X(NotStartsWith) X(EndsWith) X(NotEndsWith)
        X(Subscript) X(Attribute) X(LabelAttribute) X(Column) X(LogicalAnd) X(LogicalOr) X(LogicalXor) X(TypeCasting) X(FunctionCall)
        X(TagProperty) X(EdgeProperty) X(InputProperty) X(VarProperty) X(DstProperty) X(SrcProperty) X(EdgeSrc) X(EdgeType) X(EdgeRank) X(EdgeDst) X(Vertex) X(Edge) X(UUID)
        X(Var) X(VersionedVar) X(List) X(Set) X(Map) X(Label) X(Case) X(Predicate) X(ListComprehension) X(Reduce) X(PathBuild) X(TSPrefix) X(TSWildcard) X(TSRegexp) X(TSFuzzy)
        X(Aggregate) X(IsNull) X(IsNotNull) X(IsEmpty) X(IsNotEmpty) X(SubscriptRange)};
#undef X
    return m;
}
static std::string kindName(K k) { for (auto& e : kinds()) if (e.second == k) return e.first; return "?"; }
static const char* typeName(Value::Type t) {
    switch (t) {
        case Value::Type::__EMPTY__: return "EMPTY"; case Value::Type::NULLVALUE: return "NULL"; case Value::Type::BOOL: return "BOOL"; case Value::Type::INT: return "INT";
        case Value::Type::FLOAT: return "FLOAT"; case Value::Type::STRING: return "STRING"; case Value::Type::DATE: return "DATE"; case Value::Type::TIME: return "TIME";
        case Value::Type::DATETIME: return "DATETIME"; case Value::Type::VERTEX: return "VERTEX"; case Value::Type::EDGE: return "EDGE"; case Value::Type::PATH: return "PATH";
        case Value::Type::LIST: return "LIST"; case Value::Type::MAP: return "MAP"; case Value::Type::SET: return "SET"; case Value::Type::DATASET: return "DATASET";
        default: return "?";
    }
}
struct In {
    std::string k, o;
    std::vector<bool> b;
    std::vector<std::string> s;
    std::vector<int64_t> i;
    Value v;
    std::vector<Expression*> x;
};
static ObjectPool* pool;
static Expression* get(const Words& w, size_t& p);
static Expression* build(In& n) {
    auto kind = kinds().at(n.k);
    auto x = [&](size_t i) -> Expression* { return i < n.x.size() ? n.x[i] : nullptr; };
    auto P = pool;
    switch (kind) {
    case K::kConstant: return ConstantExpression::make(P, n.v);
    case K::kAdd: return ArithmeticExpression::makeAdd(P, x(0), x(1));
    case K::kMinus: return ArithmeticExpression::makeMinus(P, x(0), x(1));
    case K::kMultiply: return ArithmeticExpression::makeMultiply(P, x(0), x(1));
    case K::kDivision: return ArithmeticExpression::makeDivision(P, x(0), x(1));
    case K::kMod: return ArithmeticExpression::makeMod(P, x(0), x(1));
    case K::kUnaryPlus: return UnaryExpression::makePlus(P, x(0));
    case K::kUnaryNegate: return UnaryExpression::makeNegate(P, x(0));
    case K::kUnaryNot: return UnaryExpression::makeNot(P, x(0));
    case K::kUnaryIncr: return UnaryExpression::makeIncr(P, x(0));
    case K::kUnaryDecr: return UnaryExpression::makeDecr(P, x(0));
    case K::kIsNull: return UnaryExpression::makeIsNull(P, x(0));
    case K::kIsNotNull: return UnaryExpression::makeIsNotNull(P, x(0));
    case K::kIsEmpty: return UnaryExpression::makeIsEmpty(P, x(0));
    case K::kIsNotEmpty: return UnaryExpression::makeIsNotEmpty(P, x(0));
    case K::kRelEQ: return RelationalExpression::makeEQ(P, x(0), x(1));
    case K::kRelNE: return RelationalExpression::makeNE(P, x(0), x(1));
    case K::kRelLT: return RelationalExpression::makeLT(P, x(0), x(1));
    case K::kRelLE: return RelationalExpression::makeLE(P, x(0), x(1));
    case K::kRelGT: return RelationalExpression::makeGT(P, x(0), x(1));
    case K::kRelGE: return RelationalExpression::makeGE(P, x(0), x(1));
    case K::kRelREG: return RelationalExpression::makeREG(P, x(0), x(1));
    case K::kRelIn: return RelationalExpression::makeIn(P, x(0), x(1));
    case K::kRelNotIn: return RelationalExpression::makeNotIn(P, x(0), x(1));
    case K::kContains: return RelationalExpression::makeContains(P, x(0), x(1));
    case K::kNotContains: return RelationalExpression::makeNotContains(P, x(0), x(1));
    case K::kStartsWith: return RelationalExpression::makeStartsWith(P, x(0), x(1));
    case K::kNotStartsWith: return RelationalExpression::makeNotStartsWith(P, x(0), x(1));
    case K::kEndsWith: return RelationalExpression::makeEndsWith(P, x(0), x(1));
    case K::kNotEndsWith: return RelationalExpression::makeNotEndsWith(P, x(0), x(1));
    case K::kSubscript: return SubscriptExpression::make(P, x(0), x(1));
    case K::kSubscriptRange: { size_t j = 1; auto lo = n.b[0] ? x(j++) : nullptr, hi = n.b[1] ? x(j) : nullptr; return SubscriptRangeExpression::make(P, x(0), lo, hi); }
    case K::kAttribute: return AttributeExpression::make(P, x(0), x(1));
    case K::kLabelAttribute: return LabelAttributeExpression::make(P, static_cast<LabelExpression*>(x(0)), static_cast<ConstantExpression*>(x(1)));
    case K::kColumn: return ColumnExpression::make(P, n.i[0]);
    case K::kLogicalAnd: case K::kLogicalOr: case K::kLogicalXor: {
        LogicalExpression* e;
        if (n.x.size() == 2) {
            e = kind == K::kLogicalAnd ? LogicalExpression::makeAnd(P, x(0), x(1)) : kind == K::kLogicalOr ? LogicalExpression::makeOr(P, x(0), x(1)) : LogicalExpression::makeXor(P, x(0), x(1));
        } else {
            e = LogicalExpression::makeKind(P, kind);
            for (auto* y : n.x) e->addOperand(y);
        }
        return e;
    }
    case K::kTypeCasting: return TypeCastingExpression::make(P, static_cast<Value::Type>(1UL << n.i[0]), x(0));
    case K::kFunctionCall: { auto* a = ArgumentList::make(P); for (auto* y : n.x) a->addArgument(y); return FunctionCallExpression::make(P, n.s[0], a); }
    case K::kTagProperty: return TagPropertyExpression::make(P, n.s[1], n.s[2]);
    case K::kEdgeProperty: return EdgePropertyExpression::make(P, n.s[1], n.s[2]);
    case K::kInputProperty: return InputPropertyExpression::make(P, n.s[2]);
    case K::kVarProperty: return VariablePropertyExpression::make(P, n.s[1], n.s[2]);
    case K::kDstProperty: return DestPropertyExpression::make(P, n.s[1], n.s[2]);
    case K::kSrcProperty: return SourcePropertyExpression::make(P, n.s[1], n.s[2]);
    case K::kEdgeSrc: return EdgeSrcIdExpression::make(P, n.s[1]);
    case K::kEdgeType: return EdgeTypeExpression::make(P, n.s[1]);
    case K::kEdgeRank: return EdgeRankExpression::make(P, n.s[1]);
    case K::kEdgeDst: return EdgeDstIdExpression::make(P, n.s[1]);
    case K::kVertex: return VertexExpression::make(P);
    case K::kEdge: return EdgeExpression::make(P);
    case K::kUUID: return UUIDExpression::make(P, n.s[0]);
    case K::kVar: return VariableExpression::make(P, n.s[0], n.b[0]);
    case K::kVersionedVar: return VersionedVariableExpression::make(P, n.s[0], x(0));
    case K::kList: case K::kSet: { auto* l = ExpressionList::make(P); for (auto* y : n.x) l->add(y); if (kind == K::kList) return ListExpression::make(P, l); return SetExpression::make(P, l); }
    case K::kMap: { auto* l = MapItemList::make(P); for (size_t j = 0; j < n.x.size(); ++j) l->add(n.s[j], x(j)); return MapExpression::make(P, l); }
    case K::kLabel: return LabelExpression::make(P, n.s[0]);
    case K::kCase: {
        size_t j = (n.b[1] ? 1 : 0) + (n.b[2] ? 1 : 0);
        auto* l = CaseList::make(P);
        for (; j + 1 < n.x.size(); j += 2) l->add(x(j), x(j + 1));
        auto* e = CaseExpression::make(P, l, n.b[0]);
        if (n.b[1]) e->setCondition(x(0));
        if (n.b[2]) e->setDefault(x(n.b[1] ? 1 : 0));
        return e;
    }
    case K::kPredicate: { auto* e = PredicateExpression::make(P, n.s[0], n.s[1], x(0), n.b[0] ? x(1) : nullptr); if (!n.o.empty()) e->setOriginString(n.o); return e; }
    case K::kListComprehension: {
        size_t j = 1;
        auto f = n.b[0] ? x(j++) : nullptr, m = n.b[1] ? x(j) : nullptr;
        auto* e = ListComprehensionExpression::make(P, n.s[0], x(0), f, m);
        if (!n.o.empty()) e->setOriginString(n.o);
        return e;
    }
    case K::kReduce: { auto* e = ReduceExpression::make(P, n.s[0], x(0), n.s[1], x(1), x(2)); if (!n.o.empty()) e->setOriginString(n.o); return e; }
    case K::kPathBuild: { auto* e = PathBuildExpression::make(P); for (auto* y : n.x) e->add(y); return e; }
    case K::kAggregate: return AggregateExpression::make(P, n.s[0], x(0), n.b[0]);
    case K::kTSPrefix: case K::kTSWildcard: case K::kTSRegexp: case K::kTSFuzzy: {
        auto* a = TextSearchArgument::make(P, n.s[0], n.s[1], n.s[2]);
        a->setOP(n.s[3]);
        a->setFuzziness(n.i[0]);
        a->setLimit(n.i[1]);
        a->setTimeout(n.i[2]);
        if (kind == K::kTSPrefix) return TextSearchExpression::makePrefix(P, a);
        if (kind == K::kTSWildcard) return TextSearchExpression::makeWildcard(P, a);
        if (kind == K::kTSRegexp) return TextSearchExpression::makeRegexp(P, a);
        return TextSearchExpression::makeFuzzy(P, a);
    }
    }
    throw std::runtime_error("kind " + n.k);
}
// KIND origin nb b.. ns s.. ni i.. hasvalue [value] nx children..
static Expression* get(const Words& w, size_t& p) {
    In n;
    n.k = w.at(p++);
    n.o = drv::unhex(w.at(p++));
    for (auto c = vio::num(w, p); c > 0; --c) n.b.push_back(vio::num(w, p) != 0);
    for (auto c = vio::num(w, p); c > 0; --c) n.s.push_back(vio::str(w, p));
    for (auto c = vio::num(w, p); c > 0; --c) n.i.push_back(vio::num(w, p));
    if (vio::num(w, p)) n.v = vio::get(w, p);
    for (auto c = vio::num(w, p); c > 0; --c) n.x.push_back(get(w, p));
    return build(n);
}
struct Ctx : ExpressionContext {
    std::map<std::vector<std::string>, Value> props;
    std::vector<Value> cols;
    Value vertex, edge;
    std::deque<std::pair<std::string, Value>> log;      // oldest first; references stay good
    const Value unknown{NullType::UNKNOWN_PROP};
    const Value& find(const std::string& w, const std::string& s, const std::string& k) const {
        auto i = props.find({w, s, k});
        return i == props.end() ? unknown : i->second;
    }
    const Value& getVar(const std::string& n) const override { return getVersionedVar(n, 0); }
    const Value& getVersionedVar(const std::string& n, int64_t v) const override {
        std::vector<const Value*> all;
        for (auto& e : log) if (e.first == n) all.push_back(&e.second);
        int64_t c = all.size(), at = v > 0 ? v - 1 : c - 1 + v;
        return at < 0 || at >= c ? Value::kNullValue : *all[at];
    }
    const Value& getVarProp(const std::string& s, const std::string& k) const override { return find("var", s, k); }
    Value getEdgeProp(const std::string& s, const std::string& k) const override { return find("edge", s, k); }
    Value getTagProp(const std::string& s, const std::string& k) const override { return find("tag", s, k); }
    Value getSrcProp(const std::string& s, const std::string& k) const override { return find("src", s, k); }
    const Value& getDstProp(const std::string& s, const std::string& k) const override { return find("dst", s, k); }
    const Value& getInputProp(const std::string& k) const override { return find("input", "", k); }
    Value getVertex() const override { return vertex; }
    Value getEdge() const override { return edge; }
    Value getColumn(int32_t i) const override { return i < 0 || i >= static_cast<int32_t>(cols.size()) ? Value::kNullValue : cols[i]; }
    void setVar(const std::string& n, Value v) override { log.emplace_back(n, std::move(v)); }
};
// visits: the class whose visit was called
struct Visit : ExprVisitor {
    std::string c;
#define X(n) void visit(n##Expression*) override { c = #n; }
    X(Constant) X(Unary) X(TypeCasting) X(Label) X(LabelAttribute) X(Arithmetic) X(Relational) X(Subscript) X(Attribute) X(Logical) X(FunctionCall) X(Aggregate) X(UUID)
    X(Variable) X(VersionedVariable) X(List) X(Set) X(Map) X(TagProperty) X(EdgeProperty) X(InputProperty) X(VariableProperty) X(DestProperty) X(SourceProperty)
    X(EdgeSrcId) X(EdgeType) X(EdgeRank) X(EdgeDstId) X(Vertex) X(Edge) X(Case) X(PathBuild) X(Column) X(Predicate) X(ListComprehension) X(Reduce) X(SubscriptRange)
#undef X
};
struct One { Expression *o = nullptr, *d = nullptr, *c = nullptr; };
static std::vector<One> exprs;
static std::vector<std::string> ctxs;
static std::string wire(const Value& v) { ObjectPool p; return Expression::encode(*ConstantExpression::make(&p, v)).substr(1); }
static Ctx context(const std::string& line) {
    auto w = drv::words(line);
    size_t p = 0;
    Ctx c;
    for (auto n = vio::num(w, p); n > 0; --n) { auto k = w.at(p++); auto s = vio::str(w, p), q = vio::str(w, p); c.props[{k, s, q}] = vio::get(w, p); }
    for (auto n = vio::num(w, p); n > 0; --n) c.cols.push_back(vio::get(w, p));
    c.vertex = vio::get(w, p);
    c.edge = vio::get(w, p);
    for (auto n = vio::num(w, p); n > 0; --n) { auto k = vio::str(w, p); c.setVar(k, vio::get(w, p)); }
    return c;
}
static std::string vars(const Ctx& c) {
    std::string o;
    vio::n(o, c.log.size());
    for (auto& e : c.log) { vio::tok(o, vio::hex(e.first)); vio::put(o, e.second); }
    return o;
}
int main() {
    FLAGS_minloglevel = 3;
    pool = new ObjectPool();
    return drv::loop([](const Words& w) -> std::string {
        const auto& o = w[0];
        if (o == "reset") { exprs.clear(); ctxs.clear(); pool->clear(); return "{}"; }
        if (o == "ctx") { std::string s; for (size_t i = 1; i < w.size(); ++i) s += w[i] + " "; ctxs.push_back(s); return "{}"; }
        if (o == "wire") { size_t p = 1; return drv::Obj().bytes("w", wire(vio::get(w, p))).done(); }
        if (o == "expr" || o == "plain") {      // plain: cannot be encoded
            size_t p = 1;
            One e;
            e.o = get(w, p);
            if (p != w.size()) throw std::runtime_error("words left");
            e.c = e.o->clone();
            bool enc = o == "expr";
            drv::Obj r;
            r.bytes("text", e.o->toString()).bytes("raw", e.o->rawString()).bytes("ctext", e.c->toString()).bytes("craw", e.c->rawString());
            r.boolean("ceq", *e.o == *e.c && *e.c == *e.o && !(*e.o != *e.c)).boolean("new", e.o != e.c);
            r.str("kind", kindName(e.o->kind())).str("ckind", kindName(e.c->kind()));
            r.boolean("lg", e.o->isLogicalExpr()).boolean("rl", e.o->isRelExpr()).boolean("ar", e.o->isArithmeticExpr()).boolean("ct", e.o->isContainerExpr());
            if (e.o->kind() < K::kTSPrefix || e.o->kind() > K::kTSFuzzy) { Visit v; e.o->accept(&v); r.str("visit", v.c); } else { r.str("visit", "none"); }
            if (enc) {
                auto b = Expression::encode(*e.o);
                e.d = Expression::decode(pool, b);
                r.bytes("enc", b).bytes("cenc", e.c->encode()).bytes("denc", e.d->encode()).bytes("dtext", e.d->toString()).bytes("draw", e.d->rawString());
                r.boolean("deq", *e.o == *e.d && *e.d == *e.o && !(*e.o != *e.d)).str("dkind", kindName(e.d->kind()));
            }
            exprs.push_back(e);
            return r.done();
        }
        if (o == "eq") { auto &a = *exprs.at(std::stoul(w[1])).o, &b = *exprs.at(std::stoul(w[2])).o; return drv::Obj().boolean("r", a == b).boolean("ne", a != b).done(); }
        if (o == "eval") {
            auto& e = exprs.at(std::stoul(w[2]));
            auto c = context(ctxs.at(std::stoul(w[3])));
            auto* x = w[1] == "o" ? e.o : w[1] == "d" ? e.d : e.c;
            Value r = Expression::eval(x, c);
            return drv::Obj().str("r", vio::text(r)).str("vars", vars(c)).done();
        }
        if (o == "cast") return drv::Obj().boolean("r", TypeCastingExpression::validateTypeCast(static_cast<Value::Type>(1UL << std::stoi(w[1])), static_cast<Value::Type>(1UL << std::stoi(w[2])))).done();
        if (o == "call") {      // call <name> <n> args..
            size_t p = 1;
            auto name = vio::str(w, p);
            std::vector<Value> a;
            for (auto n = vio::num(w, p); n > 0; --n) a.push_back(vio::get(w, p));
            std::vector<Value::Type> ts;
            for (auto& v : a) ts.push_back(v.type());
            drv::Obj r;
            auto f = FunctionManager::get(name, a.size());
            auto pure = FunctionManager::getIsPure(name, a.size());
            auto t = FunctionManager::getReturnType(name, ts);
            r.boolean("ok", f.ok()).boolean("found", FunctionManager::find(name, a.size()).ok()).boolean("pok", pure.ok()).boolean("pure", pure.ok() && pure.value());
            r.str("rt", t.ok() ? typeName(t.value()) : "ERROR").num("tz", time::Timezone::getGlobalTimezone().utcOffsetSecs());
            if (!f.ok()) return r.str("r", "E").done();
            std::vector<std::reference_wrapper<const Value>> args(a.begin(), a.end());
            std::vector<std::string> before;
            for (auto& v : a) before.push_back(vio::text(v));
            auto t0 = ::time(nullptr) - 3;
            auto x = vio::text(f.value()(args));
            auto t1 = ::time(nullptr) + 3;
            bool kept = true;
            for (size_t i = 0; i < a.size(); ++i) kept = kept && vio::text(a[i]) == before[i];
            bool again = pure.ok() && pure.value() && vio::text(f.value()(args)) == x;
            return r.str("r", x).boolean("kept", kept).boolean("again", again).num("d0", t0 / 86400).num("s0", t0 % 86400).num("d1", t1 / 86400).num("s1", t1 % 86400).done();
        }
        if (o == "tz") { FLAGS_timezone_name = w[1]; auto z = time::Timezone::initializeGlobalTimezone(); return drv::Obj().boolean("ok", z.ok()).done(); }
        if (o == "rand") {      // rand low|high|free: what chance gives
            auto& f = folly::Random::oracle();
            if (w[1] == "low") f = [](uint64_t) { return uint64_t(0); };
            else if (w[1] == "high") f = [](uint64_t n) { return n - 1; };
            else f = nullptr;
            return "{}";
        }
        if (o == "agg") {       // agg <name> <distinct> <n> values..: the result after each of them
            size_t p = 1;
            auto name = vio::str(w, p);
            auto distinct = vio::num(w, p);
            auto n = vio::num(w, p);
            if (!AggFunctionManager::find(name).ok()) return drv::Obj().boolean("ok", false).str("r", "L 0").done();
            AggData d;
            List l;
            l.values.push_back(d.result());
            for (; n > 0; --n) {
                ObjectPool q;
                auto* e = AggregateExpression::make(&q, name, ConstantExpression::make(&q, vio::get(w, p)), distinct);
                Ctx c;
                e->setAggData(&d);
                l.values.push_back(Expression::eval(e, c));
            }
            return drv::Obj().boolean("ok", true).str("r", vio::text(Value(l))).done();
        }
        throw std::runtime_error("op " + o);
    });
}
