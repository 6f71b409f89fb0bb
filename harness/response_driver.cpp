// graph/Response.h for specs/response.
#include "common/base/Base.h"
#include "common/graph/Response.h"
#include "drv.h"
using namespace nebula;
template <class T> struct F { std::string name; std::function<void(T&, int)> set; std::function<int(const T&)> get; };
template <class T, class V> F<T> plain(const std::string& n, V T::*m, std::vector<V> vs) {
    return {n, [m, vs](T& t, int v) { t.*m = vs[v]; }, [m, vs](const T& t) { for (int i = 0; i < static_cast<int>(vs.size()); ++i) if (t.*m == vs[i]) return i; return -1; }};
}
// optional field: absent, or one of the values
template <class T, class V> F<T> opt(const std::string& n, std::unique_ptr<V> T::*m, std::function<V(int)> mk, std::function<int(const V&)> id) {
    return {n, [m, mk](T& t, int v) { if (v == 0) t.*m = nullptr; else t.*m = std::make_unique<V>(mk(v)); }, [m, id](const T& t) { return t.*m ? id(*(t.*m)) : 0; }};
}
template <class T, class V> F<T> optv(const std::string& n, std::unique_ptr<V> T::*m, std::vector<V> vs) {   // vs[0] unused
    return opt<T, V>(n, m, [vs](int v) { return vs[v]; }, [vs](const V& x) { for (size_t i = 1; i < vs.size(); ++i) if (x == vs[i]) return static_cast<int>(i); return -1; });
}
using S = std::string;
// the contents of nested parts, field by field
static S ser(int64_t v) { return std::to_string(v); }
static S ser(const S& v) { return std::to_string(v.size()) + ":" + v; }
static S ser(const Pair& v);
static S ser(const ProfilingStats& v);
static S ser(const PlanNodeBranchInfo& v);
static S ser(const PlanNodeDescription& v);
static S ser(const PlanDescription& v);
static S ser(const DataSet& d);
template <class K, class V> static S ser(const std::unordered_map<K, V>& m) { std::map<K, V> o(m.begin(), m.end()); S r = "{"; for (auto& e : o) r += ser(e.first) + "=" + ser(e.second) + ","; return r + "}"; }
template <class V> static S ser(const std::vector<V>& x) { S r = "["; for (auto& e : x) r += ser(e) + ","; return r + "]"; }
template <class V> static S ser(const std::unique_ptr<V>& x) { return x ? "&" + ser(*x) : "none"; }
static S ser(const Pair& v) { return ser(v.key) + "/" + ser(v.value); }
static S ser(const ProfilingStats& v) { return ser(v.rows) + "/" + ser(v.execDurationInUs) + "/" + ser(v.totalDurationInUs) + "/" + ser(v.otherStats); }
static S ser(const PlanNodeBranchInfo& v) { return ser(static_cast<int64_t>(v.isDoBranch)) + "/" + ser(v.conditionNodeId); }
static S ser(const PlanNodeDescription& v) { return ser(v.name) + "/" + ser(v.id) + "/" + ser(v.outputVar) + "/" + ser(v.description) + "/" + ser(v.profiles) + "/" + ser(v.branchInfo) + "/" + ser(v.dependencies); }
static S ser(const PlanDescription& v) { return ser(v.planNodeDescs) + "/" + ser(v.nodeIndexMap) + "/" + ser(v.format) + "/" + ser(static_cast<int64_t>(v.optimize_time_in_us)); }
static S ser(const DataSet& d) { S r = ser(d.colNames); for (auto& row : d.rows) { r += "("; for (auto& v : row.values) r += v.isInt() ? ser(v.getInt()) + "," : "?,"; r += ")"; } return r; }
// a part made by mk(v), v >= base (0: absent)
template <class T, class V> F<T> nest(const S& n, std::unique_ptr<V> T::*m, std::function<V(int)> mk, int count) {
    return {n, [m, mk](T& t, int v) { if (v == 0) t.*m = nullptr; else t.*m = std::make_unique<V>(mk(v)); },
            [m, mk, count](const T& t) { if (!(t.*m)) return 0; S x = ser(*(t.*m)); for (int i = 1; i <= count; ++i) if (ser(mk(i)) == x) return i; return -1; }};
}
using M = std::unordered_map<S, S>;
using N = std::unordered_map<int64_t, int64_t>;
static M stats(int v) { return std::vector<M>{{}, {}, {{"a", "b"}}, {{"a", "c"}}, {{"b", "b"}}, {{"a", "b"}, {"c", "d"}}}[v]; }
static N nodes(int v) { return std::vector<N>{{}, {{1, 2}}, {{1, 3}}, {{2, 2}}, {{1, 2}, {2, 3}}}[v]; }
static Pair pair(int v) { return Pair{v == 2 ? "K" : "k", v == 3 ? "V" : "v"}; }
static std::vector<Pair> descr(int v) { std::vector<Pair> r; if (v > 1) r.push_back(pair(v - 1)); if (v == 5) { r.clear(); r.push_back(pair(1)); r.push_back(pair(2)); } return r; }
static std::vector<ProfilingStats> profs(int v) {
    std::vector<ProfilingStats> r; if (v == 1) return r;
    r.emplace_back(); auto& p = r.back();
    if (v == 3) p.rows = 3; if (v == 4) p.execDurationInUs = 3; if (v == 5) p.totalDurationInUs = 3; if (v == 6) p.otherStats = std::make_unique<M>(stats(2)); if (v == 7) r.emplace_back();
    return r;
}
static PlanNodeBranchInfo branch(int v) { PlanNodeBranchInfo b; if (v == 2) b.conditionNodeId = 9; if (v == 3) b.isDoBranch = true; return b; }
static std::vector<int64_t> deps(int v) { return std::vector<std::vector<int64_t>>{{}, {}, {4}, {5}, {4, 5}, {5, 4}}[v]; }
static PlanNodeDescription node(int v) {
    PlanNodeDescription d;
    if (v == 2) d.name = "n"; if (v == 3) d.id = 7; if (v == 4) d.outputVar = "o"; if (v == 5) d.description = std::make_unique<std::vector<Pair>>(descr(2));
    if (v == 6) d.profiles = std::make_unique<std::vector<ProfilingStats>>(profs(3)); if (v == 7) d.branchInfo = std::make_unique<PlanNodeBranchInfo>(branch(2)); if (v == 8) d.dependencies = std::make_unique<std::vector<int64_t>>(deps(2));
    return d;
}
static std::vector<PlanNodeDescription> plan(int v) { std::vector<PlanNodeDescription> r; if (v == 0) return r; if (v < 9) { r.push_back(node(v)); return r; } r.push_back(node(1)); r.push_back(node(2)); return r; }
static PlanDescription pdesc(int v) { PlanDescription p; if (v == 2) p.format = "dot"; if (v == 3) p.optimize_time_in_us = 4; if (v == 4) p.nodeIndexMap = nodes(1); if (v == 5) p.planNodeDescs = plan(4); return p; }
static DataSet data(int v) { DataSet d({v == 4 ? "d" : "c"}); if (v == 2 || v == 5) d.emplace_back(Row({Value(1)})); if (v == 3) d.emplace_back(Row({Value(2)})); if (v == 5) d.emplace_back(Row({Value(1)})); return d; }
template <class T> std::vector<F<T>> fields();
template <> std::vector<F<AuthResponse>> fields() { using T = AuthResponse; return {
    plain<T, ErrorCode>("errorCode", &T::errorCode, {ErrorCode::SUCCEEDED, ErrorCode::E_UNKNOWN, ErrorCode::E_DISCONNECTED}),
    optv<T, int64_t>("sessionId", &T::sessionId, {0, 0, -(1ll << 40)}), optv<T, S>("errorMsg", &T::errorMsg, {"", "", "m"}),
    optv<T, int32_t>("timeZoneOffsetSeconds", &T::timeZoneOffsetSeconds, {0, 0, 28800}), optv<T, S>("timeZoneName", &T::timeZoneName, {"", "", "CST"}) }; }
template <> std::vector<F<ProfilingStats>> fields() { using T = ProfilingStats; return {
    plain<T, int64_t>("rows", &T::rows, {0, 1, 1ll << 33}), plain<T, int64_t>("execDurationInUs", &T::execDurationInUs, {0, 1, 1ll << 33}),
    plain<T, int64_t>("totalDurationInUs", &T::totalDurationInUs, {0, 1, 1ll << 33}), nest<T, M>("otherStats", &T::otherStats, stats, 5) }; }
template <> std::vector<F<PlanNodeBranchInfo>> fields() { using T = PlanNodeBranchInfo; return {
    plain<T, bool>("isDoBranch", &T::isDoBranch, {false, true}), plain<T, int64_t>("conditionNodeId", &T::conditionNodeId, {-1, 0, 1ll << 33}) }; }
template <> std::vector<F<Pair>> fields() { using T = Pair; return { plain<T, S>("key", &T::key, {"", "k", S("k\0", 2)}), plain<T, S>("value", &T::value, {"", "k", S("\0k", 2)}) }; }
template <> std::vector<F<PlanNodeDescription>> fields() { using T = PlanNodeDescription; return {
    plain<T, S>("name", &T::name, {"", "n", "N"}), plain<T, int64_t>("id", &T::id, {-1, 0, 1ll << 33}), plain<T, S>("outputVar", &T::outputVar, {"", "v", "V"}),
    nest<T, std::vector<Pair>>("description", &T::description, descr, 5), nest<T, std::vector<ProfilingStats>>("profiles", &T::profiles, profs, 7),
    nest<T, PlanNodeBranchInfo>("branchInfo", &T::branchInfo, branch, 3), nest<T, std::vector<int64_t>>("dependencies", &T::dependencies, deps, 5) }; }
template <> std::vector<F<PlanDescription>> fields() { using T = PlanDescription; return {
    {"planNodeDescs", [](T& t, int v) { t.planNodeDescs = plan(v); }, [](const T& t) { S x = ser(t.planNodeDescs); for (int i = 0; i < 10; ++i) if (ser(plan(i)) == x) return i; return -1; }},
    {"nodeIndexMap", [](T& t, int v) { t.nodeIndexMap = nodes(v); }, [](const T& t) { S x = ser(t.nodeIndexMap); for (int i = 0; i < 5; ++i) if (ser(nodes(i)) == x) return i; return -1; }},
    plain<T, S>("format", &T::format, {"", "dot", "row"}), plain<T, int32_t>("optimize_time_in_us", &T::optimize_time_in_us, {0, 1, 1 << 20}) }; }
template <> std::vector<F<ExecutionResponse>> fields() { using T = ExecutionResponse; return {
    plain<T, ErrorCode>("errorCode", &T::errorCode, {ErrorCode::SUCCEEDED, ErrorCode::E_UNKNOWN, ErrorCode::E_DISCONNECTED}), plain<T, int32_t>("latencyInUs", &T::latencyInUs, {0, 1, 1 << 20}),
    nest<T, DataSet>("data", &T::data, data, 5), optv<T, S>("spaceName", &T::spaceName, {"", "", "s"}), optv<T, S>("errorMsg", &T::errorMsg, {"", "", "s"}),
    nest<T, PlanDescription>("planDesc", &T::planDesc, pdesc, 5), optv<T, S>("comment", &T::comment, {"", "", "s"}) }; }
template <class T> static int go() {
    auto fs = fields<T>();
    T x, y;
    auto dump = [&](const T& t) { std::string s; for (auto& f : fs) { int v = f.get(t); s += (s.empty() ? "" : " ") + f.name + "=" + std::to_string(v); } return s; };
    return drv::loop([&](const std::vector<std::string>& w) -> std::string {
        if (w[0] == "reset") { x.~T(); new (&x) T(); y.~T(); new (&y) T(); return dump(x) + "|" + dump(y); }
        T& t = w[1] == "x" ? x : y;
        if (w[0] == "clear") { if (w[2] == "0") t.clear(); else t.__clear(); }
        else for (auto& f : fs) if (f.name == w[2]) f.set(t, std::stoi(w[3]));
        return dump(x) + "|" + dump(y) + "|" + (x == y ? "equal" : "different") + (y == x ? " equal" : " different");
    });
}
int main(int, char** v) {
    S t = v[1];
    if (t == "codes") {
#define X(N, V) { std::ostringstream s; s << ErrorCode::N; std::cout << drv::Obj().str("name", #N).num("num", static_cast<int>(ErrorCode::N)).str("text", errorCode(ErrorCode::N)).str("stream", s.str()).done() << "\n"; }
        ErrorCodeEnums
        return 0;
    }
    if (t == "AuthResponse") return go<AuthResponse>();
    if (t == "ProfilingStats") return go<ProfilingStats>();
    if (t == "PlanNodeBranchInfo") return go<PlanNodeBranchInfo>();
    if (t == "Pair") return go<Pair>();
    if (t == "PlanNodeDescription") return go<PlanNodeDescription>();
    if (t == "PlanDescription") return go<PlanDescription>();
    if (t == "ExecutionResponse") return go<ExecutionResponse>();
}
