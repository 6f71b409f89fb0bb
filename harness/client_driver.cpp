// Drives the meta and storage clients against a cluster its standard input plays: one JSON command per line in,
// one JSON event per line out; "?" asks for the next command (possibly in the middle of another one).
#include "common/base/Base.h"
#include "common/clients/meta/MetaClient.h"
#include "common/clients/storage/GraphStorageClient.h"
#include "common/clients/storage/GeneralStorageClient.h"
#include "common/clients/storage/InternalStorageClient.h"
#include "common/meta/ServerBasedSchemaManager.h"
#include "common/meta/ServerBasedIndexManager.h"
#include "common/expression/ConstantExpression.h"
#include "common/http/HttpClient.h"
#include <unistd.h>
#include <time.h>
DEFINE_int32(conn_timeout_ms, 1000, "");
DEFINE_int32(ws_meta_http_port, 11000, "");
// settings of a process
DEFINE_string(pid_file, "", "");
DEFINE_int32(vs_i32, 7, ""); DEFINE_int64(vs_i64, -5, ""); DEFINE_uint32(vs_u32, 3, ""); DEFINE_uint64(vs_u64, 9, ""); DEFINE_bool(vs_bool, false, ""); DEFINE_double(vs_dbl, 0.5, ""); DEFINE_string(vs_str, "text", ""); DEFINE_string(vs_str2, "", "");
DEFINE_string(vs_map, "{}", ""); DEFINE_string(vs_map2, "{\"a\":\"1\"}", ""); DEFINE_string(rocksdb_db_options, "{}", "");
static folly::dynamic flagsNow() {
    std::vector<gflags::CommandLineFlagInfo> all; gflags::GetAllFlags(&all);
    static const std::unordered_set<std::string> known{"max_edge_returned_per_vertex", "minloglevel", "v", "heartbeat_interval_secs", "meta_client_retry_times", "slow_op_threshhold_ms", "wal_ttl", "clean_wal_interval_secs", "custom_filter_interval_secs",
        "accept_partial_success", "rocksdb_db_options", "rocksdb_column_family_options", "rocksdb_block_based_table_options"};
    auto v = folly::dynamic::array();
    for (auto& f : all) if (known.count(f.name) || f.name.compare(0, 3, "vs_") == 0) v.push_back(folly::dynamic::array(f.name, f.type, vf::enc(f.current_value)));
    return v;
}
namespace nebula { namespace http { StatusOr<std::string> HttpClient::get(const std::string&, const std::string&) { return Status::Error("not here"); } } }
using namespace nebula;            // NOLINT
using vf::toDyn; using vf::fromDyn;
using meta::MetaClient;
static folly::dynamic obj() { return folly::dynamic::object(); }
static void say(folly::dynamic e) { e["at"] = vf::Loop::get().now; std::cout << folly::toJson(e) << "\n"; }
template <class A, class B> static folly::dynamic toDynP(const std::pair<A, B>& p) { return folly::dynamic::array(toDyn(p.first), toDyn(p.second)); }
// results
static folly::dynamic schemaDyn(const meta::NebulaSchemaProvider& s);
static folly::dynamic res(bool b) { return b; }
static folly::dynamic res(folly::Unit) { return 0; }
template <class T> static auto res(const T& x) -> decltype(toDyn(x)) { return toDyn(x); }
template <class A, class B> static folly::dynamic res(const std::pair<A, B>& p) { return folly::dynamic::array(res(p.first), res(p.second)); }
template <class A, class B> static folly::dynamic res(const std::vector<std::pair<A, B>>& v) { auto a = folly::dynamic::array(); for (auto& x : v) a.push_back(res(x)); return a; }
template <class T> static folly::dynamic res(const std::vector<std::shared_ptr<T>>& v) { std::vector<folly::dynamic> a; for (auto& x : v) a.push_back(toDyn(*x)); return vf::sorted(a); }
static folly::dynamic res(const std::shared_ptr<meta::cpp2::IndexItem>& x) { return x ? toDyn(*x) : folly::dynamic("null"); }
static folly::dynamic res(const std::shared_ptr<const meta::NebulaSchemaProvider>& x) { return x ? schemaDyn(*x) : folly::dynamic("null"); }
static folly::dynamic res(const std::vector<std::shared_ptr<const meta::NebulaSchemaProvider>>& v) { auto a = folly::dynamic::array(); for (auto& x : v) a.push_back(res(x)); return a; }
static folly::dynamic res(const meta::PartHosts& p) { return folly::dynamic::array(p.spaceId_, p.partId_, toDyn(p.hosts_)); }
static folly::dynamic res(const meta::ListenerHosts& p) { return folly::dynamic::array(toDyn(p.type_), toDyn(p.peers_)); }
static folly::dynamic res(const std::vector<meta::ListenerHosts>& v) { std::vector<folly::dynamic> a; for (auto& x : v) a.push_back(res(x)); return vf::sorted(a); }
template <class K, class V> static folly::dynamic resMap(const std::unordered_map<K, V>& m) { std::vector<folly::dynamic> v; for (auto& e : m) v.push_back(folly::dynamic::array(toDyn(e.first), res(e.second))); return vf::sorted(v); }
template <class V> static folly::dynamic resMap2(const V& m) { std::vector<folly::dynamic> v; for (auto& e : m) v.push_back(folly::dynamic::array(toDyn(e.first), resMap(e.second))); return vf::sorted(v); }
static folly::dynamic res(const meta::PartsMap& m) { return resMap2(m); }
static folly::dynamic res(const meta::ListenersMap& m) { return resMap2(m); }
static folly::dynamic res(const meta::TagSchemas& m) { return resMap(m); }
static folly::dynamic res(const meta::TagSchema& m) { return resMap(m); }
static folly::dynamic res(const meta::LeaderInfo& l) {
    std::vector<folly::dynamic> v, p;
    for (auto& e : l.leaderMap_) v.push_back(folly::dynamic::array(e.first.first, e.first.second, toDyn(e.second)));
    return vf::sorted(v);
}
static folly::dynamic schemaDyn(const meta::NebulaSchemaProvider& s) {
    auto d = obj(); d["ver"] = s.getVersion(); d["n"] = s.getNumFields(); d["nullable"] = s.getNumNullableFields(); d["size"] = s.size();
    auto f = folly::dynamic::array();
    int64_t i = 0;
    for (auto it = s.begin(); it; ++it, ++i) {
        auto x = obj(); x["name"] = vf::enc(it->name()); x["type"] = toDyn(it->type()); x["null"] = it->nullable(); x["size"] = it->size(); x["off"] = it->offset();
        if (it->nullable()) x["pos"] = it->nullFlagPos();
        x["def"] = it->hasDefault() ? (it->defaultValue() ? vf::enc(it->defaultValue()->encode()) : std::string("null")) : std::string("");
        // the same field by its index and by its name
        auto* a = s.field(i); auto* b = s.field(std::string(it->name()));
        x["byIndex"] = a == &*it; x["byName"] = b ? b->name() == std::string(it->name()) : false;
        x["index"] = s.getFieldIndex(it->name()); x["nameAt"] = vf::enc(s.getFieldName(i)); x["typeAt"] = toDyn(s.getFieldType(i)); x["typeOf"] = toDyn(s.getFieldType(std::string(it->name())));
        f.push_back(x);
    }
    d["fields"] = f; d["prop"] = toDyn(s.getProp());
    auto t = s.getTTLInfo();
    d["ttl"] = t.ok() ? folly::dynamic(folly::dynamic::array(vf::enc(t.value().first), t.value().second)) : folly::dynamic(t.status().toString());
    d["no"] = folly::dynamic::array(s.getFieldIndex("no such field"), s.field(std::string("no such field")) == nullptr, s.field(-1) == nullptr, s.field(s.getNumFields()) == nullptr,
                                    s.getFieldName(-1) == nullptr, s.getFieldName(s.getNumFields()) == nullptr, toDyn(s.getFieldType(int64_t(-1))), toDyn(s.getFieldType(std::string("no such field"))));
    return d;
}
template <class T> static void putStatus(folly::dynamic& e, const StatusOr<T>& s) {
    e["ok"] = s.ok();
    if (s.ok()) e["v"] = res(s.value()); else { e["s"] = s.status().toString(); e["c"] = static_cast<int>(s.status().code()); }
}
static void putStatus(folly::dynamic& e, const Status& s) { e["ok"] = s.ok(); e["s"] = s.toString(); e["c"] = static_cast<int>(s.code()); }
struct Args {
    folly::dynamic d, echo = obj();
    template <class T> T get(const char* n) { T x{}; fromDyn(d[n], x); echo[n] = toDyn(x); return x; }
    bool has(const char* n) const { return d.count(n) > 0; }
    std::vector<std::pair<std::string, std::string>> pairs(const char* n) { auto v = get<std::vector<KeyValue>>(n); std::vector<std::pair<std::string, std::string>> r; for (auto& x : v) r.emplace_back(x.key, x.value); return r; }
    template <class T> T* opt(const char* n, T& x) { if (!has(n)) return nullptr; x = get<T>(n); return &x; }
};
struct Listener : meta::MetaChangedListener {
    std::unordered_map<GraphSpaceID, std::vector<meta::cpp2::LeaderInfo>> leaders;
    void l(const char* m, folly::dynamic a) { auto e = obj(); e["e"] = "on"; e["m"] = m; e["a"] = a; say(e); }
    void onSpaceAdded(GraphSpaceID s, bool i) override { l("SpaceAdded", folly::dynamic::array(s, i)); }
    void onSpaceRemoved(GraphSpaceID s, bool i) override { l("SpaceRemoved", folly::dynamic::array(s, i)); }
    void onSpaceOptionUpdated(GraphSpaceID s, const std::unordered_map<std::string, std::string>& o) override { l("SpaceOptionUpdated", folly::dynamic::array(s, toDyn(o))); }
    void onPartAdded(const meta::PartHosts& p) override { l("PartAdded", res(p)); }
    void onPartRemoved(GraphSpaceID s, PartitionID p) override { l("PartRemoved", folly::dynamic::array(s, p)); }
    void onPartUpdated(const meta::PartHosts& p) override { l("PartUpdated", res(p)); }
    void fetchLeaderInfo(std::unordered_map<GraphSpaceID, std::vector<meta::cpp2::LeaderInfo>>& o) override { o = leaders; }
    void onListenerAdded(GraphSpaceID s, PartitionID p, const meta::ListenerHosts& h) override { l("ListenerAdded", folly::dynamic::array(s, p, res(h))); }
    void onListenerRemoved(GraphSpaceID s, PartitionID p, meta::cpp2::ListenerType t) override { l("ListenerRemoved", folly::dynamic::array(s, p, toDyn(t))); }
    void onCheckRemoteListeners(GraphSpaceID s, PartitionID p, const std::vector<HostAddr>& h) override { std::vector<folly::dynamic> v; for (auto& x : h) v.push_back(toDyn(x)); l("CheckRemoteListeners", folly::dynamic::array(s, p, vf::sorted(v))); }
};
struct World {
    std::shared_ptr<folly::IOThreadPoolExecutor> pool; std::shared_ptr<folly::IOThreadPoolExecutor> extra;
    MetaClient* meta = nullptr; storage::GraphStorageClient* graph = nullptr; storage::GeneralStorageClient* general = nullptr; storage::InternalStorageClient* internal = nullptr;
    meta::ServerBasedSchemaManager* sm = nullptr; meta::ServerBasedIndexManager* im = nullptr;
    Listener listener;
    std::vector<std::shared_ptr<const meta::NebulaSchemaProvider>> held;
};
static World* W = nullptr;
static int nextCall = 0;
static std::map<int, vf::Rpc> pending;
static bool preempt = false, stuck = false, went = false;
static void command(const folly::dynamic& c);
// one command from the input; false: nothing will happen any more
static bool serve() {
    std::cout << "?\n" << std::flush;
    std::string line; if (!std::getline(std::cin, line)) _exit(0);
    auto c = folly::parseJson(line);
    if (c["do"].asString() == "stuck") return false;
    if (c["do"].asString() == "go") { went = true; return true; }
    command(c); return true;
}
static void drain() { while (vf::Loop::get().step()) {} }
#include <sys/syscall.h>
// Other threads (the clock's) really sleep; the client's pauses take virtual time.
static const pthread_t mainThread = pthread_self();
static void slept(int64_t ms) {
    if (!pthread_equal(pthread_self(), mainThread)) { struct timespec t{ms / 1000, ms % 1000 * 1000000}; ::syscall(SYS_nanosleep, &t, nullptr); return; }
    auto e = obj(); e["e"] = "slept"; e["ms"] = ms; vf::Loop::get().now += ms; say(e); }
extern "C" unsigned sleep(unsigned s) { slept(static_cast<int64_t>(s) * 1000); return 0; }
extern "C" int nanosleep(const struct timespec* t, struct timespec*) { slept(t->tv_sec * 1000 + t->tv_nsec / 1000000); return 0; }
extern "C" int clock_nanosleep(clockid_t, int, const struct timespec* t, struct timespec*) { slept(t->tv_sec * 1000 + t->tv_nsec / 1000000); return 0; }
template <class R> static void putStorage(folly::dynamic& e, storage::StorageRpcResponse<R>& r) {
    e["ok"] = true; e["succeeded"] = r.succeeded(); e["completeness"] = r.responses().empty() && r.failedParts().empty() ? -1 : r.completeness(); e["max"] = r.maxLatency();
    std::vector<folly::dynamic> f; for (auto& p : r.failedParts()) f.push_back(folly::dynamic::array(p.first, toDyn(p.second)));
    e["failed"] = vf::sorted(f);
    auto a = folly::dynamic::array(); for (auto& x : r.responses()) a.push_back(toDyn(x)); e["responses"] = a;
    auto h = folly::dynamic::array(); for (auto& x : r.hostLatency()) h.push_back(folly::dynamic::array(toDyn(std::get<0>(x)), std::get<1>(x), std::get<2>(x) >= 0)); e["lat"] = h;
}
template <class T> static void putAny(folly::dynamic& e, StatusOr<T>& v) { putStatus(e, v); }
template <class T> static void putAny(folly::dynamic& e, storage::StorageRpcResponse<T>& v) { putStorage(e, v); }
static void putAny(folly::dynamic& e, nebula::cpp2::ErrorCode& c) { e["ok"] = true; e["v"] = toDyn(c); }
static void putAny(folly::dynamic& e, storage::ErrOrVal& c) { e["ok"] = true; if (c.isRightType()) { e["v"] = toDyn(nebula::value(c)); e["right"] = true; } else { e["v"] = toDyn(nebula::error(c)); e["right"] = false; } }
template <class T> static void watch(int id, folly::Future<T> f) {
    std::move(f).thenTry([id](folly::Try<T>&& t) {
        auto e = obj(); e["e"] = "done"; e["id"] = id;
        if (t.hasException()) { e["ok"] = false; e["x"] = std::string(t.exception().what()); } else putAny(e, t.value());
        say(e);
    });
}
template <class T> static void watch(int id, folly::SemiFuture<T> f) { watch(id, std::move(f).toUnsafeFuture()); }
#define A(T, n) a.get<std::decay_t<T>>(n)
#define VEC(T) std::vector<T>
using KQ = std::unordered_map<SessionID, std::unordered_set<ExecutionPlanID>>;
// The order of evaluation: the arguments are read (and echoed) before the operation starts.
static void start(const folly::dynamic& c) {
    int id = static_cast<int>(c["id"].asInt()); auto cl = c["client"].asString(), m = c["m"].asString();
    Args a; a.d = c["a"];
    auto echo = [&] { auto e = obj(); e["e"] = "start"; e["id"] = id; e["client"] = cl; e["m"] = m; e["a"] = a.echo; e["x"] = c.count("x") ? c["x"] : folly::dynamic(0); say(e); };
    folly::EventBase* evb = c.count("evb") ? W->extra->getEventBase() : nullptr;
    namespace sc = storage::cpp2;
    preempt = c.count("preempt") > 0;
#define S(name, decl, call) if (m == #name) { decl; echo(); watch(id, call); goto out; }
    if (cl == "meta") {
        auto& c = *W->meta; namespace mc = meta::cpp2;
#include "client_meta_api.h"
        throw std::runtime_error("no such call: " + m);
    } else if (cl == "graph") {
        auto& g = *W->graph; auto sp = A(GraphSpaceID, "space_id");
        S(getNeighbors, auto cn = A(VEC(std::string), "column_names"); auto v = A(VEC(Row), "items"); auto et = A(VEC(EdgeType), "traverse_spec.edge_types"); auto di = A(sc::EdgeDirection, "traverse_spec.edge_direction");
          VEC(sc::StatProp) s1; auto* p1 = a.opt("traverse_spec.stat_props", s1); VEC(sc::VertexProp) s2; auto* p2 = a.opt("traverse_spec.vertex_props", s2); VEC(sc::EdgeProp) s3; auto* p3 = a.opt("traverse_spec.edge_props", s3);
          VEC(sc::Expr) s4; auto* p4 = a.opt("traverse_spec.expressions", s4); auto de = A(bool, "traverse_spec.dedup"); auto ra = A(bool, "traverse_spec.random"); auto ob = A(VEC(sc::OrderBy), "traverse_spec.order_by"); auto li = A(int64_t, "traverse_spec.limit"); auto fi = A(std::string, "traverse_spec.filter"),
          g.getNeighbors(sp, cn, v, et, di, p1, p2, p3, p4, de, ra, ob, li, fi, evb))
        S(addVertices, auto v = A(VEC(sc::NewVertex), "items"); auto pn = (a.get<std::unordered_map<TagID, VEC(std::string)>>("prop_names")); auto ne = A(bool, "if_not_exists"), g.addVertices(sp, v, pn, ne, evb))
        S(addEdges, auto v = A(VEC(sc::NewEdge), "items"); auto pn = A(VEC(std::string), "prop_names"); auto ne = A(bool, "if_not_exists"); bool toss = a.d.count("toss") && a.d["toss"].asBool(), g.addEdges(sp, v, pn, ne, evb, toss))
        S(getProps, DataSet in; in.rows = A(VEC(Row), "items"); VEC(sc::VertexProp) s2; auto* p2 = a.opt("vertex_props", s2); VEC(sc::EdgeProp) s3; auto* p3 = a.opt("edge_props", s3); VEC(sc::Expr) s4; auto* p4 = a.opt("expressions", s4);
          auto de = A(bool, "dedup"); auto ob = A(VEC(sc::OrderBy), "order_by"); auto li = A(int64_t, "limit"); auto fi = A(std::string, "filter"), g.getProps(sp, in, p2, p3, p4, de, ob, li, fi, evb))
        S(deleteEdges, auto v = A(VEC(sc::EdgeKey), "items"), g.deleteEdges(sp, v, evb))
        S(deleteVertices, auto v = A(VEC(Value), "items"), g.deleteVertices(sp, v, evb))
        S(deleteTags, auto v = A(VEC(sc::DelTags), "items"), g.deleteTags(sp, v, evb))
        S(updateVertex, auto v = A(Value, "vertex_id"); auto t = A(TagID, "tag_id"); auto u = A(VEC(sc::UpdatedProp), "updated_props"); auto i = A(bool, "insertable"); auto r = A(VEC(std::string), "return_props"); auto co = A(std::string, "condition"), g.updateVertex(sp, v, t, u, i, r, co, evb))
        S(updateEdge, auto v = A(sc::EdgeKey, "edge_key"); auto u = A(VEC(sc::UpdatedProp), "updated_props"); auto i = A(bool, "insertable"); auto r = A(VEC(std::string), "return_props"); auto co = A(std::string, "condition"), g.updateEdge(sp, v, u, i, r, co, evb))
        S(getUUID, auto n = A(std::string, "name"), g.getUUID(sp, n, evb))
        S(lookupIndex, auto x = A(VEC(sc::IndexQueryContext), "indices.contexts"); auto b = A(bool, "indices.is_edge"); auto t = A(int32_t, "indices.tag_or_edge_id"); auto r = A(VEC(std::string), "return_columns"), g.lookupIndex(sp, x, b, t, r, evb))
        S(lookupAndTraverse, auto x = A(sc::IndexSpec, "indices"); auto t = A(sc::TraverseSpec, "traverse_spec"), g.lookupAndTraverse(sp, x, t, evb))
        S(scanEdge, auto r = A(sc::ScanEdgeRequest, "req"), g.scanEdge(r, evb))
        S(scanVertex, auto r = A(sc::ScanVertexRequest, "req"), g.scanVertex(r, evb))
        throw std::runtime_error("no such call: " + m);
    } else if (cl == "general") {
        auto& g = *W->general; auto sp = A(GraphSpaceID, "space_id");
        S(get, auto v = A(VEC(std::string), "items"); auto b = A(bool, "return_partly"), g.get(sp, std::move(v), b, evb))
        S(put, auto v = A(VEC(KeyValue), "items"), g.put(sp, v, evb))
        S(remove, auto v = A(VEC(std::string), "items"), g.remove(sp, v, evb))
        throw std::runtime_error("no such call: " + m);
    } else {
        auto& g = *W->internal; auto sp = A(GraphSpaceID, "space_id");
        S(forwardTransaction, auto t = A(int64_t, "txn_id"); auto p = A(PartitionID, "part_id"); auto d = A(std::string, "data"), g.forwardTransaction(t, sp, p, std::move(d), evb))
        S(getValue, auto l = A(int64_t, "vid_len"); auto k = A(std::string, "key"), g.getValue(l, sp, k, evb))
        throw std::runtime_error("no such call: " + m);
    }
out:
    preempt = false;
    if (cl != "meta") { auto e = obj(); e["e"] = "started"; e["id"] = id; say(e); }
}
static void query(const folly::dynamic& c) {
    auto m = c["m"].asString(); Args a; a.d = c["a"]; auto& k = *W->meta;
    auto e = obj(); e["e"] = "q"; e["m"] = m;
    auto sp = a.has("s") ? A(GraphSpaceID, "s") : 0;
#define Q(name, call) if (m == name) { putStatus(e, call); e["a"] = a.echo; say(e); return; }
#define P(name, call) if (m == name) { e["v"] = res(call); e["a"] = a.echo; say(e); return; }
#define STR(n) a.get<std::string>(n)
#define INT(n) a.get<int32_t>(n)
    Q("spaceId", k.getSpaceIdByNameFromCache(STR("n"))) Q("spaceName", k.getSpaceNameByIdFromCache(sp)) Q("vidLen", k.getSpaceVidLen(sp)) Q("vidType", k.getSpaceVidType(sp))
    Q("spaceDesc", k.getSpaceDesc(sp)) Q("isolation", k.getIsolationLevel(sp)) Q("tagId", k.getTagIDByNameFromCache(sp, STR("n"))) Q("tagName", k.getTagNameByIdFromCache(sp, INT("t")))
    Q("tagVer", k.getLatestTagVersionFromCache(sp, INT("t"))) Q("edgeVer", k.getLatestEdgeVersionFromCache(sp, INT("t"))) Q("edgeType", k.getEdgeTypeByNameFromCache(sp, STR("n"))) Q("edgeName", k.getEdgeNameByTypeFromCache(sp, INT("t")))
    Q("allEdge", k.getAllEdgeFromCache(sp)) P("partsMap", k.getPartsMapFromCache(A(HostAddr, "h"))) Q("partHosts", k.getPartHostsFromCache(sp, INT("p"))) Q("partExist", k.checkPartExistInCache(A(HostAddr, "h"), sp, INT("p")))
    Q("spaceExist", k.checkSpaceExistInCache(A(HostAddr, "h"), sp)) Q("partsNum", k.partsNum(sp)) P("partId", k.partId(INT("p"), STR("n")))
    Q("tagSchema", k.getTagSchemaFromCache(sp, INT("t"), INT("ver"))) Q("edgeSchema", k.getEdgeSchemaFromCache(sp, INT("t"), INT("ver")))
    Q("allVerTag", k.getAllVerTagSchema(sp)) Q("latestTag", k.getAllLatestVerTagSchema(sp)) Q("allVerEdge", k.getAllVerEdgeSchema(sp)) Q("latestEdge", k.getAllLatestVerEdgeSchemaFromCache(sp))
    Q("tagIndexByName", k.getTagIndexByNameFromCache(sp, STR("n"))) Q("edgeIndexByName", k.getEdgeIndexByNameFromCache(sp, STR("n"))) Q("tagIndex", k.getTagIndexFromCache(sp, INT("t"))) Q("edgeIndex", k.getEdgeIndexFromCache(sp, INT("t")))
    Q("relatedTag", k.getRelatedTagIDByIndexNameFromCache(sp, STR("n"))) Q("relatedEdge", k.getRelatedEdgeTypeByIndexNameFromCache(sp, STR("n"))) Q("tagIndexes", k.getTagIndexesFromCache(sp)) Q("edgeIndexes", k.getEdgeIndexesFromCache(sp))
    Q("tagIndexed", k.checkTagIndexed(sp, INT("t"))) Q("edgeIndexed", k.checkEdgeIndexed(sp, INT("t")))
    P("roles", k.getRolesByUserFromCache(STR("n"))) P("auth", k.authCheckFromCache(STR("n"), STR("p"))) P("shadow", k.checkShadowAccountFromCache(STR("n"))) P("term", k.getTermFromCache(sp, INT("p")))
    Q("hosts", k.getStorageHosts()) Q("leader", k.getStorageLeaderFromCache(sp, INT("p"))) Q("leaderInfo", k.getLeaderInfo())
    Q("listeners", k.getListenersBySpaceHostFromCache(sp, A(HostAddr, "h"))) Q("listenersByHost", k.getListenersByHostFromCache(A(HostAddr, "h"))) Q("listenerHost", k.getListenerHostsBySpacePartType(sp, INT("p"), A(meta::cpp2::ListenerType, "ty"))) Q("listenerHosts", k.getListenerHostTypeBySpacePartType(sp, INT("p")))
    Q("ftClients", k.getFTClientsFromCache()) Q("ftIndexes", k.getFTIndexesFromCache()) Q("ftBySpace", k.getFTIndexBySpaceFromCache(sp)) Q("ftBySchema", k.getFTIndexBySpaceSchemaFromCache(sp, INT("t"))) Q("ftByName", k.getFTIndexByNameFromCache(sp, STR("n")))
    // the same through the managers
    auto& s = *W->sm; auto& x = *W->im;
    P("smTagSchema", s.getTagSchema(sp, INT("t"), INT("ver"))) P("smEdgeSchema", s.getEdgeSchema(sp, INT("t"), INT("ver"))) Q("smTagId", s.toTagID(sp, STR("n"))) Q("smTagName", s.toTagName(sp, INT("t"))) Q("smEdgeType", s.toEdgeType(sp, STR("n"))) Q("smEdgeName", s.toEdgeName(sp, INT("t")))
    Q("smSpaceId", s.toGraphSpaceID(STR("n"))) Q("smSpaceName", s.toGraphSpaceName(sp)) Q("smVidLen", s.getSpaceVidLen(sp)) Q("smVidType", s.getSpaceVidType(sp)) Q("smPartsNum", s.getPartsNum(sp)) Q("smTagVer", s.getLatestTagSchemaVersion(sp, INT("t"))) Q("smEdgeVer", s.getLatestEdgeSchemaVersion(sp, INT("t")))
    Q("smAllEdge", s.getAllEdge(sp)) Q("smAllVerTag", s.getAllVerTagSchema(sp)) Q("smLatestTag", s.getAllLatestVerTagSchema(sp)) Q("smAllVerEdge", s.getAllVerEdgeSchema(sp)) Q("smLatestEdge", s.getAllLatestVerEdgeSchema(sp)) Q("smFtClients", s.getFTClients()) Q("smFtIndex", s.getFTIndex(sp, INT("t")))
    Q("imTagIndex", x.getTagIndex(sp, INT("t"))) Q("imEdgeIndex", x.getEdgeIndex(sp, INT("t"))) Q("imTagIndexes", x.getTagIndexes(sp)) Q("imEdgeIndexes", x.getEdgeIndexes(sp)) Q("imTagIndexId", x.toTagIndexID(sp, STR("n"))) Q("imEdgeIndexId", x.toEdgeIndexID(sp, STR("n"))) Q("imTagIndexed", x.checkTagIndexed(sp, INT("t"))) Q("imEdgeIndexed", x.checkEdgeIndexed(sp, INT("t")))
    throw std::runtime_error("no such query: " + m);
}
static void command(const folly::dynamic& c) {
    auto d = c["do"].asString();
    if (d == "new") {
        W = new World; nextCall = 0; pending.clear(); vf::Loop::get().clear(); vf::Loop::get().now = 0; vf::Net::get().names.clear(); vf::Net::get().sockets = 0;
        for (auto& kv : c["names"].items()) vf::Net::get().names[kv.first] = kv.second.asString();
        folly::Random::gen().seed(static_cast<uint64_t>(c["seed"].asInt()));
        for (auto& kv : c["flags"].items()) if (gflags::SetCommandLineOption(kv.first.c_str(), kv.second.asString().c_str()).empty()) throw std::runtime_error("no such flag: " + kv.first);
        if (c.count("pid")) gflags::SetCommandLineOptionWithMode("pid_file", c["pid"].asString().c_str(), gflags::SET_FLAGS_DEFAULT);
        W->pool = std::make_shared<folly::IOThreadPoolExecutor>(c["threads"].asInt()); W->extra = std::make_shared<folly::IOThreadPoolExecutor>(1, 50);
        meta::MetaClientOptions o; fromDyn(c["local"], o.localHost_); fromDyn(c["role"], o.role_); o.skipConfig_ = c["skipConfig"].asBool(); o.clusterId_ = c["cluster"].asInt();
        std::vector<HostAddr> addrs; fromDyn(c["addrs"], addrs);
        W->meta = new MetaClient(W->pool, addrs, o);
        W->graph = new storage::GraphStorageClient(W->pool, W->meta); W->general = new storage::GeneralStorageClient(W->pool, W->meta); W->internal = new storage::InternalStorageClient(W->pool, W->meta);
        W->sm = meta::ServerBasedSchemaManager::create(W->meta).release(); W->im = meta::ServerBasedIndexManager::create(W->meta).release();
        if (c["listener"].asBool()) W->meta->registerListener(&W->listener);
        auto e = obj(); e["e"] = "new"; say(e);
    } else if (d == "leaders") { fromDyn(c["v"], W->listener.leaders); }
    else if (d == "start") start(c);
    else if (d == "q") query(c);
    else if (d == "answer" || d == "fail") {
        auto it = pending.find(static_cast<int>(c["call"].asInt())); auto r = std::move(it->second); pending.erase(it);
        if (d == "answer") r.reply(c["reply"], r.echo); else { auto e = obj(); e["e"] = "failed"; e["call"] = c["call"]; e["msg"] = c["msg"]; say(e); r.fail(c["msg"].asString()); }
    } else if (d == "step") { auto e = obj(); e["e"] = "stepped"; e["did"] = vf::Loop::get().step(); e["left"] = vf::Loop::get().ready.size(); say(e); }
    else if (d == "advance") { auto e = obj(); e["e"] = "advance"; bool ok = vf::Loop::get().advance(); e["did"] = ok; say(e); }
    else if (d == "break") { for (auto& w : vf::socketsMade()) if (auto s = w.lock()) if (s->id == c["sock"].asInt()) { if (c["how"].asString() == "hung") s->hung = true; else if (auto ch = s->channel) *ch = false; } }
    else if (d == "ready") { bool r = false; auto e = obj(); e["e"] = "ready"; e["id"] = c["id"];
        try { r = c.count("wait") ? W->meta->waitForMetadReady(static_cast<int>(c["wait"].asInt()), 2) : W->meta->isMetadReady(); e["v"] = r; } catch (vf::Stuck&) { e["v"] = "stuck"; } say(e); }
    else if (d == "refresh") { auto e = obj(); e["e"] = "refresh"; e["id"] = c["id"]; try { putStatus(e, W->meta->refreshCache()); } catch (vf::Stuck&) { e["s"] = "stuck"; } say(e); }
    else if (d == "hold") { auto s = c["edge"].asBool() ? W->meta->getEdgeSchemaFromCache(static_cast<int>(c["s"].asInt()), static_cast<int>(c["t"].asInt())) : W->meta->getTagSchemaFromCache(static_cast<int>(c["s"].asInt()), static_cast<int>(c["t"].asInt()));
        auto e = obj(); e["e"] = "hold"; e["k"] = W->held.size(); W->held.push_back(s.ok() ? s.value() : nullptr); e["v"] = res(W->held.back()); say(e); }
    else if (d == "held") { auto e = obj(); e["e"] = "held"; e["k"] = c["k"]; e["v"] = res(W->held[c["k"].asInt()]); say(e); }
    else if (d == "partid") { auto e = obj(); e["e"] = "partid"; std::string k; fromDyn(c["k"], k); e["n"] = c["n"]; e["v"] = W->meta->partId(static_cast<int>(c["n"].asInt()), k); say(e); }
    else if (d == "encode") { Value v; fromDyn(c["v"], v); ObjectPool pool; auto e = obj(); e["e"] = "encode"; e["v"] = vf::enc(Expression::encode(*ConstantExpression::make(&pool, v))); say(e); }
    else if (d == "setflag") { std::string v; fromDyn(c["v"], v); gflags::SetCommandLineOption(c["n"].asString().c_str(), v.c_str()); }
    else if (d == "flags") { auto e = obj(); e["e"] = "flags"; e["v"] = flagsNow(); say(e); }
    else if (d == "stop") { W->meta->stop(); }
    else throw std::runtime_error("no such command: " + d);
}
int main(int argc, char** argv) {
    FLAGS_minloglevel = 5; FLAGS_logtostderr = true; (void)argc; google::InitGoogleLogging(argv[0]);
    vf::onCall() = [](vf::Rpc&& r) {
        auto e = obj(); e["e"] = "call"; e["call"] = ++nextCall; e["service"] = r.service; e["method"] = r.method; e["host"] = r.host; e["evb"] = r.evb; e["running"] = r.running; e["sock"] = r.sock; e["timeout"] = r.timeout; e["req"] = r.req;
        int n = nextCall; auto rep = r.reply;
        r.echo = [n](const folly::dynamic& d) { auto x = obj(); x["e"] = "answered"; x["call"] = n; x["reply"] = d; say(x); };
        pending.emplace(n, std::move(r)); say(e);
    };
    vf::pump() = [] { if (vf::Loop::get().step()) return true; return serve(); };
    vf::preempt() = [] { static bool in = false; if (!preempt || in) return; in = true; while (preempt && !went && serve()) {} in = false; went = false; };
    for (;;) { try { drain(); } catch (vf::Stuck&) { auto e = obj(); e["e"] = "stuck"; say(e); } serve(); }
}
