// Status for specs/status, and StatusOr<> for specs/either (L: a status, R: a value).
#include "common/base/Base.h"
#include "common/base/Status.h"
#undef CHECK
#undef DCHECK
struct CheckFailed {};
#define CHECK(x) if (!(x)) throw CheckFailed()
#define DCHECK(x) CHECK(x)
#include "common/base/StatusOr.h"
#include "drv.h"
using namespace nebula;
#define CODES(X) X(Inserted) X(Error) X(NoSuchFile) X(NotSupported) X(SyntaxError) X(SemanticError) X(StatementEmpty) X(KeyNotFound) X(PartialSuccess) X(SpaceNotFound) \
    X(HostNotFound) X(TagNotFound) X(EdgeNotFound) X(UserNotFound) X(IndexNotFound) X(GroupNotFound) X(ZoneNotFound) X(LeaderChanged) X(Balanced) X(PartNotFound) X(ListenerNotFound) X(PermissionError)
static std::string hash(const std::string& s) { uint64_t h = 14695981039346656037ULL; for (unsigned char c : s) h = (h ^ c) * 1099511628211ULL; return std::to_string(h); }
static std::string msg(const std::string& s) { return drv::Obj().num("n", s.size()).str("h", s.empty() ? "" : hash(s)).done(); }
static std::string show(const Status& s) {
    std::string is, t = s.toString(), m = s.message();
#define X(N) if (s.is##N()) is += (is.empty() ? "\"" : ",\"") + std::string(#N) + "\"";
    CODES(X)
#undef X
    bool tail = t.size() >= m.size() && t.compare(t.size() - m.size(), m.size(), m) == 0;
    std::ostringstream o; o << s;
    return drv::Obj().boolean("ok", s.ok()).num("code", s.code()).raw("msg", msg(m)).str("prefix", tail ? t.substr(0, t.size() - m.size()) : "?" + t).raw("is", "[" + is + "]").boolean("stream", o.str() == t).done();
}
static Status make(const std::string& c, const std::string& how, const std::string& m) {
#define X(N) if (c == #N) { if (how == "none") return Status::N(); if (how == "str") return Status::N(m); if (how == "piece") return Status::N(folly::StringPiece(m)); \
    if (how == "lit") return Status::N(m.c_str()); if (how == "one") return Status::N("%s", m.c_str()); return Status::N("%d%s:%lu", -5, m.c_str(), 1ul << 63); }
    CODES(X)
#undef X
    abort();
}
static std::string full(const std::string& how, const std::string& m) { return how == "none" ? "" : how == "fmt" ? "-5" + m + ":9223372036854775808" : m; }
static Status through(const Status& s, bool& reached) { StatusOr<int> so(s); if (s.ok()) { NG_RETURN_IF_ERROR(s); reached = true; return Status::OK(); } NG_RETURN_IF_ERROR(so); reached = true; return Status::OK(); }
static int statuses() {
    auto st = std::make_unique<std::map<std::string, Status>>();
    return drv::loop([&](const std::vector<std::string>& w) -> std::string {
        if (w[0] == "reset") { st->clear(); (*st)["a"]; (*st)["b"]; return "{}"; }
        drv::Obj o; auto& x = (*st)[w[1]]; Status* r = &x;
        if (w[0] == "make") { std::string m = drv::unhex(w[4]); for (int k = std::stoi(w[5]); k > 1; k /= 2) m += m; r = &(x = make(w[2], w[3], m)); o.raw("m", msg(full(w[3], m))); }
        else if (w[0] == "ok") { if (w[2] == "0") x = Status(); else x = Status::OK(); }
        else if (w[0] == "copy") { auto& y = (*st)[w[2]]; if (w[3] == "assign") r = &(x = y); else if (w[3] == "from") x = Status::from(y); else { Status z(y); x = z; } }
        else if (w[0] == "move") { auto& y = (*st)[w[2]]; if (w[3] == "assign") r = &(x = std::move(y)); else { Status z(std::move(y)); x = std::move(z); } }
        else if (w[0] == "through") { bool reached = false; Status z = through((*st)[w[2]], reached); x = z; o.boolean("reached", reached); }
        if (r != &x) return "{\"op\":\"assignment returns another object\"}";
        auto &a = (*st)["a"], &b = (*st)["b"];
        return o.raw("a", show(a)).raw("b", show(b)).boolean("eq", a == b).boolean("ne", a != b).done();
    });
}
// ---- StatusOr
static std::string bad;
static void flag(const char* w) { if (bad.empty()) bad = w; }
template <int TAG> struct Tracked {
    static int live;
    int v; Tracked* self; uint32_t magic;
    void born() { self = this; magic = 0xA11CE; ++live; }
    void check(const char* w) const { if (self != this || magic != 0xA11CE) flag(w); }
    Tracked(int x) : v(x) { born(); }
    Tracked(const Tracked& o) : v(o.v) { o.check("copied a dead object"); born(); }
    Tracked(Tracked&& o) noexcept : v(o.v) { o.check("moved a dead object"); o.v = -1; born(); }
    Tracked& operator=(const Tracked& o) { check("assigned to a dead object"); o.check("assigned a dead object"); v = o.v; return *this; }
    Tracked& operator=(Tracked&& o) noexcept { check("assigned to a dead object"); o.check("assigned a dead object"); if (this != &o) { v = o.v; o.v = -1; } return *this; }
    ~Tracked() { check("destroyed a dead object"); magic = 0xDEAD; self = nullptr; --live; v = -2; }
};
template <int TAG> int Tracked<TAG>::live = 0;
struct Trk {
    struct R : Tracked<1> { R(int x) : Tracked<1>(x) {} R(const Tracked<3>& o) : Tracked<1>(o.v) { o.check("converted a dead object"); } R(Tracked<3>&& o) : Tracked<1>(o.v) { o.check("converted a dead object"); o.v = -1; } };
    using V = Tracked<3>;
    static R r(int v) { return R(v); } static Tracked<3> cr(int v) { return Tracked<3>(v); } static V w(int v) { return V(v); }
    static int gr(const R& x) { x.check("read a dead object"); return x.v; } static int gv(const V& x) { x.check("read a dead object"); return x.v; }
    static constexpr bool copyable = true;
};
struct Str {
    using R = std::string; using V = const char*;
    static const char* w(int v) { static std::string s(100, 'x'); return v == 0 ? "" : s.c_str(); }
    static R r(int v) { return w(v); } static const char* cr(int v) { return w(v); }
    static int gr(const R& x) { return x == r(0) ? 0 : x == r(1) ? 1 : -9; } static int gv(const V& x) { return gr(x); }
    static constexpr bool copyable = true;
};
struct Uni {
    using R = std::unique_ptr<std::string>; using V = std::unique_ptr<std::string>;
    static R r(int v) { return std::make_unique<std::string>(v, 'u'); } static R cr(int v) { return r(v); } static V w(int v) { return r(v); }
    static int gr(const R& x) { return x ? static_cast<int>(x->size()) : -8; } static int gv(const V& x) { return gr(x); }
    static constexpr bool copyable = false;
};
static Status stat(int v) { return v == 0 ? Status::KeyNotFound("k%d", 7) : Status::Error(std::string(300, 'e')); }
static int gstat(const Status& s) { for (int v = 0; v < 2; ++v) if (s == stat(v) && s.message() == stat(v).message()) return v; return s.ok() ? -7 : -9; }
template <class C> struct Run {
    using A = StatusOr<typename C::R>;
    using B = StatusOr<typename C::V>;
    std::unique_ptr<A> ab[2]; std::unique_ptr<B> c;
    template <class X, class F> static std::string show(X* x, F f) {
        if (!x) return "none:0";
        const X& cx = *x;
        if (cx.ok() != static_cast<bool>(cx)) return "ok disagrees";
        if (cx.ok()) {
            try { (void)cx.status(); return "value and status"; } catch (CheckFailed&) {}
            std::string o = "R:" + std::to_string(f(cx.value()));
            if (&cx.value() != &x->value()) o += "!ref";
            return o;
        }
        try { Status s = cx.status(); auto o = "L:" + std::to_string(gstat(s)); Status t = x->status(); if (!(t == s)) o += "!status"; return o; } catch (CheckFailed&) { return "void:0"; }
    }
    std::string obs(const std::string& res) {
        std::string o = "a=" + show(ab[0].get(), C::gr) + " b=" + show(ab[1].get(), C::gr) + " c=" + show(c.get(), C::gv) + " res=" + res;
        if (std::is_same<C, Trk>::value) {
            int n = 0, m = 0;
            for (auto& p : ab) if (p) n += p->ok();
            if (c) m += c->ok();
            if (Tracked<1>::live != n || Tracked<3>::live != m) o += " live objects " + std::to_string(Tracked<1>::live) + "/" + std::to_string(Tracked<3>::live);
        }
        if (!bad.empty()) { o += " " + bad; bad.clear(); }
        return o;
    }
    void reset() { ab[0].reset(); ab[1].reset(); c.reset(); bad.clear(); Tracked<1>::live = Tracked<3>::live = 0; }
    template <class X, class FV, class FK> void newval(std::unique_ptr<X>& p, bool st, const std::string& how, FV fv, FK fk, int v) {
        if (st) { if (how == "copy") { const auto s = stat(v); p.reset(new X(s)); } else if (how == "move") { auto s = stat(v); p.reset(new X(std::move(s))); } else p.reset(new X([v]() -> X { return stat(v); }())); return; }
        if (how == "copy") { if constexpr (C::copyable) { const auto x = fv(v); p.reset(new X(x)); } }
        else if (how == "move") { auto x = fv(v); p.reset(new X(std::move(x))); }
        else p.reset(new X([&]() -> X { return fk(v); }()));
    }
    template <class X, class FV, class FK> void setval(X& x, bool st, const std::string& how, FV fv, FK fk, int v) {
        X* r = &x;
        if (st) { if (how == "copy") { const auto s = stat(v); r = &(x = s); } else { auto s = stat(v); r = &(x = std::move(s)); } }
        else if (how == "copy") { if constexpr (C::copyable) { const auto y = fv(v); r = &(x = y); } }
        else if (how == "move") { auto y = fv(v); r = &(x = std::move(y)); }
        else r = &(x = fk(v));
        if (r != &x) flag("assignment returns another object");
    }
    template <class X> void setown(X& x, const std::string& how) {
        const X& cx = x;
        if (!x.ok()) { if (how == "copy") x = cx.status(); else x = std::move(x).status(); return; }
        if (how == "copy") { if constexpr (C::copyable) x = cx.value(); } else x = std::move(x.value());
    }
    int main() {
        auto R = [](int v) { return C::r(v); }; auto V = [](int v) { return C::w(v); }; auto K = [](int v) { return C::cr(v); };
        return drv::loop([&](const std::vector<std::string>& w) -> std::string {
            if (w[0] == "reset") { reset(); return "ok"; }
            std::string res = "-"; const std::string &op = w[0], &s = w[1];
            auto A_ = [&](const std::string& n) -> std::unique_ptr<A>& { return ab[n == "b"]; };
            if (op == "new") { if (s == "c") c.reset(new B()); else A_(s).reset(new A()); }
            else if (op == "newval") { if (s == "c") newval(c, w[2] == "L", w[4], V, V, std::stoi(w[3])); else newval(A_(s), w[2] == "L", w[4], R, K, std::stoi(w[3])); }
            else if (op == "setval") { if (s == "c") setval(*c, w[2] == "L", w[4], V, V, std::stoi(w[3])); else setval(*A_(s), w[2] == "L", w[4], R, K, std::stoi(w[3])); }
            else if (op == "setown") { if (s == "c") setown(*c, w[2]); else setown(*A_(s), w[2]); }
            else if (op == "newfrom") {
                auto& d = A_(w[1]); auto& f = w[2];
                if (w[3] == "copy") { if constexpr (C::copyable) { if (f == "c") { const B& x = *c; d.reset(new A(x)); } else { const A& x = *A_(f); d.reset(new A(x)); } } }
                else { if (f == "c") d.reset(new A(std::move(*c))); else d.reset(new A(std::move(*A_(f)))); }
            } else if (op == "setfrom") {
                A& t = *A_(w[1]); auto& f = w[2]; A* r = nullptr;
                if (w[3] == "copy") { if constexpr (C::copyable) { if (f == "c") { const B& x = *c; r = &(t = x); } else { const A& x = *A_(f); r = &(t = x); } } }
                else { if (f == "c") r = &(t = std::move(*c)); else r = &(t = std::move(*A_(f))); }
                if (r != &t) flag("assignment returns another object");
            } else if (op == "take") {
                if (w[2] == "L") { if (s == "c") res = std::to_string(gstat(std::move(*c).status())); else if (A_(s)->ok()) res = "?"; else res = std::to_string(s == "a" ? gstat(std::move(*A_(s)).status()) : gstat(Status::from(std::move(*A_(s))))); }
                else if (s == "c") res = std::to_string(C::gv(std::move(*c).value())); else res = std::to_string(C::gr(std::move(*A_(s)).value()));
            } else if (op == "write") { if (s == "c") c->value() = V(std::stoi(w[3])); else A_(s)->value() = R(std::stoi(w[3])); }
            else if (op == "drop") { if (s == "c") c.reset(); else A_(s).reset(); }
            return obs(res);
        });
    }
};
int main(int, char** argv) {
    std::string c = argv[1];
    if (c == "status") return statuses();
    if (c == "tracked") return Run<Trk>().main();
    if (c == "string") return Run<Str>().main();
    if (c == "moveonly") return Run<Uni>().main();
    return 3;
}
