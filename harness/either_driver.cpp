// Replays specs/either/EitherOr.tla into EitherOr<>/ErrorOr<>.
#include "common/base/Base.h"
#include "common/base/EitherOr.h"
#include "common/base/ErrorOr.h"
#include <new>
#include <optional>
using namespace nebula;

static std::string bad;                       // misuse of a dead or foreign object
static void flag(const char* w) { if (bad.empty()) bad = w; }

template <int TAG> struct Tracked {
    static int live;
    int v; Tracked* self; uint32_t magic;
    void born() { self = this; magic = 0xA11CE; ++live; }
    void check(const char* w) const { if (self != this || magic != 0xA11CE) flag(w); }
    explicit Tracked(int x) : v(x) { born(); }
    Tracked(const Tracked& o) : v(o.v) { o.check("copied a dead object"); born(); }
    Tracked(Tracked&& o) noexcept : v(o.v) { o.check("moved a dead object"); o.v = -1; born(); }
    Tracked& operator=(const Tracked& o) { check("assigned to a dead object"); o.check("assigned a dead object"); v = o.v; return *this; }
    Tracked& operator=(Tracked&& o) noexcept { check("assigned to a dead object"); o.check("assigned a dead object"); if (this != &o) { v = o.v; o.v = -1; } return *this; }
    ~Tracked() { check("destroyed a dead object"); magic = 0xDEAD; self = nullptr; --live; v = -2; }
};
template <int TAG> int Tracked<TAG>::live = 0;

// what a slot's alternatives look like for each combination of types
enum class Code : int16_t { ONE = 1, TWO = -7 };
struct Trk {   // instrumented, neither alternative constructible from the other
    using L = Tracked<0>; using R = Tracked<1>;
    struct CL { int x; operator Tracked<0>() const { return Tracked<0>(x); } };
    struct CR { int x; operator Tracked<1>() const { return Tracked<1>(x); } };
    using U = Tracked<2>; using V = Tracked<3>;
    static L l(int v) { return L(v); } static R r(int v) { return R(v); }
    static CL cl(int v) { return CL{v}; } static CR cr(int v) { return CR{v}; }
    static U u(int v) { return U(v); } static V w(int v) { return V(v); }
    static int gl(const L& x) { x.check("read a dead object"); return x.v; } static int gr(const R& x) { x.check("read a dead object"); return x.v; }
    static int gu(const U& x) { x.check("read a dead object"); return x.v; } static int gv(const V& x) { x.check("read a dead object"); return x.v; }
    static constexpr bool copyable = true, tag = false, err = false;
};
// Tracked<0>/<1> convertible from the c-slot's types
template <> struct Tracked<4>;
struct Trk2 {
    struct L : Tracked<0> { using Tracked<0>::Tracked; explicit L(const Tracked<2>& o) : Tracked<0>(o.v) { o.check("converted a dead object"); } explicit L(Tracked<2>&& o) : Tracked<0>(o.v) { o.check("converted a dead object"); o.v = -1; } };
    struct R : Tracked<1> { using Tracked<1>::Tracked; explicit R(const Tracked<3>& o) : Tracked<1>(o.v) { o.check("converted a dead object"); } explicit R(Tracked<3>&& o) : Tracked<1>(o.v) { o.check("converted a dead object"); o.v = -1; } explicit R(int) = delete; R(int x, int) : Tracked<1>(x) {} };
    using U = Tracked<2>; using V = Tracked<3>;
    static L l(int v) { return L(v); } static R r(int v) { return R(v, 0); }
    static int cl(int v) { return v; } static Tracked<3> cr(int v) { return Tracked<3>(v); }
    static U u(int v) { return U(v); } static V w(int v) { return V(v); }
    static int gl(const L& x) { x.check("read a dead object"); return x.v; } static int gr(const R& x) { x.check("read a dead object"); return x.v; }
    static int gu(const U& x) { x.check("read a dead object"); return x.v; } static int gv(const V& x) { x.check("read a dead object"); return x.v; }
    static constexpr bool copyable = true, tag = false, err = false;
};
static std::string str(int v) { return v == 0 ? "" : (v == 1 ? std::string(100, 'x') + std::string("\0y", 2) : "short"); }
static int unstr(const std::string& s) { for (int i = 0; i < 3; ++i) if (s == str(i)) return i; return -9; }
struct Err {   // ErrorOr over an enum
    using L = Code; using R = std::string; using U = Code; using V = const char*;
    static L l(int v) { return v == 0 ? Code::ONE : Code::TWO; } static R r(int v) { return v == 0 ? "" : std::string(100, 'x'); }
    static L cl(int v) { return l(v); }
    static const char* cs(int v) { static std::string s(100, 'x'); return v == 0 ? "" : s.c_str(); }
    static const char* cr(int v) { return cs(v); } static U u(int v) { return l(v); } static V w(int v) { return cs(v); }
    static int gl(const L& x) { return x == Code::ONE ? 0 : x == Code::TWO ? 1 : -9; } static int gr(const R& x) { return x == r(0) ? 0 : x == r(1) ? 1 : -9; }
    static int gu(const U& x) { return gl(x); } static int gv(const V& x) { return gr(x); }
    static constexpr bool copyable = true, tag = false, err = true;
};
struct Vec {   // integral error, container value
    using L = int8_t; using R = std::vector<std::string>; using U = int16_t; using V = std::vector<std::string>;
    static L l(int v) { return v == 0 ? 0 : -128; } static R r(int v) { return v == 0 ? R{} : R{str(1), str(2), ""}; }
    static L cl(int v) { return l(v); } static R cr(int v) { return r(v); }
    static U u(int v) { return l(v); } static V w(int v) { return r(v); }
    static int gl(const L& x) { return x == 0 ? 0 : x == -128 ? 1 : -9; } static int gr(const R& x) { return x == r(0) ? 0 : x == r(1) ? 1 : -9; }
    static int gu(const U& x) { return x == 0 ? 0 : x == -128 ? 1 : -9; } static int gv(const V& x) { return gr(x); }
    static constexpr bool copyable = true, tag = false, err = true;
};
struct Num {   // alternatives constructible from the same arguments: explicit tags
    using L = int16_t; using R = uint32_t; using U = int8_t; using V = uint16_t;
    static L l(int v) { return v == 0 ? 0 : -5; } static R r(int v) { return v == 0 ? 0 : 65535; }
    static int cl(int v) { return l(v); } static unsigned cr(int v) { return r(v); }
    static U u(int v) { return static_cast<U>(l(v)); } static V w(int v) { return static_cast<V>(r(v)); }
    static int gl(const L& x) { return x == 0 ? 0 : x == -5 ? 1 : -9; } static int gr(const R& x) { return x == 0 ? 0 : x == 65535 ? 1 : -9; }
    static int gu(const U& x) { return gl(x); } static int gv(const V& x) { return gr(x); }
    static constexpr bool copyable = true, tag = true, err = true;
};
struct Mov {   // move-only value
    using L = int; using R = std::unique_ptr<std::string>; using U = int; using V = std::unique_ptr<std::string>;
    static L l(int v) { return v + 10; } static R r(int v) { return std::make_unique<std::string>(str(v)); }
    static L cl(int v) { return l(v); } static R cr(int v) { return r(v); }
    static U u(int v) { return l(v); } static V w(int v) { return r(v); }
    static int gl(const L& x) { return x - 10; } static int gr(const R& x) { return x ? unstr(*x) : -8; }
    static int gu(const U& x) { return gl(x); } static int gv(const V& x) { return gr(x); }
    static constexpr bool copyable = false, tag = false, err = true;
};

template <class C> struct Run {
    using A = EitherOr<typename C::L, typename C::R>;
    using B = EitherOr<typename C::U, typename C::V>;
    static constexpr bool sameType = std::is_same<A, B>::value;
    std::unique_ptr<A> ab[2]; std::unique_ptr<B> c;
    template <class X, class FL, class FR> static std::string show(X* x, FL fl, FR fr) {
        if (!x) return "none:0";
        bool v = x->isVoid(), l = x->isLeftType(), r = x->isRightType();
        if (v + l + r != 1) return "confused";
        const X& cx = *x;
        std::string o = v ? "void:0" : l ? "L:" + std::to_string(fl(cx.left())) : "R:" + std::to_string(fr(cx.right()));
        if (l && &cx.left() != &x->left()) o += "!ref";
        if (r && &cx.right() != &x->right()) o += "!ref";
        return o;
    }
    std::string acc(A* x) {      // the free accessors agree with the container
        if constexpr (C::err) {
            if (!x) return "";
            const A& cx = *x;
            bool k = ok<typename C::L, typename C::R>(cx), h = hasValue<typename C::L, typename C::R>(cx);
            if (k == x->isLeftType()) return "!ok";
            if (h != x->isRightType()) return "!hasValue";
            if (x->isLeftType() && !(error<typename C::L, typename C::R>(cx) == cx.left())) return "!error";
            if (h && (&value<typename C::L, typename C::R>(cx) != &cx.right() || &value<typename C::L, typename C::R>(*x) != &cx.right())) return "!value";
        }
        return "";
    }
    std::string obs(const std::string& res) {
        std::string o = "a=" + show(ab[0].get(), C::gl, C::gr) + acc(ab[0].get()) + " b=" + show(ab[1].get(), C::gl, C::gr) + acc(ab[1].get())
            + " c=" + show(c.get(), C::gu, C::gv) + " res=" + res;
        if (std::is_base_of<Tracked<0>, typename C::L>::value) {
            int nl = 0, nr = 0, nu = 0, nv = 0;
            for (auto& p : ab) if (p) { nl += p->isLeftType(); nr += p->isRightType(); }
            if (c) { nu = c->isLeftType(); nv = c->isRightType(); }
            if (Tracked<0>::live != nl || Tracked<1>::live != nr || Tracked<2>::live != nu || Tracked<3>::live != nv)
                o += " live objects " + std::to_string(Tracked<0>::live) + "/" + std::to_string(Tracked<1>::live) + "/" + std::to_string(Tracked<2>::live) + "/" + std::to_string(Tracked<3>::live)
                  + " for " + std::to_string(nl) + "/" + std::to_string(nr) + "/" + std::to_string(nu) + "/" + std::to_string(nv);
        }
        if (!bad.empty()) { o += " " + bad; bad.clear(); }
        return o;
    }
    void reset() { ab[0].reset(); ab[1].reset(); c.reset(); bad.clear(); Tracked<0>::live = Tracked<1>::live = Tracked<2>::live = Tracked<3>::live = 0; }
    // generic over the two container types
    template <class X, class VL, class VR, class KL, class KR>
    void newval(std::unique_ptr<X>& p, bool left, const std::string& how, VL vl, VR vr, KL kl, KR kr, int v, bool tag) {
        if (how == "copy") {
            if constexpr (C::copyable) { if (left) { const auto x = vl(v); p.reset(new X(x)); } else { const auto x = vr(v); p.reset(new X(x)); } }
        } else if (how == "move") {
            if (left) { auto x = vl(v); p.reset(new X(std::move(x))); } else { auto x = vr(v); p.reset(new X(std::move(x))); }
        } else {
            if constexpr (C::tag) { if (left) p.reset(new X(kConstructLeft, vl(v))); else p.reset(new X(kConstructRight, vr(v))); }
            else { if (left) p.reset(new X(kl(v))); else p.reset(new X(kr(v))); }
        }
    }
    template <class X, class VL, class VR, class KL, class KR>
    void setval(X& x, bool left, const std::string& how, VL vl, VR vr, KL kl, KR kr, int v) {
        X* r = nullptr;
        if (how == "copy") {
            if constexpr (C::copyable) { if (left) { const auto y = vl(v); r = &(x = y); } else { const auto y = vr(v); r = &(x = y); } }
        } else if (how == "move") {
            if (left) { auto y = vl(v); r = &(x = std::move(y)); } else { auto y = vr(v); r = &(x = std::move(y)); }
        } else {
            if constexpr (C::tag) { if (left) r = &(x = vl(v)); else r = &(x = vr(v)); }
            else { if (left) r = &(x = kl(v)); else r = &(x = kr(v)); }
        }
        if (r != &x) flag("assignment returns another object");
    }
    template <class X> void setown(X& x, const std::string& how) {
        if (how == "copy") {
            if constexpr (C::copyable) {
                const X& cx = x;
                if (x.isLeftType()) x = cx.left(); else x = cx.right();
            }
        } else { if (x.isLeftType()) x = std::move(x.left()); else x = std::move(x.right()); }
    }
    int main() {
        auto L = [](int v) { return C::l(v); }; auto R = [](int v) { return C::r(v); };
        auto U = [](int v) { return C::u(v); }; auto V = [](int v) { return C::w(v); };
        auto KL = [](int v) { return C::cl(v); }; auto KR = [](int v) { return C::cr(v); };
        std::string line;
        while (std::getline(std::cin, line)) {
            std::istringstream is(line); std::string op, s, d, k, how, res = "-"; int v;
            is >> op;
            if (op == "reset") { reset(); std::cout << "ok" << std::endl; continue; }
            auto A_ = [&](const std::string& n) -> std::unique_ptr<A>& { return ab[n == "b"]; };
            if (op == "new") { is >> s; if (s == "c") c.reset(new B()); else A_(s).reset(new A()); }
            else if (op == "newval") { is >> s >> k >> v >> how; if (s == "c") newval(c, k == "L", how, U, V, U, V, v, false); else newval(A_(s), k == "L", how, L, R, KL, KR, v, false); }
            else if (op == "setval") { is >> s >> k >> v >> how; if (s == "c") setval(*c, k == "L", how, U, V, U, V, v); else setval(*A_(s), k == "L", how, L, R, KL, KR, v); }
            else if (op == "setown") { is >> s >> how; if (s == "c") setown(*c, how); else setown(*A_(s), how); }
            else if (op == "newfrom") {
                is >> d >> s >> how;
                if (how == "copy") { if constexpr (C::copyable) { if (s == "c") { const B& x = *c; A_(d).reset(new A(x)); } else { const A& x = *A_(s); A_(d).reset(new A(x)); } } }
                else { if (s == "c") A_(d).reset(new A(std::move(*c))); else A_(d).reset(new A(std::move(*A_(s)))); }
            } else if (op == "setfrom") {
                is >> d >> s >> how; A& t = *A_(d); A* r = nullptr;
                if (how == "copy") { if constexpr (C::copyable) { if (s == "c") { const B& x = *c; r = &(t = x); } else { const A& x = *A_(s); r = &(t = x); } } }
                else { if (s == "c") r = &(t = std::move(*c)); else r = &(t = std::move(*A_(s))); }
                if (r != &t) flag("assignment returns another object");
            } else if (op == "take") {
                is >> s >> k;
                if (s == "c") res = std::to_string(k == "L" ? C::gu(std::move(*c).left()) : C::gv(std::move(*c).right()));
                else if (k == "L") res = std::to_string(C::gl(std::move(*A_(s)).left()));
                else { if constexpr (C::err) res = std::to_string(C::gr(value<typename C::L, typename C::R>(std::move(*A_(s))))); else res = std::to_string(C::gr(std::move(*A_(s)).right())); }
            } else if (op == "write") {
                is >> s >> k >> v;
                if (s == "c") { if (k == "L") c->left() = U(v); else c->right() = V(v); }
                else { if (k == "L") A_(s)->left() = L(v); else A_(s)->right() = R(v); }
            } else if (op == "drop") { is >> s; if (s == "c") c.reset(); else A_(s).reset(); }
            std::cout << obs(res) << std::endl;
        }
        reset();
        return 0;
    }
};
int main(int, char** argv) {
    std::string c = argv[1];
    if (c == "tracked") return Run<Trk2>().main();
    if (c == "error") return Run<Err>().main();
    if (c == "vector") return Run<Vec>().main();
    if (c == "tagged") return Run<Num>().main();
    if (c == "moveonly") return Run<Mov>().main();
    return 3;
}
