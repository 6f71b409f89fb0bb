// Drives Cord / ICord for specs/cord.
#include "common/base/Base.h"
#include "common/base/Cord.h"
#include "common/base/ICord.h"
#include "drv.h"
using namespace nebula;
// blocks the cords hold (linked with --wrap=malloc,free)
#include <set>
extern "C" { void* __real_malloc(size_t); void __real_free(void*); void* __wrap_malloc(size_t); void __wrap_free(void*); }
static std::set<void*>& held() { static std::set<void*> h; return h; }
void* __wrap_malloc(size_t n) { void* p = __real_malloc(n); held().insert(p); return p; }
void __wrap_free(void* p) { held().erase(p); __real_free(p); }
static std::string blocks() { return held().empty() ? "{}" : "{\"leak\":" + std::to_string(held().size()) + "}"; }
template <class C> struct Runner {
    std::function<void(void*)> make;
    C *a = nullptr, *b = nullptr;
    C& at(const std::string& c) { return c == "a" ? *a : *b; }
    std::string obs(const C& c) {
        std::string v, ap = "x";
        c.applyTo([&](const char* p, int32_t n) { v.append(p, n); return true; });
        size_t r = c.appendTo(ap);
        return drv::Obj().bytes("str", c.str()).num("size", c.size()).boolean("empty", c.empty()).bytes("visited", v).bytes("appended", ap).num("appret", r).done();
    }
    std::string brief() {
        auto one = [&](const C& c) {
            std::string v, ap = "x"; c.applyTo([&](const char* p, int32_t n) { v.append(p, n); return true; });
            size_t r = c.appendTo(ap);
            std::string s; for (char ch : c.str()) s += std::to_string(static_cast<int>(ch));
            if (v != c.str() || c.size() != v.size() || c.empty() != v.empty() || ap != "x" + v || r != v.size()) s += "!readers disagree";
            return s;
        };
        return one(*a) + " " + one(*b);
    }
    template <class T> C& put(C& c, long long v) { T t = static_cast<T>(v); return c << t; }
    C& put(C& c, const std::string& t, long long v) {
        if (t == "i8") return put<int8_t>(c, v);
        if (t == "u8") return put<uint8_t>(c, v);
        if (t == "i16") return put<int16_t>(c, v);
        if (t == "u16") return put<uint16_t>(c, v);
        if (t == "i32") return put<int32_t>(c, v);
        if (t == "u32") return put<uint32_t>(c, v);
        if (t == "i64") return put<int64_t>(c, v);
        if (t == "u64") return put<uint64_t>(c, v);
        if (t == "char") return put<char>(c, v);
        if (t == "bool") return put<bool>(c, v);
        abort();
    }
    std::string step(const std::vector<std::string>& w, bool json) {
        C* back = nullptr;
        if (w[0] == "write") {
            auto s = drv::unhex(w[3]);
            auto how = w[2];
            C& c = at(w[1]);
            if (how == "str") back = &(c << s);
            else if (how == "cstr") back = &(c << s.c_str());
            else if (how == "f32") { float f; memcpy(&f, s.data(), 4); back = &(c << f); }
            else if (how == "f64") { double f; memcpy(&f, s.data(), 8); back = &(c << f); }
            else { std::vector<char> exact(s.begin(), s.end()); back = &c.write(exact.data(), exact.size()); }
        } else if (w[0] == "put") {
            back = &put(at(w[1]), w[2], std::stoll(w[3]));
        } else if (w[0] == "append") {
            back = &(at(w[1]) << at(w[2]));
        } else if (w[0] == "clear") {
            at(w[1]).clear();
            back = &at(w[1]);
        } else if (w[0] == "visit") {
            int k = std::stoi(w[2]), calls = 0; std::string v;
            bool r = at(w[1]).applyTo([&](const char* p, int32_t n) { ++calls; v.append(p, n); return calls != k; });
            return drv::Obj().bytes("seen", v).num("calls", calls).boolean("res", r).done();
        }
        bool same = back == &at(w[1]);
        if (!json) return brief() + (same ? "" : " wrong reference returned");
        return drv::Obj().raw("obs", drv::Obj().raw("a", obs(*a)).raw("b", obs(*b)).done()).boolean("chain", same).done();
    }
};
template <class C, class... A> static int go(bool json, A... args) {
    Runner<C> r;
    alignas(C) static char sa[sizeof(C)], sb[sizeof(C)];
    std::string left;
    auto fresh = [&] { left = "{}"; if (r.a) { r.a->~C(); r.b->~C(); left = blocks(); } r.a = ::new (static_cast<void*>(sa)) C(args...); r.b = ::new (static_cast<void*>(sb)) C(args...); };
    fresh();
    int rc = drv::loop([&](const std::vector<std::string>& w) -> std::string { if (w[0] == "reset") { fresh(); return left; } return r.step(w, json); });
    r.a->~C(); r.b->~C();
    return rc;
}
// two cords of different block sizes
static int two(bool json, int x, int y) {
    Runner<Cord> r;
    std::string left;
    auto fresh = [&] { delete r.a; delete r.b; left = blocks(); r.a = x ? new Cord(x) : new Cord(); r.b = y ? new Cord(y) : new Cord(); };
    fresh();
    int rc = drv::loop([&](const std::vector<std::string>& w) -> std::string { if (w[0] == "reset") { fresh(); return left; } return r.step(w, json); });
    delete r.a; delete r.b;
    return rc;
}
int main(int, char** v) {
    std::string k = v[1];
    bool json = std::string(v[2]) == "json";
    if (k == "cord") return two(json, std::stoi(v[3]), std::stoi(v[4]));
    int n = std::stoi(v[3]);
    if (n == 1) return go<ICord<1>>(json);
    if (n == 2) return go<ICord<2>>(json);
    if (n == 8) return go<ICord<8>>(json);
    if (n == 64) return go<ICord<64>>(json);
    return go<ICord<>>(json);
}
