// Line driver: one cache, operations one after the other.
#include "common/base/Base.h"
#include "common/base/ConcurrentLRUCache.h"
#include "drv.h"
using namespace nebula;
struct Val {      // counts its live objects
    static long live; int v; std::string pad;
    explicit Val(int x) : v(x), pad(40, 'p') { ++live; }
    Val(const Val& o) : v(o.v), pad(o.pad) { ++live; }
    Val(Val&& o) noexcept : v(o.v), pad(std::move(o.pad)) { o.v = -99; ++live; }
    Val& operator=(const Val& o) { v = o.v; pad = o.pad; return *this; }
    Val& operator=(Val&& o) noexcept { if (this != &o) { v = o.v; pad = std::move(o.pad); o.v = -99; } return *this; }
    ~Val() { --live; }
};
long Val::live = 0;
template <class K> K key(int k);
template <> int key<int>(int k) { return k; }
template <> std::string key<std::string>(int k) { return "a key long enough for the heap " + std::to_string(k); }
template <class V> struct Conv { static V make(int v) { return V(v); } static int get(const V& v) { return v; } };
template <> struct Conv<Val> { static Val make(int v) { return Val(v); } static int get(const Val& v) { return v.pad == std::string(40, 'p') ? v.v : -77; } };
template <> struct Conv<std::string> { static std::string make(int v) { return std::string(50, 'v') + std::to_string(v); } static int get(const std::string& v) { return v.size() > 50 ? std::stoi(v.substr(50)) : -77; } };
template <class K, class V> int go(size_t cap, uint32_t exp) {
    std::unique_ptr<ConcurrentLRUCache<K, V>> c;
    uint64_t t = 0, h = 0, e = 0;
    return drv::loop([&](const std::vector<std::string>& w) -> std::string {
        auto& f = w[0];
        if (f == "reset") { c.reset(); if (Val::live != 0) return "leak"; c.reset(new ConcurrentLRUCache<K, V>(cap, exp)); t = h = e = 0; return "{}"; }
        int k = w.size() > 1 ? stoi(w[1]) : 0, v = w.size() > 2 ? stoi(w[2]) : 0; int32_t hint = w.size() > 3 ? stoi(w[3]) : -1;
        K kk = key<K>(k);
        std::string res = "-";
        auto show = [](StatusOr<V> r) -> std::string {
            if (r.ok()) return "v" + std::to_string(Conv<V>::get(r.value()));
            if (r.status() == Status::Inserted()) return "inserted";
            return "none";
        };
        bool nohint = hint == -1;
        if (f == "insert") { if (nohint) c->insert(kk, Conv<V>::make(v)); else c->insert(kk, Conv<V>::make(v), hint); }
        else if (f == "putif") { if (nohint) res = show(c->putIfAbsent(kk, Conv<V>::make(v))); else res = show(c->putIfAbsent(kk, Conv<V>::make(v), hint)); }
        else if (f == "get") res = show(nohint ? c->get(kk) : c->get(kk, hint));
        else if (f == "contains") res = (nohint ? c->contains(kk) : c->contains(kk, hint)) ? "yes" : "no";
        else if (f == "evict") { if (nohint) c->evict(kk); else c->evict(kk, hint); }
        else if (f == "clear") { c->clear(); t = h = e = 0; }
        std::string o = res + " " + std::to_string(int64_t(c->total() - t)) + " " + std::to_string(int64_t(c->hits() - h)) + " " + std::to_string(int64_t(c->evicts() - e));
        t = c->total(); h = c->hits(); e = c->evicts();
        // what is cached, seen through every hint (none of this moves anything)
        for (int i = 0; i < (1 << exp); ++i) { o += " "; for (int q = 0; q < 6; ++q) if (c->contains(key<K>(q), i)) o += std::to_string(q); }
        if (std::is_same<V, Val>::value) o += " " + std::to_string(Val::live);
        return o;
    });
}
int main(int, char** argv) {
    std::string kind = argv[1]; size_t cap = atoi(argv[2]); uint32_t exp = atoi(argv[3]);
    if (kind == "int") return go<int, int>(cap, exp);
    if (kind == "tracked") return go<int, Val>(cap, exp);
    if (kind == "strings") return go<std::string, std::string>(cap, exp);
    return go<std::string, Val>(cap, exp);
}
