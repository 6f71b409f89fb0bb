// Line: <capacity> <exp> ; <ops of thread 0> ; ...   an op is f:key:val:hint
#include "common/base/Base.h"
#include "common/base/ConcurrentLRUCache.h"
#include "conc.h"
using namespace nebula;
// what the cache allocates while it is built lies in one range, to be watched
static char arena[1 << 16]; static size_t used; static bool inArena;
void* operator new(size_t n) { if (inArena && used + n + 32 < sizeof arena) { void* p = arena + used; used += (n + 31) / 16 * 16; return p; } void* p = malloc(n ? n : 1); if (!p) throw std::bad_alloc(); return p; }
void operator delete(void* p) noexcept { if (p < arena || p >= arena + sizeof arena) free(p); }
void operator delete(void* p, size_t) noexcept { operator delete(p); }
using Cache = ConcurrentLRUCache<int, int>;
int main(int, char** argv) {
    sched::Options o; o.deviations = atoi(argv[1]); o.maxRuns = atoi(argv[2]); o.randomRuns = atoi(argv[3]); o.seed = atoll(argv[4]);
    std::string line;
    while (std::getline(std::cin, line)) {
        auto parts = conc::cut(line, ';');
        auto hd = conc::words(parts[0]);
        conc::Prog pr; for (size_t i = 1; i < parts.size(); ++i) pr.push_back(conc::words(parts[i]));
        conc::Log log; Cache* c = nullptr; int nb = 1 << stoi(hd[1]);
        auto exec = [&](const std::vector<std::string>& ops) {
            for (auto& s : ops) {
                auto a = conc::cut(s, ':'); auto f = a[0]; int k = a.size() > 1 ? stoi(a[1]) : 0, v = a.size() > 2 ? stoi(a[2]) : 0, h = a.size() > 3 ? stoi(a[3]) : -1;
                log.call(f, ",\"k\":" + std::to_string(k) + ",\"v\":" + std::to_string(v) + ",\"h\":" + std::to_string(h));
                std::string res = "-";
                auto show = [](StatusOr<int> r) -> std::string { if (r.ok()) return "v" + std::to_string(r.value()); return r.status() == Status::Inserted() ? "inserted" : "none"; };
                if (f == "insert") c->insert(k, v, h);
                else if (f == "putif") res = show(c->putIfAbsent(k, v, h));
                else if (f == "get") res = show(c->get(k, h));
                else if (f == "contains") res = c->contains(k, h) ? "yes" : "no";
                else if (f == "evict") c->evict(k, h);
                else if (f == "clear") c->clear();
                else if (f == "total") res = std::to_string(c->total());
                else if (f == "hits") res = std::to_string(c->hits());
                else if (f == "evicts") res = std::to_string(c->evicts());
                log.ret(res);
            }
        };
        sched::Program p;
        p.bodies = [&] {
            log.ev.clear(); used = 0;
            inArena = true; c = new Cache(stoi(hd[0]), stoi(hd[1])); inArena = false;
            log.add("{\"op\":\"new\",\"cap\":" + hd[0] + ",\"n\":" + std::to_string(nb) + "}");
            sched::watch(arena, sizeof arena);
            std::vector<std::function<void()>> b;
            for (auto& ops : pr) b.push_back([&exec, ops] { exec(ops); });
            return b;
        };
        // afterwards: everything once more, one after the other
        p.held = [&] { std::vector<std::function<void()>> b; b.push_back([&exec, nb] { std::vector<std::string> t; for (int k = 0; k < 4; ++k) for (int h = 0; h < nb; ++h) t.push_back("get:" + std::to_string(k) + ":0:" + std::to_string(h)); t.push_back("total"); t.push_back("hits"); t.push_back("evicts"); exec(t); }); return b; };
        p.quiet = [&](const std::vector<int>& b) { log.quiet(b); };
        p.done = [&](bool stuck) { sched::unwatch(); if (stuck) log.stuck(); else delete c; conc::emit(log); };
        auto r = sched::explore(p, o);
        conc::stats(line, r);
    }
    std::cout.flush();
    _exit(0);
}
