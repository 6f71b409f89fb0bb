// Line: <ops of thread 0> ; <ops of thread 1> ; ...   an op is f:obj
#include "common/base/Base.h"
#include "conc.h"
#include <mutex>
static thread_local std::vector<int> dead;      // what this thread destroyed in the running operation
static std::multiset<int> alive;
struct Dead { static void note(int id, bool sane) { auto it = alive.find(id); if (it != alive.end()) alive.erase(it); else id = -id; dead.push_back(sane ? id : 100000 + id); } };
namespace nebula { class Expression { public: int id; explicit Expression(int i) : id(i) { alive.insert(i); } ~Expression() { Dead::note(id, true); } std::string toString() const { return "e"; } }; }
#include "common/base/ObjectPool.h"
using nebula::ObjectPool;
struct Small { int id; explicit Small(int i) : id(i) { alive.insert(i); } ~Small() { Dead::note(id, true); } };
struct Big { std::string s; int id; std::vector<int> v; Big(int i, std::string x) : s(std::move(x)), id(i), v(100, i) { alive.insert(i); } ~Big() { Dead::note(id, v.size() == 100 && v[99] == id && s == "big"); } };
struct Base { virtual ~Base() {} int a = 1; };
struct Other { virtual ~Other() {} int b = 2; };
struct Derived : Other, Base { int id; explicit Derived(int i) : id(i) { alive.insert(i); } ~Derived() override { Dead::note(id, a == 1 && b == 2); } };
struct Thrower { explicit Thrower(int) { throw std::runtime_error("no"); } };
int main(int, char** argv) {
    sched::Options o; o.deviations = atoi(argv[1]); o.maxRuns = atoi(argv[2]); o.randomRuns = atoi(argv[3]); o.seed = atoll(argv[4]);
    std::string line;
    while (std::getline(std::cin, line)) {
        conc::Prog pr; for (auto& s : conc::cut(line, ';')) pr.push_back(conc::words(s));
        conc::Log log; ObjectPool* pool = nullptr;
        auto ids = [](const std::vector<int>& v) { std::string s = "["; for (int x : v) s += (s.size() > 1 ? "," : "") + std::to_string(x); return s + "]"; };
        auto exec = [&](const std::vector<std::string>& ops) {
            for (auto& s : ops) {
                auto a = conc::cut(s, ':'); auto f = a[0]; int id = a.size() > 1 ? stoi(a[1]) : 0;
                dead.clear();
                log.call(f, ",\"o\":" + std::to_string(id));
                std::string res = "ok";
                auto own = [&](auto* given, auto* got) { res = static_cast<void*>(given) == static_cast<void*>(got) ? "same" : "other"; };
                if (f == "add") switch (id % 4) {
                    case 0: { auto* p = new Small(id); auto* q = pool->add(p); own(p, q); break; }
                    case 1: { auto* p = new Big(id, "big"); auto* q = pool->add(p); own(p, q); break; }
                    case 2: { auto* p = new Derived(id); auto* q = pool->add(static_cast<Base*>(p)); own(static_cast<Base*>(p), q); break; }
                    case 3: { auto* p = new nebula::Expression(id); auto* q = pool->add(p); own(p, q); break; }
                }
                else if (f == "make") { if (id % 2) { auto* p = pool->makeAndAdd<Big>(id, "big"); own(p, p); } else { auto* p = pool->makeAndAdd<Derived>(id); own(p, p); } }
                else if (f == "throw") { try { pool->makeAndAdd<Thrower>(id); res = "ok"; } catch (const std::runtime_error&) { res = "thrown"; } }
                else if (f == "clear") pool->clear();
                else if (f == "empty") res = pool->empty() ? "true" : "false";
                log.ret(res, ",\"dead\":" + ids(dead));
            }
        };
        sched::Program p;
        p.bodies = [&] {
            log.ev.clear(); alive.clear(); pool = new ObjectPool();
            sched::watch(pool, sizeof *pool);
            std::vector<std::function<void()>> b;
            for (auto& ops : pr) b.push_back([&exec, ops] { exec(ops); });
            return b;
        };
        p.held = [&] { std::vector<std::function<void()>> b; b.push_back([&exec] { exec({"empty"}); }); return b; };
        p.quiet = [&](const std::vector<int>& b) { log.quiet(b); };
        p.done = [&](bool stuck) {
            sched::unwatch();
            if (stuck) log.stuck();
            else {
                log.add("{\"op\":\"live\",\"o\":" + ids(std::vector<int>(alive.begin(), alive.end())) + "}");
                dead.clear(); delete pool;
                log.add("{\"op\":\"drop\",\"dead\":" + ids(dead) + "}");
            }
            conc::emit(log);
        };
        auto r = sched::explore(p, o);
        conc::stats(line, r);
    }
    std::cout.flush();
    _exit(0);
}
