// Line: W|P ; <ops of thread 0> ; <ops of thread 1> ; ...
// Ops: start[:n] stop wait destroy go join sleep:ms add:k:kind delay:k:ms:kind rep:k:ms:kind purge:k get:k
// Kinds: v void, r value, x void throwing, y value throwing, n void throwing an int, z<ms> takes a while,
//        s=op+op: does these operations (their parts separated by commas)
#include "common/base/Base.h"
#include "common/thread/GenericThreadPool.h"
#include "common/thread/GenericWorker.h"
#include "conc.h"
#include "evfake.h"
using nebula::thread::GenericThreadPool; using nebula::thread::GenericWorker;
struct Boom : std::runtime_error { int k; explicit Boom(int n) : std::runtime_error("boom " + std::to_string(n)), k(n) {} };
struct Fut { bool isVal = false; std::shared_ptr<folly::SemiFuture<folly::Unit>> u; std::shared_ptr<folly::SemiFuture<std::string>> s; };
static conc::Log lg;
static GenericWorker* wk; static GenericThreadPool* pl; static bool isPool;
static std::map<int, Fut> futs; static std::map<int, uint64_t> ids; static std::map<int, int> left;
static std::mutex* hm; static std::condition_variable* hcv; static bool gone; static int running;
static std::string num(const char* k, int64_t v) { return std::string(",\"") + k + "\":" + std::to_string(v); }
static std::string nowj() { return num("now", evfake::now()); }
static void op(const std::string& s, char sep);
static void doTask(int k, const std::string& kind, const std::string& a, int& b, int k2) {
    lg.add("{\"op\":\"begin\"" + num("t", sched::self()) + num("k", k) + nowj() + ",\"args\":" + (a == "arg" + std::to_string(k) && b >= 100 + k && k2 == k ? "true" : "false") + "}");
    ++b;
    if (kind[0] == 'z') evfake::sleepUntil(evfake::now() + 1000 * std::stoll(kind.substr(1)));
    if (kind[0] == 's') for (auto& x : conc::cut(kind.substr(2), '+')) op(x, ',');
    lg.add("{\"op\":\"end\"" + num("t", sched::self()) + num("k", k) + nowj() + "}");
    if (kind[0] == 'x' || kind[0] == 'y') throw Boom(k);
    if (kind[0] == 'n') throw 7 + k;
}
static std::map<int, int> bs;
template <class O> static void submit(O* o, const std::vector<std::string>& a) {
    auto f = a[0]; int k = std::stoi(a[1]); int ms = f == "add" ? 0 : std::stoi(a[2]); std::string kind = a[f == "add" ? 2 : 3]; for (size_t i = f == "add" ? 3 : 4; i < a.size(); ++i) kind += "," + a[i];
    bs[k] = 100 + k; std::string s = "arg" + std::to_string(k);
    auto vf = [k, kind](const std::string& x, int& b, std::shared_ptr<int> c) { doTask(k, kind, x, b, *c); };
    auto rf = [k, kind](const std::string& x, int& b, std::shared_ptr<int> c) -> std::string { doTask(k, kind, x, b, *c); return "result" + std::to_string(k); };
    auto sp = std::make_shared<int>(k); Fut fu; fu.isVal = kind[0] == 'r' || kind[0] == 'y';
    if (f == "rep") { ids[k] = o->addRepeatTask(ms, vf, s, std::ref(bs[k]), sp); return; }
    if (f == "add") { if (fu.isVal) fu.s = std::make_shared<folly::SemiFuture<std::string>>(o->addTask(rf, s, std::ref(bs[k]), sp)); else fu.u = std::make_shared<folly::SemiFuture<folly::Unit>>(o->addTask(vf, s, std::ref(bs[k]), sp)); }
    else { if (fu.isVal) fu.s = std::make_shared<folly::SemiFuture<std::string>>(o->addDelayTask(ms, rf, s, std::ref(bs[k]), sp)); else fu.u = std::make_shared<folly::SemiFuture<folly::Unit>>(o->addDelayTask(ms, vf, s, std::ref(bs[k]), sp)); }
    futs[k] = fu;
}
static std::string outcome(int k) {
    auto& f = futs.at(k);
    try { if (f.isVal) { f.s->wait(); return std::move(f.s->value()); } f.u->wait(); f.u->value(); return "unit"; }
    catch (const Boom& b) { return "boom" + std::to_string(b.k); }
    catch (int n) { return "int" + std::to_string(n - 7); }
    catch (const folly::BrokenPromise&) { return "broken"; }
    catch (const std::exception& e) { return std::string("exception ") + typeid(e).name(); }
}
static void op(const std::string& str, char sep) {
    auto a = conc::cut(str, sep); auto& f = a[0];
    if (f == "go") { std::lock_guard<std::mutex> g(*hm); gone = true; hcv->notify_all(); return; }
    if (f == "join") { std::unique_lock<std::mutex> g(*hm); hcv->wait(g, [] { return running == 0; }); return; }
    if (f == "sleep") { evfake::sleepUntil(evfake::now() + 1000 * std::stoll(a[1])); return; }
    if (f == "get") { int k = std::stoi(a[1]); auto r = outcome(k); lg.add("{\"op\":\"fut\"" + num("k", k) + ",\"res\":\"" + r + "\"}"); return; }
    std::string kk = f == "add" ? a[2] : f == "delay" || f == "rep" ? a[3] : "-";
    int k = a.size() > 1 && f != "start" ? std::stoi(a[1]) : 0;
    lg.call(f, num("k", k) + num("ms", f == "delay" || f == "rep" ? std::stoi(a[2]) : 0) + num("n", f == "start" && isPool ? std::stoi(a[1]) : 1) + nowj() + ",\"kind\":\"" + kk[0] + "\"");
    std::string res = "-"; auto yes = [](bool b) { return std::string(b ? "yes" : "no"); };
    if (f == "start") { res = yes(isPool ? pl->start(std::stoi(a[1]), "pool") : wk->start("worker")); }
    else if (f == "stop") res = yes(isPool ? pl->stop() : wk->stop());
    else if (f == "wait") res = yes(isPool ? pl->wait() : wk->wait());
    else if (f == "destroy") { if (isPool) { delete pl; pl = nullptr; } else { delete wk; wk = nullptr; } }
    else if (f == "purge") { if (isPool) pl->purgeTimerTask(ids.at(k)); else wk->purgeTimerTask(ids.at(k)); }
    else { if (isPool) submit(pl, a); else submit(wk, a); if (f == "rep") res = std::to_string(ids[k]); }
    lg.ret(res, nowj());
}
int main(int, char** argv) {
    sched::Options o; o.deviations = atoi(argv[1]); o.maxRuns = atoi(argv[2]); o.randomRuns = atoi(argv[3]); o.seed = atoll(argv[4]); o.spurious = 0; o.timeouts = 1;
    evfake::hooks().idle = [] { lg.add("{\"op\":\"idle\"" + num("t", sched::self()) + nowj() + "}"); };
    evfake::hooks().tick = [](int64_t now, const std::vector<int>& idle) { std::string s; for (int i : idle) s += (s.empty() ? "" : ",") + std::to_string(i); lg.add("{\"op\":\"tick\",\"now\":" + std::to_string(now) + ",\"idle\":[" + s + "]}"); };
    std::string line;
    while (std::getline(std::cin, line)) {
        auto parts = conc::cut(line, ';'); isPool = conc::words(parts[0])[0] == "P";
        conc::Prog pr; for (size_t i = 1; i < parts.size(); ++i) pr.push_back(conc::words(parts[i]));
        sched::Program p;
        p.bodies = [&] {
            lg.ev.clear(); evfake::reset(); futs.clear(); ids.clear(); bs.clear(); hm = new std::mutex; hcv = new std::condition_variable; gone = false; running = static_cast<int>(pr.size()) - 1;
            for (int k = 1; k < 40; ++k) bs[k] = 0;
            wk = nullptr; pl = nullptr;
            if (isPool) { pl = new GenericThreadPool; sched::watch(pl, sizeof *pl); } else { wk = new GenericWorker; sched::watch(wk, sizeof *wk); }
            lg.add(std::string("{\"op\":\"new\",\"pool\":") + (isPool ? "true" : "false") + "}");
            std::vector<std::function<void()>> b;
            for (size_t i = 0; i < pr.size(); ++i) b.push_back([&pr, i] {
                if (i) { std::unique_lock<std::mutex> g(*hm); hcv->wait(g, [] { return gone; }); }
                for (auto& s : pr[i]) op(s, ':');
                if (i) { std::lock_guard<std::mutex> g(*hm); --running; hcv->notify_all(); }
            });
            return b;
        };
        p.quiet = [&](const std::vector<int>& b) { lg.quiet(b); };
        p.done = [&](bool stuck) { sched::unwatch(); if (stuck) lg.stuck(); conc::emit(lg); };
        auto r = sched::explore(p, o);
        conc::stats(line, r);
    }
    std::cout.flush();
    _exit(0);
}
