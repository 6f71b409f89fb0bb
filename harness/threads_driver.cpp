// Line driver for named threads: workers run what the main thread tells them, in lock step.
#include "common/base/Base.h"
#include "common/thread/NamedThread.h"
#include "drv.h"
#include <condition_variable>
using nebula::thread::NamedThread;
using Nom = NamedThread::Nominator;
struct Worker {
    std::mutex m; std::condition_variable cv; std::function<void()> job; bool stop = false, started = false;
    std::vector<std::unique_ptr<Nom>> noms; std::string info, argA; int argB = 0; std::shared_ptr<int> argC; std::atomic<bool> ended{false};
    void run() {
        std::unique_lock<std::mutex> g(m); started = true; cv.notify_all();
        while (true) { cv.wait(g, [&] { return job || stop; }); if (job) { job(); job = nullptr; cv.notify_all(); } else break; }
        while (!noms.empty()) noms.pop_back();
        ended = true;
    }
    void begin(const std::string& a, int& b, std::shared_ptr<int> c) { argA = a; argB = ++b; argC = c; run(); }
    void ask(std::function<void()> f) { std::unique_lock<std::mutex> g(m); cv.wait(g, [&] { return started; }); job = std::move(f); cv.notify_all(); cv.wait(g, [&] { return !job; }); }
    void quit() { std::unique_lock<std::mutex> g(m); stop = true; cv.notify_all(); }
};
static std::string inside(int t) {
    char b[64] = {0}; prctl(PR_GET_NAME, b, 0, 0, 0); std::string got; Nom::get(got);
    return drv::Obj().num("t", t).bytes("name", b).bytes("got", got).num("id", nebula::thread::gettid()).num("id2", nebula::thread::gettid()).num("real", syscall(SYS_gettid)).done();
}
int main() {
    std::map<int, std::unique_ptr<Worker>> ws; std::map<int, NamedThread> th; std::vector<std::unique_ptr<Nom>> noms;
    auto on = [&](int t, std::function<void()> f) { if (t == 0) f(); else ws.at(t)->ask(f); };
    auto stopAll = [&] { for (auto& w : ws) w.second->quit(); for (auto& t : th) if (t.second.joinable()) t.second.join(); ws.clear(); th.clear(); while (!noms.empty()) noms.pop_back(); };
    int rc = drv::loop([&](const std::vector<std::string>& w) -> std::string {
        auto& f = w[0]; drv::Obj o;
        if (f == "reset") { stopAll(); return "{}"; }
        int t = w.size() > 1 ? std::stoi(w[1]) : 0; std::string name = w.size() > 2 ? drv::unhex(w[2]) : "";
        if (f == "start") { prctl(PR_SET_NAME, name.c_str(), 0, 0, 0); }
        else if (f == "spawn") {
            auto* k = (ws[t] = std::make_unique<Worker>()).get(); std::string a = "argument of " + std::to_string(t); int b = t; auto c = std::make_shared<int>(t);
            if (t % 3 == 0) { th[t] = NamedThread(name, &Worker::begin, k, a, std::ref(b), c); k->ask([] {}); o.boolean("args", k->argA == a && b == t + 1 && k->argB == b && k->argC == c && c.use_count() >= 2); }
            else if (t % 3 == 1) { NamedThread n(name, [k] { k->run(); }); NamedThread n2(std::move(n)); th[t] = std::move(n2); k->ask([] {}); o.boolean("args", !n.joinable() && !n2.joinable() && th[t].joinable()); }
            else { th[t] = NamedThread(name, &Worker::run, k); k->ask([] {}); o.boolean("args", true); }
        }
        else if (f == "set") on(t, [&] { Nom::set(name); });
        else if (f == "push") on(t, [&] { (t ? ws.at(t)->noms : noms).push_back(std::make_unique<Nom>(name)); });
        else if (f == "pop") on(t, [&] { auto& v = t ? ws.at(t)->noms : noms; if (!v.empty()) v.pop_back(); });
        else if (f == "move") { NamedThread n = std::move(th[t]); o.boolean("left", th[t].joinable()).boolean("right", n.joinable()); th[t] = std::move(n); }
        else if (f == "join") { ws.at(t)->quit(); th.at(t).join(); o.boolean("ended", ws.at(t)->ended); ws.erase(t); th.erase(t); }
        std::string all = inside(0);
        for (auto& x : ws) { std::string s; x.second->ask([&] { s = inside(x.first); }); all += "," + s; }
        return o.raw("all", "[" + all + "]").done();
    });
    stopAll();
    return rc;
}
