// Line: <count> <completion?> ; <number of waits of thread 0> ; ...
#include "common/base/Base.h"
#include "common/concurrent/Barrier.h"
#include "conc.h"
using nebula::concurrent::Barrier;
int main(int argc, char** argv) {
    sched::Options o; o.deviations = atoi(argv[1]); o.maxRuns = atoi(argv[2]); o.randomRuns = atoi(argv[3]); o.seed = atoll(argv[4]);
    std::string line;
    while (std::getline(std::cin, line)) {
        auto parts = conc::cut(line, ';');
        auto hd = conc::words(parts[0]);
        size_t n = std::stoull(hd[0]); bool comp = hd[1] == "1";
        std::vector<int> waits; int total = 0; for (size_t i = 1; i < parts.size(); ++i) { waits.push_back(std::stoi(parts[i])); total += waits.back(); }
        conc::Log log; Barrier* bar = nullptr;
        auto exec = [&](int k) { for (int i = 0; i < k; ++i) { log.call("wait"); std::string res = "ok"; try { bar->wait(); } catch (...) { res = "other"; } log.ret(res); } };
        auto evt = [&](const char* w) { log.add(std::string("{\"op\":\"") + w + "\",\"t\":" + std::to_string(sched::self()) + "}"); };
        sched::Program p;
        p.bodies = [&] {
            log.ev.clear(); bar = nullptr;
            std::string res = "ok";
            try {
                if (comp) bar = new Barrier(n, [&] { evt("begin"); sched::point(); evt("end"); }); else bar = new Barrier(n);
            } catch (const std::invalid_argument&) { res = "invalid"; } catch (...) { res = "other"; }
            log.add("{\"op\":\"new\",\"n\":" + std::to_string(std::min<size_t>(n, 1000)) + ",\"comp\":" + (comp ? "true" : "false") + ",\"res\":\"" + res + "\"}");
            std::vector<std::function<void()>> b;
            if (bar) { sched::watch(bar, sizeof *bar); for (int k : waits) b.push_back([&exec, k] { exec(k); }); }
            return b;
        };
        // one more participant at a time while somebody is left waiting
        p.held = [&] { std::vector<std::function<void()>> b; if (bar && n < 10) for (size_t i = 0; i < 7; ++i) b.push_back([&exec] { if (sched::blockedCount()) exec(1); }); return b; };
        p.quiet = [&](const std::vector<int>& b) { log.quiet(b); };
        p.done = [&](bool stuck) { if (stuck) log.stuck(); else delete bar; conc::emit(log); };
        auto r = sched::explore(p, o);
        conc::stats(line, r);
        
    }
    std::cout.flush();
    _exit(0);
}
