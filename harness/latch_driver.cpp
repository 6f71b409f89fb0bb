// Line: <count> ; <ops of thread 0> ; <ops of thread 1> ; ...   Options: argv
#include "common/base/Base.h"
#include "common/concurrent/Latch.h"
#include "conc.h"
using nebula::concurrent::Latch;
int main(int argc, char** argv) {
    sched::Options o; o.deviations = atoi(argv[1]); o.maxRuns = atoi(argv[2]); o.randomRuns = atoi(argv[3]); o.seed = atoll(argv[4]);
    std::string line;
    while (std::getline(std::cin, line)) {
        auto parts = conc::cut(line, ';');
        size_t n = std::stoull(parts[0]);
        conc::Prog pr; for (size_t i = 1; i < parts.size(); ++i) pr.push_back(conc::words(parts[i]));
        conc::Log log; Latch* latch = nullptr;
        auto exec = [&](const std::vector<std::string>& ops) {
            for (auto& f : ops) {
                log.call(f);
                std::string res = "ok";
                try {
                    if (f == "down") latch->down();
                    else if (f == "wait") latch->wait();
                    else if (f == "downWait") latch->downWait();
                    else res = latch->isReady() ? "true" : "false";
                } catch (const std::runtime_error&) { res = "error"; } catch (...) { res = "other"; }
                log.ret(res);
            }
        };
        sched::Program p;
        p.bodies = [&] {
            log.ev.clear(); latch = nullptr;
            std::string res = "ok";
            try { latch = new Latch(n); } catch (const std::invalid_argument&) { res = "invalid"; } catch (...) { res = "other"; }
            log.add("{\"op\":\"new\",\"n\":" + std::to_string(std::min<size_t>(n, 1000)) + ",\"res\":\"" + res + "\"}");
            std::vector<std::function<void()>> b;
            if (latch) { sched::watch(latch, sizeof *latch); for (auto& ops : pr) b.push_back([&exec, ops] { exec(ops); }); }
            return b;
        };
        // when everybody left is blocked, somebody counts the latch down
        p.held = [&] { std::vector<std::function<void()>> b; if (latch && n < 10) for (size_t i = 0; i < n; ++i) b.push_back([&exec] { exec({"down"}); }); if (latch) b.push_back([&exec] { exec({"isReady", "isReady"}); }); return b; };
        p.quiet = [&](const std::vector<int>& b) { log.quiet(b); };
        p.done = [&](bool stuck) { if (stuck) log.stuck(); else delete latch; conc::emit(log); };
        auto r = sched::explore(p, o);
        conc::stats(line, r);
    }
    std::cout.flush();
    _exit(0);
}
