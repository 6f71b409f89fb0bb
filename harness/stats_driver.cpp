// StatsManager over a clock that the script moves.
#include "common/base/Base.h"
#include "common/stats/StatsManager.h"
#include <folly/dynamic.h>
static int64_t gNow = 0;
namespace nebula { namespace time {
int64_t WallClock::slowNowInSec() { return gNow; }
int64_t WallClock::fastNowInSec() { return gNow; }
int64_t WallClock::slowNowInMilliSec() { return gNow * 1000; }
int64_t WallClock::fastNowInMilliSec() { return gNow * 1000; }
int64_t WallClock::slowNowInMicroSec() { return gNow * 1000000; }
int64_t WallClock::fastNowInMicroSec() { return gNow * 1000000; }
} }
using nebula::stats::CounterId; using nebula::stats::StatsManager;
using VT = int64_t;
static StatsManager::TimeRange range(const std::string& s) { return static_cast<StatsManager::TimeRange>(s == "5" ? 0 : s == "60" ? 1 : s == "600" ? 2 : 3); }
static StatsManager::StatsMethod method(const std::string& s) { using M = StatsManager::StatsMethod; return s == "sum" ? M::SUM : s == "count" ? M::COUNT : s == "avg" ? M::AVG : M::RATE; }
#ifndef VF_CONC
#include "drv.h"
static std::string res(nebula::StatusOr<VT> s) { drv::Obj o; o.boolean("ok", s.ok()); o.num("v", s.ok() ? s.value() : 0); return o.done(); }
int main() {
    std::map<int, CounterId> ids;
    return drv::loop([&](const std::vector<std::string>& w) -> std::string {
        auto f = w[0]; drv::Obj o;
        auto named = [&](size_t i) { return drv::unhex(w[i]); };
        if (f == "at") { gNow = std::stoll(w[1]); return o.done(); }
        if (f == "reg" || f == "histo") {
            // the name's text ends where the piece says
            auto n = named(1); auto buf = n + "!!"; folly::StringPiece p(buf.data(), n.size());
            CounterId id;
            if (f == "reg") id = StatsManager::registerStats(p, named(2));
            else id = StatsManager::registerHisto(p, std::stoll(w[3]), std::stoll(w[4]), std::stoll(w[5]), named(2));
            ids.emplace(id.index(), id);
            return o.num("id", id.index()).boolean("valid", id.valid()).done();
        }
        if (f == "add") { CounterId id(std::stoi(w[1])); if (w.size() > 2) StatsManager::addValue(id, std::stoll(w[2])); else StatsManager::addValue(id); return o.done(); }
        if (f == "read") {
            auto n = named(1);
            std::unique_ptr<char[]> exact(new char[n.size() + 1]); memcpy(exact.get(), n.c_str(), n.size() + 1);
            return res(StatsManager::readValue(folly::StringPiece(exact.get(), n.size())));
        }
        if (f == "stat") return res(StatsManager::readStats(CounterId(std::stoi(w[1])), range(w[2]), method(w[3])));
        if (f == "statn") return res(StatsManager::readStats(named(1), range(w[2]), method(w[3])));
        if (f == "pct") return res(StatsManager::readHisto(CounterId(std::stoi(w[1])), range(w[2]), std::stod(w[3]) / 1e4));
        if (f == "pctn") return res(StatsManager::readHisto(named(1), range(w[2]), std::stod(w[3]) / 1e4));
        if (f == "all") {
            folly::dynamic v = folly::dynamic::array("before");
            StatsManager::readAllValue(v);
            std::string s = "[";
            bool kept = v.size() > 0 && v[0].isString() && v[0].getString() == "before";
            for (size_t i = 1; i < v.size(); i++) for (auto& kv : v[i].items()) s += (s.size() > 1 ? "," : "") + drv::Obj().bytes("k", kv.first.asString()).num("v", kv.second.asInt()).num("n", v[i].size()).done();
            return o.boolean("kept", kept).raw("all", s + "]").done();
        }
        return "{}";
    });
}
#else
#include "conc.h"
// Line: <ops of thread 0> ; <ops of thread 1> ...   add:ID:VALUE  sum:ID  count:ID  named:ID
int main(int, char** argv) {
    sched::Options o; o.deviations = atoi(argv[1]); o.maxRuns = atoi(argv[2]); o.randomRuns = atoi(argv[3]); o.seed = atoll(argv[4]);
    std::string line;
    gNow = 1000000;
    while (std::getline(std::cin, line)) {
        conc::Prog pr; for (auto& s : conc::cut(line, ';')) pr.push_back(conc::words(s));
        conc::Log log; int a = 0, b = 0; std::string na, nb; static int serial = 0;
        auto exec = [&](const std::vector<std::string>& ops) {
            for (auto& s : ops) {
                auto p = conc::cut(s, ':'); auto f = p[0]; bool first = p[1] == "1"; CounterId id(first ? a : b); VT x = p.size() > 2 ? std::stoll(p[2]) : 0;
                log.call(f, ",\"c\":" + p[1] + ",\"x\":" + std::to_string(x));
                VT r = 0; bool ok = true; using M = StatsManager::StatsMethod; using R = StatsManager::TimeRange;
                auto put = [&](nebula::StatusOr<VT> v) { ok = v.ok(); if (ok) r = v.value(); };
                if (f == "add") StatsManager::addValue(id, x);
                else if (f == "sum") put(StatsManager::readStats(id, R::TEN_MINUTES, M::SUM));
                else if (f == "count") put(StatsManager::readStats(first ? na : nb, R::ONE_HOUR, M::COUNT));
                else if (f == "most") put(StatsManager::readValue((first ? na : nb) + ".p9999.60"));
                log.ret(ok ? "ok" : "error", ",\"v\":" + std::to_string(r / (f == "most" ? 1000000 : 1)));
            }
        };
        sched::Program p;
        p.bodies = [&] {
            log.ev.clear(); serial++;
            na = "a" + std::to_string(serial); nb = "b" + std::to_string(serial);
            { CounterId i = StatsManager::registerStats(na, "sum"); a = i.index(); CounterId j = StatsManager::registerHisto(nb, 1, 0, 1000, "sum"); b = j.index(); }
            std::vector<std::function<void()>> v;
            for (auto& ops : pr) v.push_back([&exec, ops] { exec(ops); });
            return v;
        };
        p.held = [&] { std::vector<std::function<void()>> v; v.push_back([&exec] { exec({"sum:1", "count:1", "sum:2", "count:2"}); }); return v; };
        p.quiet = [&](const std::vector<int>& bl) { log.quiet(bl); };
        p.done = [&](bool stuck) { if (stuck) log.stuck(); conc::emit(log); };
        auto r = sched::explore(p, o);
        conc::stats(line, r);
    }
    std::cout.flush();
    _exit(0);
}
#endif
