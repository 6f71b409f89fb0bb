// Configuration: three of them, by number.
#include "common/base/Base.h"
#include "common/conf/Configuration.h"
#include <folly/json.h>
#include <sys/stat.h>
#include "drv.h"
using nebula::conf::Configuration;
// the shortest decimal that reads back as d
static std::string real(double d) { char b[64]; for (int p = 15; p <= 17; ++p) { snprintf(b, sizeof b, "%.*g", p, d); if (strtod(b, nullptr) == d) break; } return b; }
template <class T> static std::string list(const std::vector<T>& v, size_t from) {
    std::string s = "[";
    for (size_t i = from; i < v.size(); i++) {
        s += s.size() > 1 ? "," : "";
        if constexpr (std::is_same<T, std::string>::value) s += drv::bytes(v[i]);
        else if constexpr (std::is_same<T, bool>::value) s += v[i] ? "true" : "false";
        else if constexpr (std::is_same<T, double>::value) s += drv::bytes(real(v[i]));
        else s += drv::bytes(std::to_string(v[i]));
    }
    return s + "]";
}
template <class T, class F> static std::string array(F f, std::vector<T> before) {
    auto v = before; auto st = f(v); drv::Obj o; o.boolean("ok", st.ok());
    bool kept = v.size() >= before.size() && std::equal(before.begin(), before.end(), v.begin());
    return o.boolean("before", kept).raw("v", st.ok() && kept ? list(v, before.size()) : "[]").done();
}
int main(int, char** argv) {
    std::unique_ptr<Configuration> cs[4]; for (auto& c : cs) c.reset(new Configuration());
    std::string dir = argv[1]; int serial = 0;
    return drv::loop([&](const std::vector<std::string>& w) -> std::string {
        drv::Obj o; auto f = w[0];
        if (f == "reset") { for (auto& c : cs) c.reset(new Configuration()); return "{}"; }
        auto& c = *cs[std::stoi(w[1])]; auto arg = [&](size_t i) { return drv::unhex(w[i]); };
        if (f == "fresh") { cs[std::stoi(w[1])].reset(new Configuration()); return "{}"; }
        if (f == "text") { auto st = c.parseFromString(arg(2)); return o.boolean("ok", st.ok()).done(); }
        if (f == "file") {
            auto p = dir + "/conf." + std::to_string(++serial); auto mode = w[2];
            if (mode == "file") { FILE* h = fopen(p.c_str(), "wb"); auto t = arg(3); fwrite(t.data(), 1, t.size(), h); fclose(h); }
            if (mode == "dir") mkdir(p.c_str(), 0755);
            if (mode == "below") p = dir + "/none/conf";
            auto st = c.parseFromFile(p);
            if (mode == "dir") rmdir(p.c_str()); else unlink(p.c_str());
            return o.boolean("ok", st.ok()).done();
        }
        if (f == "fetch") {
            auto k = arg(2); auto kind = w[3]; nebula::Status st;
            if (kind == "int") { int64_t v = -77; st = c.fetchAsInt(k.c_str(), v); return o.boolean("ok", st.ok()).boolean("kept", v == -77).bytes("v", std::to_string(v)).done(); }
            if (kind == "double") { double v = -77; st = c.fetchAsDouble(k.c_str(), v); return o.boolean("ok", st.ok()).boolean("kept", v == -77).bytes("v", real(v)).done(); }
            if (kind == "bool") { bool v = w[4] == "1", was = v; st = c.fetchAsBool(k.c_str(), v); return o.boolean("ok", st.ok()).boolean("kept", v == was).boolean("v", v).done(); }
            std::string v = "before"; st = c.fetchAsString(k.c_str(), v); return o.boolean("ok", st.ok()).boolean("kept", v == "before").bytes("v", v).done();
        }
        if (f == "sub") { auto st = c.fetchAsSubConf(arg(2).c_str(), *cs[std::stoi(w[3])]); return o.boolean("ok", st.ok()).done(); }
        if (f == "array") {
            auto k = arg(2); auto kind = w[3]; bool some = w[4] == "1";
            if (kind == "int") return array<int64_t>([&](auto& v) { return c.fetchAsIntArray(k.c_str(), v); }, some ? std::vector<int64_t>{5, 6} : std::vector<int64_t>{});
            if (kind == "double") return array<double>([&](auto& v) { return c.fetchAsDoubleArray(k.c_str(), v); }, some ? std::vector<double>{5} : std::vector<double>{});
            if (kind == "bool") return array<bool>([&](auto& v) { return c.fetchAsBoolArray(k.c_str(), v); }, some ? std::vector<bool>{true, false} : std::vector<bool>{});
            return array<std::string>([&](auto& v) { return c.fetchAsStringArray(k.c_str(), v); }, some ? std::vector<std::string>{"a"} : std::vector<std::string>{});
        }
        if (f == "upsert") { auto st = c.upsertStringField(arg(2).c_str(), arg(3)); return o.boolean("ok", st.ok()).done(); }
        if (f == "dump") return o.bytes("v", c.dumpToString()).bytes("pretty", c.dumpToPrettyString()).done();
        if (f == "keys") { std::vector<std::string> v; auto st = c.forEachKey([&](const std::string& k) { v.push_back(k); }); return o.boolean("ok", st.ok()).raw("v", list(v, 0)).done(); }
        if (f == "items") { std::string s = "["; auto st = c.forEachItem([&](const std::string& k, const folly::dynamic& v) { s += (s.size() > 1 ? "," : "") + drv::Obj().bytes("k", k).bytes("v", folly::toJson(v)).done(); }); return o.boolean("ok", st.ok()).raw("v", s + "]").done(); }
        if (f == "stop") {
            int at = std::stoi(w[2]), n = 0; nebula::Status st;
            auto go = [&] { if (++n == at) throw std::runtime_error("enough %s %d"); };
            if (w[3] == "1") st = c.forEachKey([&](const std::string&) { go(); }); else st = c.forEachItem([&](const std::string&, const folly::dynamic&) { go(); });
            return o.boolean("ok", st.ok()).num("seen", n).done();
        }
        return "{}";
    });
}
