// Operators of Value: values are put into a table with "def", operations name them by index.
#include "value_io.h"
#include <glog/logging.h>
using vio::Words;
using namespace nebula;  // NOLINT
static std::vector<Value> tab;
int main() {
    return drv::loop([](const Words& w) -> std::string {
        if (w[0] == "reset") { tab.clear(); return "{}"; }
        if (w[0] == "def") { size_t i = 1; tab.emplace_back(vio::get(w, i)); return drv::Obj().str("back", vio::text(tab.back())).str("text", tab.back().toString()).done(); }
        const Value& a = tab.at(std::stoul(w[1]));
        auto res = [](const Value& v) { return drv::Obj().str("r", vio::text(v)).done(); };
        if (w[0] == "neg") return res(-a);
        if (w[0] == "not") return res(!a);
        if (w[0] == "toBool") return res(a.toBool());
        if (w[0] == "toFloat") return res(a.toFloat());
        if (w[0] == "toInt") return res(a.toInt());
        if (w[0] == "toIntP") return drv::Obj().str("r", vio::text(a.toInt())).str("d", vio::text(a.toFloat())).done();
        const Value& b = tab.at(std::stoul(w[2]));
        if (w[0] == "+") return res(a + b);
        if (w[0] == "-") return res(a - b);
        if (w[0] == "*") return res(a * b);
        if (w[0] == "/") return res(a / b);
        if (w[0] == "%") return res(a % b);
        if (w[0] == "&") return res(a & b);
        if (w[0] == "|") return res(a | b);
        if (w[0] == "^") return res(a ^ b);
        if (w[0] == "&&") return res(a && b);
        if (w[0] == "||") return res(a || b);
        if (w[0] == "cmp") return drv::Obj().boolean("lt", a < b).boolean("eq", a == b).boolean("ne", a != b).boolean("gt", a > b).boolean("le", a <= b).boolean("ge", a >= b).done();
        if (w[0] == "cmp3") return drv::Obj().str("less", vio::text(a.lessThan(b))).str("equal", vio::text(a.equal(b))).done();
        if (w[0] == "hash") {
            std::hash<Value> h; std::hash<Value*> hp; std::equal_to<Value*> ep;
            auto *pa = const_cast<Value*>(&a), *pb = const_cast<Value*>(&b);
            Value* nul = nullptr;
            return drv::Obj().boolean("h", h(a) == h(b)).boolean("peq", ep(pa, pb))
                .boolean("ph", hp(pa) == h(a) && hp(pb) == h(b) && !ep(pa, nul) && !ep(nul, pb) && ep(nul, nul) && hp(nul) == 0).done();
        }
        throw std::runtime_error("op " + w[0]);
    });
}
