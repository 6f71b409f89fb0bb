import os, shutil
from mkseed import mkseed, demo
# a demo over the stand-in folly headers, which lie beside it
def sdemo(src, extra=""):
    return """#!/bin/bash
set -e
D=$(cd "$(dirname "$0")" && pwd); W=$(mktemp -d); trap 'rm -rf "$W"' EXIT
cd /repo/src
for f in "$D/demo.cpp" %s; do
    g++ -std=c++17 -O0 -fno-strict-aliasing -w -DNEBULA_HOME=/repo -DNDEBUG %s -I"$D/shim" -I/repo/src -c $f -o "$W/$(echo $f | tr / _).o" &
done
for j in $(jobs -p); do wait $j; done
g++ %s "$W"/*.o -o "$W/demo" -lglog -lgflags -lpthread
cd "$W"; timeout 120 ./demo
""" % (" ".join(src), extra, extra)
DT = ["common/datatypes/%s.cpp" % f for f in ("Value", "Date", "Edge", "List", "Map", "Path", "Set", "Vertex", "HostAddr")]
def shimmed(id, *a):
    mkseed(id, *a)
    shutil.rmtree("/verif/seeded/%s/shim" % id, ignore_errors=True)
    shutil.copytree("/verif/shim", "/verif/seeded/%s/shim" % id)

mkseed("nominator-empty", "C04", [("thread/NamedThread.h", "            set(prevName_);\n        }", "            if (!prevName_.empty()) {\n                set(prevName_);\n            }\n        }")],
 "a nominated scope in a thread whose name was empty before", "the name of the scope stays on the thread after the scope has ended",
 {"demo.sh": demo(), "demo.cpp": r'''
#include "common/thread/NamedThread.h"
using nebula::thread::NamedThread;
int main() {
    std::string n = "?";
    NamedThread t("", [&] {
        NamedThread::Nominator::set("");
        { NamedThread::Nominator s("scope"); }
        NamedThread::Nominator::get(n);
    });
    t.join();
    return n.empty() ? 0 : 1;
}
'''})
mkseed("tempfile-mode", "C05", [("fs/TempFile.cpp", "    ::close(fd);", "    // Let the file have the mode any newly created one has\n    auto mask = ::umask(0);\n    ::umask(mask);\n    ::fchmod(fd, 0666 & ~mask);\n    ::close(fd);")],
 "another user of the machine", "a temporary file can be read by others, though it is promised to have the mode 0600",
 {"demo.sh": demo(), "demo.cpp": r'''
#include <sys/stat.h>
#include "common/fs/TempFile.h"
int main() {
    ::umask(022);
    nebula::fs::TempFile f("./demo.XXXXXX");
    struct stat st;
    if (::stat(f.path(), &st)) return 2;
    return (st.st_mode & 0777) == 0600 ? 0 : 1;
}
'''})
shimmed("lru-last-bucket", "C14", [("base/ConcurrentLRUCache.h", "        buckets_.emplace_back(left);", "        buckets_.emplace_back(capPerBucket);")],
 "a capacity that is no multiple of the number of buckets, and the last bucket full", "the cache drops entries though it holds fewer than its capacity",
 {"demo.sh": sdemo(["common/base/Status.cpp"]), "demo.cpp": r'''
#include "common/base/Base.h"
#include "common/base/ConcurrentLRUCache.h"
int main() {
    nebula::ConcurrentLRUCache<int32_t, int32_t> c(11, 2);   // 2 + 2 + 2 + 5
    for (int i = 0; i < 5; i++) c.insert(i, i, 3);
    for (int i = 0; i < 5; i++) if (!c.contains(i, 3)) return 1;
    return c.evicts() == 0 ? 0 : 1;
}
'''})
shimmed("lru-overwrite-full", "C14", [("base/ConcurrentLRUCache.h", "        typename map_type::iterator it = map_.find(key);\n        if (it == map_.end()) {\n            // insert item into the cache, but first check if it is full\n            if (size() >= capacity_) {\n                VLOG(3) << \"Size:\" << size() << \", capacity \" << capacity_;\n                // cache is full, evict the least recently used item\n                evict();\n            }\n",
  "        if (size() >= capacity_) {\n            VLOG(3) << \"Size:\" << size() << \", capacity \" << capacity_;\n            // cache is full, evict the least recently used item\n            evict();\n        }\n        typename map_type::iterator it = map_.find(key);\n        if (it == map_.end()) {\n")],
 "overwriting a key in a bucket that is full", "an entry is dropped though nothing was added",
 {"demo.sh": sdemo(["common/base/Status.cpp"]), "demo.cpp": r'''
#include "common/base/Base.h"
#include "common/base/ConcurrentLRUCache.h"
int main() {
    nebula::ConcurrentLRUCache<int32_t, int32_t> c(8, 1);
    for (int i = 0; i < 4; i++) c.insert(i, i, 0);
    c.insert(3, 30, 0);
    for (int i = 0; i < 4; i++) if (!c.contains(i, 0)) return 1;
    return c.get(3, 0).value() == 30 ? 0 : 1;
}
'''})
shimmed("status-nul", "C13", [("base/Status.cpp", "    result.append(&state_[kHeaderSize], size());", "    result.append(&state_[kHeaderSize], ::strnlen(&state_[kHeaderSize], size()));")],
 "a message with a zero byte in it", "the text of the status ends at the zero byte",
 {"demo.sh": sdemo(["common/base/Status.cpp"]), "demo.cpp": r'''
#include "common/base/Base.h"
#include "common/base/Status.h"
int main() {
    std::string m("ab\0cd", 5);
    nebula::Status s = nebula::Status::Error(m);
    return s.message() == m && s.toString() == m ? 0 : 1;
}
'''})
shimmed("pool-nolock", "C15", [("base/ObjectPool.h", "        folly::SpinLockGuard g(lock_);\n        objects_.emplace_back(obj);", "        objects_.emplace_back(obj);")],
 "two threads adding to one pool at the same time", "the list of the pool is torn: objects are lost or destroyed twice",
 {"demo.sh": sdemo([], "-fsanitize=thread -g"), "demo.cpp": r'''
#include <thread>
#include "common/base/ObjectPool.h"
struct Obj { static std::atomic<int> live; Obj() { live++; } ~Obj() { live--; } };
std::atomic<int> Obj::live{0};
int main() {
    nebula::ObjectPool p;
    auto f = [&] { for (int i = 0; i < 2000; i++) p.makeAndAdd<Obj>(); };
    std::thread a(f), b(f);
    a.join(); b.join();
    p.clear();
    return Obj::live == 0 ? 0 : 1;
}
'''})
shimmed("date-quotient", "C16", [("datatypes/Date.cpp", "        daysInYear -= (yearsPassed - 1) / 4 + 1;", "        daysInYear -= yearsPassed / 4 + 1;")],
 "a date whose number of days divided by 365 is a multiple of four", "the date read back from its number of days is one day early",
 {"demo.sh": sdemo(["common/datatypes/Date.cpp"]), "demo.cpp": r'''
#include "common/base/Base.h"
#include "common/datatypes/Date.h"
int main() {
    nebula::Date d(1999, 1, 1);
    int64_t n = d.toInt();
    for (int i = 0; i < 4000; i++) {
        nebula::Date e; e.fromInt(n + i);
        if (e.toInt() != n + i) return 1;
    }
    return 0;
}
'''})
shimmed("files-ctime", "C28", [("fs/FileUtils.cpp", "    return st.st_mtime;", "    return st.st_ctime;")],
 "a file whose modification time was set apart from the change of its attributes", "the time of the last update is that of the last change of the attributes",
 {"demo.sh": sdemo(["common/fs/FileUtils.cpp", "common/base/Status.cpp"]), "demo.cpp": r'''
#include <sys/stat.h>
#include <sys/time.h>
#include <fstream>
#include "common/base/Base.h"
#include "common/fs/FileUtils.h"
int main() {
    std::ofstream("demo.txt") << "x";
    struct timeval t[2] = {{1000000000, 0}, {1234567890, 0}};
    if (::utimes("demo.txt", t)) return 2;
    return nebula::fs::FileUtils::fileLastUpdateTime("demo.txt") == 1234567890 ? 0 : 1;
}
'''})
shimmed("files-list-hidden", "C28", [("fs/FileUtils.cpp", "            if (!strcmp(dirInfo->d_name, \".\") || !strcmp(dirInfo->d_name, \"..\")) {", "            if (dirInfo->d_name[0] == '.') {")],
 "a file or directory whose name starts with a dot", "it is left out of the listing of its directory",
 {"demo.sh": sdemo(["common/fs/FileUtils.cpp", "common/base/Status.cpp"]), "demo.cpp": r'''
#include <sys/stat.h>
#include <fstream>
#include "common/base/Base.h"
#include "common/fs/FileUtils.h"
int main() {
    if (::mkdir("demodir", 0700)) return 2;
    std::ofstream("demodir/.hidden") << "x";
    auto l = nebula::fs::FileUtils::listAllFilesInDir("demodir");
    return l.size() == 1 && l[0] == ".hidden" ? 0 : 1;
}
'''})
shimmed("path-dup-reversed", "C35", [("datatypes/Path.cpp", "            ret = uniqueSet.emplace(dstVid, srcVid, -step.type, step.ranking).second;", "            ret = uniqueSet.emplace(dstVid, srcVid, step.type, step.ranking).second;")],
 "a path that walks one edge forth and back", "the path is said to have no edge twice",
 {"demo.sh": sdemo(DT), "demo.cpp": r'''
#include "common/datatypes/Path.h"
using namespace nebula;
int main() {
    Path p;
    p.src = Vertex("a", {});
    p.steps.emplace_back(Vertex("b", {}), 1, "e", 0, std::unordered_map<std::string, Value>());
    p.steps.emplace_back(Vertex("a", {}), -1, "e", 0, std::unordered_map<std::string, Value>());
    return p.hasDuplicateEdges() ? 0 : 1;
}
'''})
shimmed("value-less-mixed", "C18", [("datatypes/Value.cpp", "                    return lhs.getInt() < rhs.getFloat();", "                    return lhs.getInt() < static_cast<int64_t>(rhs.getFloat());")],
 "an integer and a float that lies less than one above it", "the integer is neither less than the float nor equal to it, nor the other way round",
 {"demo.sh": sdemo(DT), "demo.cpp": r'''
#include "common/datatypes/Value.h"
using nebula::Value;
int main() { return Value(1) < Value(1.5) && !(Value(1.5) < Value(1)) && Value(-2) < Value(-1.5) ? 0 : 1; }
'''})
shimmed("value-mod-float", "C17", [("datatypes/Value.cpp", "                        return std::fmod(lhs.getFloat(), denom);\n                    } else {\n                        return Value::kNullDivByZero;\n                    }\n                }\n                case Value::Type::FLOAT: {", "                        return std::remainder(lhs.getFloat(), denom);\n                    } else {\n                        return Value::kNullDivByZero;\n                    }\n                }\n                case Value::Type::FLOAT: {")],
 "a float taken modulo an integer, the rest more than half of the integer", "the result has the other sign",
 {"demo.sh": sdemo(DT), "demo.cpp": r'''
#include "common/datatypes/Value.h"
using nebula::Value;
int main() { return (Value(5.5) % Value(3)).getFloat() == 2.5 && (Value(-5.5) % Value(3)).getFloat() == -2.5 ? 0 : 1; }
'''})
shimmed("agg-xor-latch", "C20", [("function/AggFunctionManager.cpp", "            auto& res = aggData->result();\n            if (res.isBadNull()) {\n                return;\n            }\n            if (UNLIKELY(!val.isNull() && !val.empty() && !val.isInt())) {\n                res = Value::kNullBadType;\n                return;\n            }\n            if (val.isNull() || val.empty()) {\n                return;\n            }\n            if (res.isNull() && val.isInt()) {\n                res = val;\n                return;\n            }\n\n            res = res ^ val;",
   "            auto& res = aggData->result();\n            if (UNLIKELY(!val.isNull() && !val.empty() && !val.isInt())) {\n                res = Value::kNullBadType;\n                return;\n            }\n            if (val.isNull() || val.empty()) {\n                return;\n            }\n            if (res.isNull() && val.isInt()) {\n                res = val;\n                return;\n            }\n\n            res = res ^ val;")],
 "a stream with a value that is no integer, followed by integers", "the aggregate starts anew after the wrong value, and its result hides it",
 {"demo.sh": sdemo(DT + ["common/function/AggFunctionManager.cpp", "common/base/Status.cpp"]), "demo.cpp": r'''
#include "common/base/Base.h"
#include "common/datatypes/List.h"
#include "common/datatypes/Set.h"
#include "common/function/AggFunctionManager.h"
using namespace nebula;
int main() {
    auto f = AggFunctionManager::get("BIT_XOR");
    if (!f.ok()) return 2;
    AggData d;
    for (auto& v : {Value(1), Value("x"), Value(2)}) f.value()(&d, v);
    return d.result().isBadNull() ? 0 : 1;
}
'''})
EX = sorted("common/expression/" + f for f in os.listdir("/repo/src/common/expression") if f.endswith(".cpp"))
FN = DT + EX + ["common/function/FunctionManager.cpp", "common/function/AggFunctionManager.cpp", "common/time/TimeUtils.cpp", "common/time/TimezoneInfo.cpp",
      "common/time/TimeConversion.cpp", "common/time/WallClock.cpp", "common/time/detail/TscHelper.cpp", "common/base/Status.cpp", "common/base/Base.cpp"]
CTX = r'''
#include "common/base/Base.h"
#include "common/base/ObjectPool.h"
#include "common/datatypes/List.h"
#include "common/datatypes/Map.h"
#include "common/datatypes/Set.h"
#include "common/datatypes/DataSet.h"
#include "common/context/ExpressionContext.h"
#include "common/expression/ConstantExpression.h"
#include "common/expression/SubscriptExpression.h"
#include "common/expression/CaseExpression.h"
using namespace nebula;
'''
shimmed("range-negative-high", "C19", [("expression/SubscriptExpression.cpp", "    if (lo < 0) {\n        lo = 0;\n    }\n    if (lo >= hi) {\n        result_ = List();\n        return result_;\n    }\n", "    if (lo >= hi) {\n        result_ = List();\n        return result_;\n    }\n    if (lo < 0) {\n        lo = 0;\n    }\n")],
 "a slice both bounds of which lie before the start of the list", "the slice is the whole list instead of an empty one",
 {"demo.sh": sdemo(FN), "demo.cpp": CTX + r'''
struct Ctx : ExpressionContext {
    Value v;
    const Value& getVar(const std::string&) const override { return v; }
    const Value& getVersionedVar(const std::string&, int64_t) const override { return v; }
    const Value& getVarProp(const std::string&, const std::string&) const override { return v; }
    Value getEdgeProp(const std::string&, const std::string&) const override { return v; }
    Value getTagProp(const std::string&, const std::string&) const override { return v; }
    Value getSrcProp(const std::string&, const std::string&) const override { return v; }
    const Value& getDstProp(const std::string&, const std::string&) const override { return v; }
    const Value& getInputProp(const std::string&) const override { return v; }
    Value getColumn(int32_t) const override { return v; }
    Value getVertex() const override { return v; }
    Value getEdge() const override { return v; }
    void setVar(const std::string&, Value) override {}
};
int main() {
    ObjectPool p; Ctx c;
    for (int lo = -6; lo <= 6; lo++) for (int hi = -6; hi <= 6; hi++) {
        List l; for (int i = 0; i < 3; i++) l.values.emplace_back(i);
        auto* e = SubscriptRangeExpression::make(&p, ConstantExpression::make(&p, Value(l)), ConstantExpression::make(&p, lo), ConstantExpression::make(&p, hi));
        int a = lo < 0 ? lo + 3 : lo, b = hi < 0 ? hi + 3 : hi;
        size_t n = 0; for (int i = 0; i < 3; i++) n += i >= a && i < b;
        auto& r = e->eval(c);
        if (!r.isList() || r.getList().values.size() != n) return 1;
    }
    return 0;
}
'''})
shimmed("case-equal-default", "C36", [("expression/CaseExpression.cpp", "    if (hasDefault() != expr.hasDefault()) {\n        return false;\n    }\n    if (hasDefault()) {\n        if (*default_ != *expr.default_) {", "    if (hasDefault() && expr.hasDefault()) {\n        if (*default_ != *expr.default_) {")],
 "two CASE expressions of which only one has an ELSE", "they are said to be equal",
 {"demo.sh": sdemo(FN), "demo.cpp": CTX + r'''
int main() {
    ObjectPool p;
    auto make = [&] (bool def) {
        auto* l = CaseList::make(&p);
        l->add(ConstantExpression::make(&p, 1), ConstantExpression::make(&p, 2));
        auto* e = CaseExpression::make(&p, l);
        if (def) e->setDefault(ConstantExpression::make(&p, 3));
        return e;
    };
    return *make(true) == *make(true) && *make(false) == *make(false) && !(*make(true) == *make(false)) && !(*make(false) == *make(true)) ? 0 : 1;
}
'''})
shimmed("lpad-empty-pad", "C37", [("function/FunctionManager.cpp", '''                if (size < 0) {
                    return std::string("");
                } else if (size < static_cast<int64_t>(value.size())) {
                    return value.substr(0, static_cast<int32_t>(size));
                } else {
                    auto extra = args[2].get().getStr();
                    if (extra.empty()) {
                        return value;
                    }
                    size -= value.size();
                    std::stringstream stream;
                    while (size''', '''                auto extra = args[2].get().getStr();
                if (size < 0) {
                    return std::string("");
                } else if (extra.empty()) {
                    return value;
                } else if (size < static_cast<int64_t>(value.size())) {
                    return value.substr(0, static_cast<int32_t>(size));
                } else {
                    size -= value.size();
                    std::stringstream stream;
                    while (size''')],
 "a padding to less than the length of the text, with nothing to pad with", "lpad returns the whole text instead of its start",
 {"demo.sh": sdemo(FN), "demo.cpp": CTX + r'''
#include "common/function/FunctionManager.h"
int main() {
    auto f = FunctionManager::get("lpad", 3);
    if (!f.ok()) return 2;
    Value a("abcdef"), n(3), e("");
    std::vector<FunctionManager::ArgType> args{a, n, e};
    return f.value()(args) == Value("abc") ? 0 : 1;
}
'''})
shimmed("conf-double-int", "C27", [("conf/Configuration.cpp", "    if (!iter->second.isDouble()) {\n        return Status::Error(\"Item \\\"%s\\\" is not a double\", key);\n    }\n    val = iter->second.getDouble();", "    if (!iter->second.isNumber()) {\n        return Status::Error(\"Item \\\"%s\\\" is not a double\", key);\n    }\n    val = iter->second.asDouble();")],
 "an item that is an integer, read as a double", "the item is given although it is no double",
 {"demo.sh": sdemo(["common/conf/Configuration.cpp", "common/base/Status.cpp", '"$D/shim/json_impl.cpp"']), "demo.cpp": r'''
#include "common/base/Base.h"
#include "common/conf/Configuration.h"
using nebula::conf::Configuration;
int main() {
    Configuration c; double d = 7;
    if (!c.parseFromString("{\"a\": 3, \"b\": 1.5}").ok()) return 2;
    if (!c.fetchAsDouble("b", d).ok() || d != 1.5) return 3;
    return !c.fetchAsDouble("a", d).ok() && d == 1.5 ? 0 : 1;
}
'''})
