// Shared by the concurrency drivers: programs in, distinct recorded traces out.
#pragma once
#include "vsched.h"
#include <iostream>
#include <memory>
#include <set>
#include <sstream>
#include <string>
#include <vector>
namespace conc {
using Prog = std::vector<std::vector<std::string>>;    // operations of each thread
inline std::vector<std::string> words(const std::string& s) { std::istringstream i(s); std::vector<std::string> v; std::string w; while (i >> w) v.push_back(w); return v; }
inline std::vector<std::string> cut(const std::string& s, char c) { std::vector<std::string> v; std::string w; std::istringstream i(s); while (std::getline(i, w, c)) v.push_back(w); return v; }
struct Log {
    std::vector<std::string> ev;
    void add(const std::string& e) { ev.push_back(e); }
    void call(const std::string& f, const std::string& more = "") { add("{\"op\":\"call\",\"t\":" + std::to_string(sched::self()) + ",\"f\":\"" + f + "\"" + more + "}"); }
    void ret(const std::string& res, const std::string& more = "") { add("{\"op\":\"ret\",\"t\":" + std::to_string(sched::self()) + ",\"res\":\"" + res + "\"" + more + "}"); }
    void quiet(const std::vector<int>& b) { std::string s; for (int x : b) s += (s.empty() ? "" : ",") + std::to_string(x); add("{\"op\":\"quiet\",\"b\":[" + s + "]}"); }
    // nobody can go on: either everybody left is legitimately blocked, or it is a livelock
    void stuck() { bool q = !ev.empty() && ev.back().find("\"quiet\"") != std::string::npos; add(q ? "{\"op\":\"stuck\"}" : "{\"op\":\"livelock\"}"); }
    std::string json() const { std::string s = "["; for (auto& e : ev) s += (s.size() > 1 ? "," : "") + e; return s + "]"; }
};
inline std::set<std::string>& seen() { static std::set<std::string> s; return s; }
inline void emit(const Log& l) { auto j = l.json(); if (seen().insert(j).second) std::cout << j << "\n"; }
inline void stats(const std::string& line, const sched::Result& r) {
    std::cout << "#{\"program\":\"" << line << "\",\"runs\":" << r.runs << ",\"exhausted\":" << (r.exhausted ? "true" : "false") << ",\"stuck\":" << r.stuck << ",\"points\":" << r.maxPoints << "}" << std::endl;
}
}
