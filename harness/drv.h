// Shared by the line drivers: one JSON answer per line of input.
#pragma once
#include <cstdint>
#include <functional>
#include <iostream>
#include <map>
#include <sstream>
#include <string>
#include <vector>
namespace drv {
inline std::vector<std::string> words(const std::string& s) { std::istringstream i(s); std::vector<std::string> v; std::string w; while (i >> w) v.push_back(w); return v; }
inline std::string unhex(const std::string& h) { std::string r; for (size_t i = 1; i + 1 < h.size(); i += 2) r.push_back(static_cast<char>(std::stoi(h.substr(i, 2), nullptr, 16))); return r; }   // "x" + hex digits
inline std::string bytes(const std::string& s) { std::string r = "["; for (unsigned char c : s) { if (r.size() > 1) r += ","; r += std::to_string(c); } return r + "]"; }
inline std::string quote(const std::string& s) {
    std::string r = "\"";
    for (unsigned char c : s) {
        char b[8];
        if (c == '"' || c == '\\') { r += '\\'; r += static_cast<char>(c); }
        else if (c < 32 || c >= 127) { snprintf(b, sizeof b, "\\u%04x", c); r += b; }
        else r += static_cast<char>(c);
    }
    return r + "\"";
}
struct Obj {
    std::string s;
    Obj& raw(const std::string& k, const std::string& v) { s += (s.empty() ? "" : ",") + quote(k) + ":" + v; return *this; }
    Obj& str(const std::string& k, const std::string& v) { return raw(k, quote(v)); }
    Obj& num(const std::string& k, long long v) { return raw(k, std::to_string(v)); }
    Obj& boolean(const std::string& k, bool v) { return raw(k, v ? "true" : "false"); }
    Obj& bytes(const std::string& k, const std::string& v) { return raw(k, drv::bytes(v)); }
    std::string done() const { return "{" + s + "}"; }
};
// f answers one line of input
inline int loop(const std::function<std::string(const std::vector<std::string>&)>& f) {
    std::string line;
    while (std::getline(std::cin, line)) { auto w = words(line); if (w.empty()) w.push_back(""); std::cout << f(w) << "\n" << std::flush; }
    return 0;
}
}
