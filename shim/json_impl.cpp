#include <folly/json.h>
#include <nlohmann/json.hpp>
namespace folly {
namespace {
dynamic from(const nlohmann::json& j) {
    if (j.is_null()) return nullptr;
    if (j.is_boolean()) return j.get<bool>();
    if (j.is_number_integer()) return j.get<int64_t>();
    if (j.is_number_float()) return j.get<double>();
    if (j.is_string()) return j.get<std::string>();
    if (j.is_array()) { dynamic::Array a; for (auto& e : j) a.push_back(from(e)); return dynamic::makeArray(std::move(a)); }
    dynamic o = dynamic::object(); for (auto it = j.begin(); it != j.end(); ++it) o[it.key()] = from(it.value()); return o;
}
nlohmann::json conv(const dynamic& d) {
    switch (d.type()) {
        case dynamic::NULLT: return nullptr; case dynamic::BOOL: return d.getBool(); case dynamic::INT64: return d.getInt();
        case dynamic::DOUBLE: return d.getDouble(); case dynamic::STRING: return d.getString();
        case dynamic::ARRAY: { auto a = nlohmann::json::array(); for (auto& e : d) a.push_back(conv(e)); return a; }
        case dynamic::OBJECT: { auto o = nlohmann::json::object(); for (auto& kv : d.items()) o[kv.first] = conv(kv.second); return o; }
    }
    return nullptr;
}
}
dynamic parseJson(StringPiece s) { try { return from(nlohmann::json::parse(s.begin(), s.end())); } catch (const nlohmann::json::exception& e) { throw json::parse_error(e.what()); } }
std::string toJson(const dynamic& d) { return conv(d).dump(-1, ' ', false, nlohmann::json::error_handler_t::replace); }
std::string toPrettyJson(const dynamic& d) { return conv(d).dump(2, ' ', false, nlohmann::json::error_handler_t::replace); }
}
