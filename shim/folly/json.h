#pragma once
#include <folly/dynamic.h>
#include <folly/String.h>
namespace folly {
namespace json {
struct parse_error : std::runtime_error { using std::runtime_error::runtime_error; };
struct serialization_opts { bool pretty_formatting{false}; bool sort_keys{false}; bool allow_nan_inf{false}; };
}
dynamic parseJson(StringPiece s);
std::string toJson(const dynamic& d);
std::string toPrettyJson(const dynamic& d);
namespace json { inline std::string serialize(const dynamic& d, const serialization_opts& o) { return o.pretty_formatting ? toPrettyJson(d) : toJson(d); } }
}
