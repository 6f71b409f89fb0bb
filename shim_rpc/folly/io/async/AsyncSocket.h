// A stand-in: sockets that connect to nothing; a driver says what became of them.
#pragma once
#include <folly/io/async/EventBase.h>
#include <map>
#include <set>
#include <string>
namespace vf {
struct Net {
    std::map<std::string, std::string> names;        // what a name resolves to
    std::set<std::string> hung, bad;                 // the addresses whose connections are hung up, or whose channel is no good
    int sockets = 0;
    static Net& get() { static Net n; return n; }
};
}
namespace folly { class AsyncSocket; }
namespace vf { inline std::vector<std::weak_ptr<folly::AsyncSocket>>& socketsMade() { static std::vector<std::weak_ptr<folly::AsyncSocket>> v; return v; } }
namespace folly {
class AsyncTransport { public: virtual ~AsyncTransport() = default; };
class AsyncSocket : public AsyncTransport {
public:
    bool* channel = nullptr;   // whether its channel is good
    EventBase* evb; std::string host; int port; int timeout; int id;
    static std::shared_ptr<AsyncSocket> newSocket(EventBase* e, const std::string& h, int p, int t = 0) {
        auto s = std::make_shared<AsyncSocket>(); s->evb = e; s->host = h; s->port = p; s->timeout = t; s->id = ++vf::Net::get().sockets; vf::socketsMade().push_back(s); return s;
    }
    bool hung = false;
    bool hangup() const { return hung; }
};
struct IPAddress {
    static bool validate(const std::string& s) { int a, b, c, d, n = 0; return sscanf(s.c_str(), "%d.%d.%d.%d%n", &a, &b, &c, &d, &n) == 4 && static_cast<size_t>(n) == s.size(); }
};
struct SocketAddress {
    std::string a;
    SocketAddress(const std::string& h, int, bool) { auto i = vf::Net::get().names.find(h); if (i == vf::Net::get().names.end()) throw std::runtime_error("Failed to resolve address for '" + h + "'"); a = i->second; }
    std::string getAddressStr() const { return a; }
};
}
