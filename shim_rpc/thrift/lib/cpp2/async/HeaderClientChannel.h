#pragma once
#include <folly/io/async/AsyncSocket.h>
#define THRIFT_UNFRAMED_DEPRECATED 1
namespace apache { namespace thrift {
namespace protocol { enum { T_BINARY_PROTOCOL = 0, T_COMPACT_PROTOCOL = 2 }; }
class RequestChannel { public: virtual ~RequestChannel() = default; };
class HeaderClientChannel : public RequestChannel {
public:
    std::shared_ptr<folly::AsyncSocket> socket; uint32_t timeout = 0; int protocol = 2, type = 0; bool ok = true;
    static std::shared_ptr<HeaderClientChannel> newChannel(std::shared_ptr<folly::AsyncSocket> s) { auto c = std::make_shared<HeaderClientChannel>(); c->socket = std::move(s); if (c->socket) c->socket->channel = &c->ok; return c; }
    ~HeaderClientChannel() override { if (socket) socket->channel = nullptr; }
    bool good() const { return ok; }
    folly::AsyncTransport* getTransport() const { return socket.get(); }
    void setTimeout(uint32_t t) { timeout = t; }
    void setProtocolId(int p) { protocol = p; }
    void setClientType(int t) { type = t; }
};
}}
