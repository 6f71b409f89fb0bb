// The calls the asynchronous clients make, waiting for the driver to answer them.
#pragma once
#include <thrift/lib/cpp2/async/HeaderClientChannel.h>
#include <vfrpc/types.h>
#include <deque>
namespace vf {
struct Rpc {
    std::string service, method, host; int evb; int sock; uint32_t timeout; int running; folly::dynamic req; int64_t at;
    std::shared_ptr<apache::thrift::HeaderClientChannel> channel;
    std::function<void(const folly::dynamic&, const std::function<void(const folly::dynamic&)>&)> reply; std::function<void(const folly::dynamic&)> echo; std::function<void(const std::string&)> fail;
};
inline std::function<void(Rpc&&)>& onCall() { static std::function<void(Rpc&&)> f; return f; }
struct TransportError : std::runtime_error { using std::runtime_error::runtime_error; };
template <class R> folly::Future<R> call(const char* service, const char* method, const std::shared_ptr<apache::thrift::HeaderClientChannel>& ch, const folly::dynamic& req) {
    auto p = std::make_shared<folly::Promise<R>>();
    auto f = p->getFuture();
    Rpc r{service, method, ch->socket->host + ":" + std::to_string(ch->socket->port), ch->socket->evb->id(), ch->socket->id, ch->timeout, Loop::get().running, req, Loop::get().now, ch, nullptr, nullptr};
    r.reply = [p](const folly::dynamic& d, const std::function<void(const folly::dynamic&)>& echo) { if constexpr (std::is_same<R, folly::Unit>::value) { echo(d); p->setValue(folly::Unit()); } else { R x; fromDyn(d, x); echo(toDyn(x)); p->setValue(std::move(x)); } };
    r.fail = [p](const std::string& m) { p->setException(folly::make_exception_wrapper<TransportError>(m)); };
    onCall()(std::move(r));
    return f;
}
}
