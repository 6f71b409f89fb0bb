#pragma once
#include <folly/io/async/EventBase.h>
#include <folly/ThreadLocal.h>
namespace folly {
class EventBaseManager {
    EventBase e_{99};
public:
    static EventBaseManager* get() { static EventBaseManager m; return &m; }
    EventBase* getEventBase() { return &e_; }
};
}
