#pragma once
#include <folly/io/async/EventBaseManager.h>
namespace folly { template <class F> auto async(F&& f) { return via(EventBaseManager::get()->getEventBase(), std::forward<F>(f)); } }
