#pragma once
#include <folly/Portability.h>
namespace folly {
class SpinLock {
public:
    void lock() { m_.lock(); }
    bool try_lock() { return m_.try_lock(); }
    void unlock() { m_.unlock(); }
private:
    std::mutex m_;
};
using SpinLockGuard = std::lock_guard<SpinLock>;
using MicroSpinLock = SpinLock;
}
