#pragma once
#include <folly/Portability.h>
namespace folly {
// Same contract as folly's: shared/exclusive, copyable (copy = fresh unlocked lock).
class RWSpinLock {
public:
    RWSpinLock() = default;
    RWSpinLock(const RWSpinLock&) {}
    RWSpinLock& operator=(const RWSpinLock&) { return *this; }
    void lock() { m_.lock(); }
    void unlock() { m_.unlock(); }
    bool try_lock() { return m_.try_lock(); }
    void lock_shared() { m_.lock_shared(); }
    void unlock_shared() { m_.unlock_shared(); }
    bool try_lock_shared() { return m_.try_lock_shared(); }
    class ReadHolder {
    public:
        explicit ReadHolder(RWSpinLock* l) : l_(l) { if (l_) l_->lock_shared(); }
        explicit ReadHolder(RWSpinLock& l) : ReadHolder(&l) {}
        explicit ReadHolder(const RWSpinLock& l) : ReadHolder(const_cast<RWSpinLock*>(&l)) {}
        explicit ReadHolder(const RWSpinLock* l) : ReadHolder(const_cast<RWSpinLock*>(l)) {}
        ReadHolder(ReadHolder&& o) noexcept : l_(o.l_) { o.l_ = nullptr; }
        ~ReadHolder() { if (l_) l_->unlock_shared(); }
        void reset(RWSpinLock* l = nullptr) { if (l == l_) return; if (l_) l_->unlock_shared(); l_ = l; if (l_) l_->lock_shared(); }
    private:
        RWSpinLock* l_;
    };
    class WriteHolder {
    public:
        explicit WriteHolder(RWSpinLock* l) : l_(l) { if (l_) l_->lock(); }
        explicit WriteHolder(RWSpinLock& l) : WriteHolder(&l) {}
        WriteHolder(WriteHolder&& o) noexcept : l_(o.l_) { o.l_ = nullptr; }
        ~WriteHolder() { if (l_) l_->unlock(); }
        void reset(RWSpinLock* l = nullptr) { if (l == l_) return; if (l_) l_->unlock(); l_ = l; if (l_) l_->lock(); }
    private:
        RWSpinLock* l_;
    };
private:
    std::shared_mutex m_;
};
using SharedMutex = RWSpinLock;
}
