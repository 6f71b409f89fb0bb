#pragma once
#include <folly/Portability.h>
#include <gflags/gflags.h>
namespace folly {
inline void init(int* c, char*** v, bool r = true) { gflags::ParseCommandLineFlags(c, v, r); }
class SingletonVault { public: static SingletonVault* singleton() { static SingletonVault s; return &s; } void destroyInstances() {} };
}
