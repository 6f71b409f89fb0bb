// A stand-in for libevent: event loops on a virtual clock, for worker threads
// that run under the controlled scheduler.
#pragma once
#include <cstdint>
#include <functional>
#include <vector>
namespace evfake {
struct Hooks { std::function<void()> idle; std::function<void(int64_t now, const std::vector<int>& idle)> tick; };
Hooks& hooks();
void reset();                    // time 0, between executions
int64_t now();                   // virtual microseconds
void sleepUntil(int64_t us);     // for threads of the harness
}
