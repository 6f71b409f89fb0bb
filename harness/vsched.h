// A controlled scheduler for real code.  Threads registered here run one at a
// time; at every mutex / condition variable / rwlock operation, and at every
// access to a watched memory range (when the code is compiled with
// -fsanitize=thread and linked against vsched.cpp instead of the TSan runtime),
// the scheduler chooses which thread goes on.  Choices are enumerated depth
// first within a budget of deviations (preemptions, spurious wakeups, time-outs)
// or drawn at random.
#pragma once
#include <cstdint>
#include <functional>
#include <string>
#include <vector>
namespace sched {
struct Options {
    int deviations = 2;          // budget per execution, depth-first mode
    int spurious = 1;            // how many of them may be spurious wakeups
    int timeouts = 1;            // how many of them may be early time-outs of timed waits
    size_t maxRuns = 20000;      // depth-first executions at most
    size_t randomRuns = 0;       // additional random executions
    uint64_t seed = 1;
    size_t maxSteps = 20000;     // an execution longer than this is cut ("livelock")
};
struct Result { size_t runs = 0; bool exhausted = false; size_t stuck = 0; size_t maxPoints = 0; };
// One execution: fresh() builds the objects and returns the thread bodies;
// held[i] are bodies that are only started, one after the other, when every
// other thread is blocked or done.  done(stuck) is called at the end of the run.
struct Program {
    std::function<std::vector<std::function<void()>>()> bodies;
    std::function<std::vector<std::function<void()>>()> held;
    std::function<void(const std::vector<int>& blocked)> quiet;   // all blocked or done
    std::function<void(bool stuck)> done;
};
Result explore(const Program& p, const Options& o);
int self();                      // index of the calling managed thread, -1 if unmanaged
void point();                    // explicit scheduling point
void watch(const void* p, size_t n);
void unwatch();
size_t blockedCount();           // threads blocked at the last quiescence
int64_t vtime();                 // virtual nanoseconds that passed by timed waits
}
