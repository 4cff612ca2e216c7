// Controlled scheduler. The code under test is compiled with -fsanitize=thread, but linked with the
// callbacks in mcsched.cpp instead of the TSan runtime, and the pthread functions are replaced. One
// model thread runs at a time; at each synchronisation operation the explorer chooses who goes on, with
// a bound on preemptions. Plain memory accesses are checked for data races with vector clocks, so that
// for race-free code the choices at synchronisation operations cover every behaviour.
#pragma once
#include <functional>
#include <string>
#include <vector>
#include "mc.h"
namespace sched {
struct Result {
  uint64_t points = 0, switches = 0;
};
// Runs the bodies as concurrent threads until all have ended, exploring schedules through c.
// Reports races and deadlocks through c.fail. spurious: allowed number of spurious wake-ups.
Result run(mc::Ctx& c, const std::vector<std::function<void()>>& bodies, int preemptions, int spurious = 0);
// A violation found inside a model thread.
[[noreturn]] void fail(const std::string& key, const std::string& what);
// Index of the running model thread, -1 outside.
int self();
// A scheduling point of the harness itself (e.g. inside a simulated device).
void point();
// Orders the harness's own bookkeeping: logical time of the execution.
uint64_t tick();
}  // namespace sched
