// Bounded exhaustive explorer. A check is a set of scenarios; a scenario is a function that asks
// choose(n) for every nondeterministic decision (operation, argument, environment answer, thread to
// run) and calls fail() when the property is broken. The driver enumerates every decision sequence
// depth first, spread over worker processes, and replays each violation in a fresh process before it
// reports it. A crash, abort or hang of the code under test inside an execution is a violation too.
#pragma once
#include <cstdarg>
#include <cstdint>
#include <functional>
#include <string>
#include <vector>

namespace mc {

struct Violation {
  std::string key;   // stable identification: what fails, without run-specific detail
  std::string what;  // human readable
};
struct Prune {};  // thrown by skip(): this decision sequence is not part of the space

class Ctx {
 public:
  virtual ~Ctx() = default;
  virtual size_t choose(size_t n, const char* label = "") = 0;
  bool flip(const char* label = "") { return choose(2, label) == 1; }
  // Counts one operation executed on the code under test and adds it to the trace.
  virtual void op(const char* fmt, ...) __attribute__((format(printf, 2, 3))) = 0;
  // Records a reached state (hash of a canonical form) for the coverage statement.
  virtual void state(uint64_t h) = 0;
  void state(const std::string& s) { state(std::hash<std::string>()(s)); }
  [[noreturn]] virtual void fail(const std::string& key, const std::string& what) = 0;
  // True if this state (hash of everything that determines the future) was already explored from here
  // with at least `remaining` steps left: the caller then skips the rest of the path.
  virtual bool revisit(uint64_t h, int remaining) = 0;
  [[noreturn]] void skip() { throw Prune(); }
  void check(bool ok, const std::string& key, const std::string& what) {
    if (!ok) fail(key, what);
  }
  virtual bool thorough() const = 0;
  virtual bool replaying() const = 0;
};

struct Scenario {
  std::string name;
  std::function<void(Ctx&)> body;
  int shard_depth = 2;       // decisions (after the scenario) used to spread work over processes
  double exec_timeout = 30;  // seconds for one execution before it counts as a hang
};

struct Options {
  std::function<void()> worker_init;  // run once in each worker process
  std::string rule;                   // what the space is, for the evidence file
  std::vector<std::string> assumptions;
};

// Parses the command line, explores, writes the evidence part, returns the exit code.
int run(int argc, char** argv, const std::vector<Scenario>& scenarios, const Options& opts);

inline uint64_t mix(uint64_t h, uint64_t v) {
  h ^= v + 0x9e3779b97f4a7c15ULL + (h << 6) + (h >> 2);
  return h * 0xff51afd7ed558ccdULL;
}
std::string strf(const char* fmt, ...) __attribute__((format(printf, 1, 2)));

}  // namespace mc
