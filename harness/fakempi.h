// A deterministic MPI for the harnesses: ranks are coroutines of one process, the scheduler owns every
// source of nondeterminism (which rank runs, when a message is copied out of the send buffer, when it
// arrives, whether a blocking send is buffered, how early a rank leaves a rooted collective).
#pragma once
#include <functional>
#include <string>
#include <vector>
#include "common.h"

namespace fm {
enum class Pol { Rand, Dfs, Script, Fast, Slow };
struct Config {
  int P = 1;
  uint64_t seed = 1;
  int policy = 0;           // 0 uniform random, 1 deliveries late, 2 deliveries early, 3 priority (PCT-like), 4 choice list
  std::vector<int> choices; // policy 4: index chosen at each choice point (0 beyond the end)
  bool coarse = false;      // choices only among deliveries, once every rank is blocked
  bool trace_msgs = false;  // emit message events
  bool allow_eager = true;  // random buffering decisions
  long max_steps = 4000000;
  std::vector<std::string>* log = nullptr; 
};
struct Result {
  bool ok = true;
  std::string why;          // deadlock, collective mismatch, ...
  std::string detail;
  long steps = 0;
  std::vector<int> taken, width;   // choices taken and number of alternatives (policy 4)
  int leftover_msgs = 0, leftover_recvs = 0, pending_sends = 0, dangling = 0;
};
// Runs body(rank) on P coroutine ranks.
Result run(const Config& c, std::function<void(int)> body);
int rank();                 // current rank (0 outside run)
extern std::function<void(const vh::J&)> on_event;
}
