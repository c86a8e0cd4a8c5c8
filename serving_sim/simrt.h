// Deterministic runtime of the serving simulator: cooperative threads of which one runs at a
// time, virtual clock, simulated mutexes, happens-before race and use-after-free detection.
#pragma once
#include <cstdint>
#include <functional>
#include <map>
#include <string>
#include <vector>

namespace sim {
struct Abort {};  // unwinds a simulated thread when its run is over

struct Options {
  uint64_t seed = 1;
  double switch_p = 0.5;     // probability of a switch at a yield point
  int64_t epoch_ms = 1600000000000LL;
  int64_t max_steps = 2000000;
  bool races = true;         // look at every memory access
};

void begin(const Options& o);          // the calling thread becomes simulated thread 0
void end();                            // every other simulated thread has to be finished
extern std::map<std::string, std::string> io_faults;  // base name -> vanish | eio | short
bool active();                         // called from a simulated thread of a run
int spawn(const std::string& name, std::function<void()> fn);
void join(int id);
void yield(const char* what);
void sleep_ms(int64_t ms);
// blocks until pred() (evaluated by the scheduler) or the deadline; true if pred held
bool wait_until(const std::function<bool()>& pred, int64_t deadline_us = -1);
int64_t now_us();
void jump_clock_ms(int64_t ms);        // wall clock only
uint64_t draw();                       // the run's random stream
void hb_release(const void* obj);      // happens-before edges
void hb_acquire(const void* obj);
void hb_reset();                       // forget everything but the own past
struct Quiet {                         // no interception in this scope (simulator's own code)
  Quiet();
  ~Quiet();
};
int self();
int64_t steps();
int64_t switches();
void violation(const std::string& cls, const std::string& msg);  // first one wins
void fatal(const std::string& cls, const std::string& msg);      // the process would end here
extern std::function<void(const std::string&, const std::string&)> on_fatal;
bool have_violation(std::string* cls, std::string* msg);
extern int64_t n_io_faults, n_accesses, n_mutex, n_tasks, n_allocs;
}  // namespace sim
