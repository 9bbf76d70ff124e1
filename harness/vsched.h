// Deterministic cooperative scheduler: the real pfi::concurrent / pfi::network
// code runs on fibers; every pthread/time call it makes is interposed, so the
// interleaving is decided here, by a chooser (bounded DFS or seeded random).
#ifndef VERIF_SCHED_H
#define VERIF_SCHED_H
#include <stdint.h>
#include <stddef.h>
#include <string>

namespace sched {

enum { MAXF = 24 };

// --- choosing -------------------------------------------------------------
struct chooser {
  virtual ~chooser() {}
  // pick in [0,n); 'kind' says what is chosen (see enum choice)
  virtual int pick(int n, int kind) = 0;
  // scheduling point: cur enabled? enabled fibers e[0..n). returns index in e.
  virtual int next(const int* e, int n, int cur_idx, int kind) = 0;
};
enum choice { C_SCHED, C_SIGNAL, C_TIMEOUT, C_SPURIOUS, C_FAULT, C_USER };
// kinds of scheduling points
enum point { P_SYNC, P_ACCESS, P_IO, P_YIELD };

struct random_chooser;
struct dfs_chooser;
chooser* make_random(uint64_t seed, double p_access);
// dfs: call dfs_more() after each run to advance
chooser* make_dfs(int preemption_bound);
bool dfs_next(chooser*);           // prepare the next branch; false when done

// --- execution ------------------------------------------------------------
struct options {
  bool timeouts;      // may timed waits expire although others can run
  int spurious;       // budget of spurious condition wakeups
  int create_fail;    // fail the k-th pthread_create (1-based), 0: never
  int sleep_eintr;    // budget of interrupted sleeps
  int epoch;          // microseconds of the wall clock's second at the start
  uint64_t max_steps; // livelock bound
  options() : timeouts(true), spurious(0), create_fail(0), sleep_eintr(0), epoch(0), max_steps(200000) {}
};
enum outcome { DONE = 0, QUIESCENT = 1, LIVELOCK = 2 };

typedef void (*body_t)(void*);
// Runs body as fiber 0 until every fiber ends (DONE), no fiber can ever run
// again (QUIESCENT), or the step bound is hit (LIVELOCK).
outcome run(body_t body, void* arg, chooser* ch, const options& opt);

bool active();                 // inside a controlled execution?
int self();                    // fiber index
int tag(int fiber);            // user tag of a fiber (see set_tag)
void set_tag(int t);           // tag the current fiber
double now();                  // virtual seconds since the start of the run
int64_t now_us();              // virtual microseconds
bool fiber_blocked(int f);     // after run(): fiber still alive (blocked)?
int fiber_count();
int live_threads();            // created threads that have not ended
int unreleased();              // after run(): created threads neither joined nor detached
void yield(int kind = P_YIELD);
int choose(int n, int kind = C_USER);
int spawn(body_t body, void* arg);  // harness-level thread
// blocking on an arbitrary condition (used by simnet)
typedef bool (*cond_t)(void*);
// false if the deadline (virtual us, <0: none) passed first
bool block_on(cond_t c, void* arg, int64_t deadline_us);
uint64_t rnd();                // harness randomness, driven by the chooser seed

// --- log ------------------------------------------------------------------
void log_reset();
void log_raw(const std::string& json_event);   // appends one event
const std::string& log_str();                  // "ev,ev,ev"
int log_events();

struct guard { bool was; guard(); ~guard(); };  // suppress access yields
extern uint64_t total_steps;
void fatal(const char* msg) __attribute__((noreturn));
}
#endif
