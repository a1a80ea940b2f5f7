// Deterministic simulation engine: choices, runs, fibers, steps, crashes.
//
// One run of one scenario is a pure function of its choice sequence.  In
// search mode the sequence comes from a PRNG seeded by (VERIF_SEED, property,
// run index); in replay mode it is read from a file (values past the end are
// 0, the simplest choice).  Every run executes in a freshly forked process.
#ifndef VERIF_SIM_H
#define VERIF_SIM_H

#include <cstdint>
#include <cstdio>
#include <functional>
#include <map>
#include <string>
#include <utility>
#include <vector>

namespace sim {

// ---- choices -------------------------------------------------------------
// A value in [0, n).  0 is by convention the simplest alternative.
uint32_t choose(uint32_t n, const char* label);
// True with probability num/den; false is the simplest alternative.
bool flip(uint32_t num, uint32_t den, const char* label);
// In [lo, hi], lo simplest.
int range(int lo, int hi, const char* label);
// Weighted alternative; weights[0] is the simplest.
int pick(const std::vector<int>& weights, const char* label);
// A chosen seed for bulk data, and the generator it drives.
struct Rng {
  uint64_t s;
  explicit Rng(uint64_t seed) : s(seed * 0x9e3779b97f4a7c15ull + 0x1234567) {}
  uint64_t next() {
    uint64_t z = (s += 0x9e3779b97f4a7c15ull);
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
  }
  uint32_t below(uint32_t n) { return n ? uint32_t(next() % n) : 0; }
};
Rng data_rng(const char* label);

// ---- event log (hashed always, stored when tracing) ------------------------
void log(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
uint64_t hash_bytes(const void* p, size_t n, uint64_t h = 0xcbf29ce484222325ull);

// ---- verdicts --------------------------------------------------------------
// Record a violation and end the run.  `vclass` identifies the kind of
// violation (kept the same while minimising).
[[noreturn]] void violation(const char* vclass, const char* fmt, ...)
    __attribute__((format(printf, 2, 3)));
// The harness itself is broken: error exit, never a violation.
[[noreturn]] void harness_error(const char* fmt, ...)
    __attribute__((format(printf, 1, 2)));
// Count an oracle evaluation.
void evaluated(uint64_t n = 1);
// This run exercised the property (not vacuous).
void nontrivial();

// ---- probes and fault counters ---------------------------------------------
int register_counter(const char* name, bool fault);
void bump(int counter, uint64_t n = 1);
#define SIM_PROBE(name)                                          \
  do {                                                           \
    static const int c_ = ::sim::register_counter(name, false);  \
    ::sim::bump(c_);                                             \
  } while (0)
#define SIM_FAULT(name)                                         \
  do {                                                          \
    static const int c_ = ::sim::register_counter(name, true);  \
    ::sim::bump(c_);                                            \
  } while (0)

// ---- running code under test -----------------------------------------------
enum class End { kDone, kKilled, kExited };
struct RunResult {
  End end;
  int exit_code = 0;
  uint64_t steps = 0;
};
// Run `fn` as the code under test on its own stack.  A hard crash, an
// assertion failure, an escaped exception or exceeding `budget` basic blocks is
// a violation of the property being checked.  A simulated process kill ends it
// with kKilled; a call to exit() with kExited.
RunResult run_sut(const char* what, const std::function<void()>& fn,
                  uint64_t budget = 200'000'000);
// Called from inside simulated calls: kill the simulated process now.
[[noreturn]] void kill_process();
bool in_sut();
uint64_t total_steps();

// Several independent jobs, interleaved.  `next_slice` chooses which of the
// runnable jobs (indices) runs next and for how many basic blocks.
struct Job {
  const char* what;
  std::function<void()> fn;
  bool done = false;
};
struct Slice {
  int job;
  uint64_t steps;
};
// Returns the number of context switches made.  A slice with job == -1 ends
// the schedule: remaining jobs stay suspended for ever (stalled).
uint64_t run_interleaved(std::vector<Job>* jobs,
                         const std::function<Slice(const std::vector<int>&)>& next_slice,
                         uint64_t budget = 200'000'000);
// Give the scheduler a chance to switch (from inside simulated I/O).
void yield_point();
// A job is in the middle of initialising a static object or holds a lock.
bool critical_section();
// Index of the job that is running now, or -1.
int current_job();

// ---- memory ------------------------------------------------------------------
// Choose hash salt / heap layout variant used from now on.
void set_hash_salt(uint32_t salt);
void set_heap_layout(int variant);
// Verify canaries of all live blocks; violation on corruption.
void check_heap();

// ---- scenarios ----------------------------------------------------------------
struct Scenario {
  const char* property;
  const char* name;
  void (*fn)();
  int weight;
};
void register_scenario(const Scenario& s);
struct Registrar {
  Registrar(const char* p, const char* n, void (*fn)(), int w = 1) {
    register_scenario({p, n, fn, w});
  }
};
#define SIM_SCENARIO(prop, name, weight)                        \
  static void scenario_##prop##_##name();                       \
  static ::sim::Registrar registrar_##prop##_##name(            \
      #prop, #name, &scenario_##prop##_##name, weight);         \
  static void scenario_##prop##_##name()

// Size of this run, 0 (small) .. 9; a choice like any other.
int size_class();

std::string hex(const uint8_t* p, size_t n);

}  // namespace sim
#endif
