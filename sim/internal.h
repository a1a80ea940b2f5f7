#ifndef VERIF_SIM_INTERNAL_H
#define VERIF_SIM_INTERNAL_H
#include <cstddef>
#include <cstdint>

namespace sim {

constexpr uint32_t kMaxChoices = 1u << 17;
constexpr int kMaxCounters = 192;
constexpr size_t kCoverage = 1u << 16;
constexpr int kExitViolation = 10, kExitHarness = 11;

struct Shared {
  uint32_t nchoices;
  uint32_t choices[kMaxChoices];
  uint32_t choice_n[kMaxChoices];
  uint64_t loghash, nevents, steps, evaluations;
  int nontrivial;
  char vclass[128], message[4096], scenario[64];
  int ncounters;
  struct {
    char name[56];
    bool fault;
    uint64_t value;
  } counters[kMaxCounters];
  uint8_t coverage[kCoverage];
};
extern Shared* g_sh;
extern bool g_in_sut;

// Leaves "code under test" mode while simulator code runs.
struct SutPause {
  bool was;
  SutPause() : was(g_in_sut) { g_in_sut = false; }
  ~SutPause() { g_in_sut = was; }
};

[[noreturn]] void exit_process(int code);
uint64_t generation();  // number of the current simulated process
void reset_process_state();
bool tracing();

}  // namespace sim
#endif
