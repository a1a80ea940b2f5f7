#include "sim.h"

#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <link.h>
#include <pthread.h>
#include <signal.h>
#include <stdarg.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <time.h>
#include <ucontext.h>
#include <unistd.h>

#include <algorithm>
#include <exception>
#include <unordered_set>

#include "internal.h"

namespace sim {

Shared* g_sh = nullptr;
bool g_in_sut = false;

namespace {

struct Xoshiro {
  uint64_t s[4];
  void seed(uint64_t x) {
    for (auto& v : s) {
      x += 0x9e3779b97f4a7c15ull;
      uint64_t z = x;
      z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
      z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
      v = z ^ (z >> 31);
    }
  }
  static uint64_t rotl(uint64_t x, int k) { return (x << k) | (x >> (64 - k)); }
  uint64_t next() {
    uint64_t r = rotl(s[1] * 5, 7) * 9, t = s[1] << 17;
    s[2] ^= s[0];
    s[3] ^= s[1];
    s[1] ^= s[2];
    s[0] ^= s[3];
    s[2] ^= t;
    s[3] = rotl(s[3], 45);
    return r;
  }
};

Xoshiro g_rng;
bool g_replay = false;
std::vector<uint32_t> g_replay_values;
bool g_trace = false;  // keep the event log as text
int g_size_class = 0;

uint64_t g_steps = 0;           // basic blocks executed by code under test
uint64_t g_next_event = ~0ull;  // step count at which to enter slow_event()
uint64_t g_budget_end = ~0ull;
const char* g_what = "";
uintptr_t g_prev_pc = 0;

std::vector<Scenario>& scenarios() {
  static auto* v = new std::vector<Scenario>;
  return *v;
}

// ---- thread-local storage of the executable, one image per fiber -----------
size_t g_tls_size = 0;
uint8_t* tls_begin() {
  uint8_t* tp;
  asm("mov %%fs:0, %0" : "=r"(tp));
  return tp - g_tls_size;
}
std::vector<uint8_t>* g_tls_initial = nullptr;
int find_tls(struct dl_phdr_info* info, size_t, void*) {
  if (info->dlpi_name && info->dlpi_name[0]) return 0;  // executable only
  for (int i = 0; i < info->dlpi_phnum; ++i) {
    if (info->dlpi_phdr[i].p_type == PT_TLS) {
      size_t a = info->dlpi_phdr[i].p_align;
      g_tls_size = (info->dlpi_phdr[i].p_memsz + a - 1) / a * a;
    }
  }
  return 1;
}

// ---- fibers -------------------------------------------------------------------
constexpr size_t kStack = 8u << 20;
struct Fiber {
  ucontext_t ctx;
  void* stack = nullptr;
  std::function<void()> fn;
  const char* what = "";
  std::vector<uint8_t> tls;
  bool done = false;
  End end = End::kDone;
  int exit_code = 0;
  int index = 0;
};
ucontext_t g_main_ctx;
Fiber* g_fiber = nullptr;
bool g_interleaving = false;
bool g_preempt_wanted = false;
uint64_t g_generation = 1;

void fiber_main(unsigned lo, unsigned hi) {
  Fiber* f = reinterpret_cast<Fiber*>((uintptr_t(hi) << 32) | lo);
  g_in_sut = true;
  try {
    f->fn();
  } catch (const std::exception& e) {
    g_in_sut = false;
    violation("crash.exception", "%s: uncaught exception: %s", f->what, e.what());
  } catch (...) {
    g_in_sut = false;
    violation("crash.exception", "%s: uncaught exception", f->what);
  }
  g_in_sut = false;
  f->done = true;
  f->end = End::kDone;
  setcontext(&g_main_ctx);
}

Fiber* make_fiber(const char* what, const std::function<void()>& fn) {
  Fiber* f = new Fiber;
  f->stack = mmap(nullptr, kStack, PROT_READ | PROT_WRITE,
                  MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (f->stack == MAP_FAILED) harness_error("no memory for a fiber stack");
  mprotect(f->stack, 4096, PROT_NONE);
  f->fn = fn;
  f->what = what;
  f->tls = *g_tls_initial;
  getcontext(&f->ctx);
  f->ctx.uc_stack.ss_sp = f->stack;
  f->ctx.uc_stack.ss_size = kStack;
  f->ctx.uc_link = nullptr;
  uintptr_t p = reinterpret_cast<uintptr_t>(f);
  makecontext(&f->ctx, reinterpret_cast<void (*)()>(fiber_main), 2, unsigned(p),
              unsigned(p >> 32));
  return f;
}

void resume(Fiber* f) {
  static std::vector<uint8_t>* mine = new std::vector<uint8_t>;
  Fiber* prev = g_fiber;
  const char* prev_what = g_what;
  g_fiber = f;
  g_what = f->what;
  if (g_tls_size) {
    mine->assign(tls_begin(), tls_begin() + g_tls_size);
    memcpy(tls_begin(), f->tls.data(), g_tls_size);
  }
  bool fiber_in_sut = false;
  (void)fiber_in_sut;
  swapcontext(&g_main_ctx, &f->ctx);
  g_in_sut = false;
  if (g_tls_size) {
    memcpy(f->tls.data(), tls_begin(), g_tls_size);
    memcpy(tls_begin(), mine->data(), g_tls_size);
  }
  g_fiber = prev;
  g_what = prev_what;
}

void switch_to_main() {
  Fiber* f = g_fiber;
  bool was = g_in_sut;
  g_in_sut = false;
  swapcontext(&f->ctx, &g_main_ctx);
  g_in_sut = was;
}

void slow_event() {
  if (g_steps >= g_budget_end) {
    g_in_sut = false;
    violation("hang", "%s did not finish within its step budget (%llu basic blocks so far)",
              g_what, (unsigned long long)g_steps);
  }
  if (g_interleaving && g_fiber) {
    switch_to_main();
  } else {
    g_next_event = g_budget_end;
  }
}

struct GuardRec {
  Fiber* owner;
};
std::map<uint64_t*, Fiber*>& guards() {
  static auto* m = new std::map<uint64_t*, Fiber*>;
  return *m;
}

// ---- crashes -------------------------------------------------------------------
char g_assert_msg[512];

void on_signal(int sig, siginfo_t* si, void*) {
  const char* name = sig == SIGSEGV   ? "SIGSEGV"
                     : sig == SIGBUS  ? "SIGBUS"
                     : sig == SIGFPE  ? "SIGFPE"
                     : sig == SIGILL  ? "SIGILL"
                     : sig == SIGABRT ? "SIGABRT"
                     : sig == SIGALRM ? "SIGALRM"
                                      : "signal";
  bool sut = g_in_sut;
  g_in_sut = false;
  if (sig == SIGALRM) {
    if (sut) violation("hang", "%s did not finish (wall clock)", g_what);
    harness_error("run did not finish (wall clock)");
  }
  if (!sut) harness_error("harness crashed with %s (during %s) %s", name, g_what, g_assert_msg);
  violation((std::string("crash.") + name).c_str(), "%s crashed with %s %s", g_what, name,
            g_assert_msg);
}

void install_handlers() {
  static uint8_t* alt = static_cast<uint8_t*>(
      mmap(nullptr, 1 << 18, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0));
  stack_t ss{};
  ss.ss_sp = alt;
  ss.ss_size = 1 << 18;
  sigaltstack(&ss, nullptr);
  struct sigaction sa {};
  sa.sa_sigaction = on_signal;
  sa.sa_flags = SA_SIGINFO | SA_ONSTACK | SA_NODEFER;
  for (int s : {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT, SIGALRM}) sigaction(s, &sa, nullptr);
}

}  // namespace

// ---- choices --------------------------------------------------------------------
uint32_t choose(uint32_t n, const char* label) {
  SutPause p;
  if (n == 0) harness_error("choose(0, %s)", label);
  uint32_t i = g_sh->nchoices;
  if (i >= kMaxChoices) harness_error("too many choices");
  uint32_t v;
  if (g_replay) {
    v = i < g_replay_values.size() ? g_replay_values[i] % n : 0;
  } else {
    v = n == 1 ? 0 : uint32_t(g_rng.next() % n);
  }
  g_sh->choices[i] = v;
  g_sh->choice_n[i] = n;
  g_sh->nchoices = i + 1;
  if (g_trace) fprintf(stderr, "  choice[%u] %s = %u of %u\n", i, label, v, n);
  return v;
}
bool flip(uint32_t num, uint32_t den, const char* label) {
  if (num == 0) return false;
  return choose(den, label) >= den - num;
}
int range(int lo, int hi, const char* label) {
  if (hi < lo) harness_error("range(%d, %d, %s)", lo, hi, label);
  return lo + int(choose(uint32_t(hi - lo) + 1, label));
}
int pick(const std::vector<int>& w, const char* label) {
  int total = 0;
  for (int x : w) total += x;
  int v = int(choose(uint32_t(total), label));
  for (size_t i = 0; i < w.size(); ++i) {
    if (v < w[i]) return int(i);
    v -= w[i];
  }
  return 0;
}
Rng data_rng(const char* label) { return Rng(choose(1u << 20, label)); }

// ---- log --------------------------------------------------------------------------
uint64_t hash_bytes(const void* p, size_t n, uint64_t h) {
  const uint8_t* b = static_cast<const uint8_t*>(p);
  for (size_t i = 0; i < n; ++i) h = (h ^ b[i]) * 0x100000001b3ull;
  return h;
}
void log(const char* fmt, ...) {
  SutPause p;
  char buf[2048];
  va_list ap;
  va_start(ap, fmt);
  int n = vsnprintf(buf, sizeof buf, fmt, ap);
  va_end(ap);
  if (n < 0) n = 0;
  n = std::min<int>(n, sizeof buf - 1);
  g_sh->loghash = hash_bytes(buf, n, g_sh->loghash * 31 + 7);
  g_sh->nevents++;
  if (g_trace) fprintf(stderr, "%s\n", buf);
}
std::string hex(const uint8_t* p, size_t n) {
  std::string r;
  char b[4];
  for (size_t i = 0; i < n && i < 64; ++i) {
    snprintf(b, sizeof b, "%02x", p[i]);
    r += b;
  }
  if (n > 64) r += "...";
  return r;
}

// ---- verdicts ----------------------------------------------------------------------
static void finish(const char* vclass, const char* msg, int code) {
  snprintf(g_sh->vclass, sizeof g_sh->vclass, "%s", vclass);
  snprintf(g_sh->message, sizeof g_sh->message, "%s", msg);
  g_sh->steps = g_steps;
  if (g_trace) fprintf(stderr, "%s: %s\n", vclass, msg);
  fflush(stderr);
  _exit(code);
}
void violation(const char* vclass, const char* fmt, ...) {
  g_in_sut = false;
  char buf[4000];
  va_list ap;
  va_start(ap, fmt);
  vsnprintf(buf, sizeof buf, fmt, ap);
  va_end(ap);
  std::string cls = vclass;
  finish(cls.c_str(), buf, kExitViolation);
  __builtin_unreachable();
}
void harness_error(const char* fmt, ...) {
  g_in_sut = false;
  char buf[4000];
  va_list ap;
  va_start(ap, fmt);
  vsnprintf(buf, sizeof buf, fmt, ap);
  va_end(ap);
  if (!g_sh) {
    fprintf(stderr, "harness error: %s\n", buf);
    _exit(2);
  }
  finish("harness", buf, kExitHarness);
  __builtin_unreachable();
}
void evaluated(uint64_t n) { g_sh->evaluations += n; }
void nontrivial() { g_sh->nontrivial = 1; }

int register_counter(const char* name, bool fault) {
  SutPause p;
  for (int i = 0; i < g_sh->ncounters; ++i) {
    if (!strcmp(g_sh->counters[i].name, name)) return i;
  }
  if (g_sh->ncounters >= kMaxCounters) harness_error("too many counters");
  auto& c = g_sh->counters[g_sh->ncounters];
  snprintf(c.name, sizeof c.name, "%s", name);
  c.fault = fault;
  return g_sh->ncounters++;
}
void bump(int c, uint64_t n) {
  g_sh->counters[c].value += n;
  if (g_trace && g_sh->counters[c].fault) fprintf(stderr, "  fault: %s\n", g_sh->counters[c].name);
}

int size_class() { return g_size_class; }
bool in_sut() { return g_in_sut; }
uint64_t total_steps() { return g_steps; }
uint64_t generation() { return g_generation; }
bool tracing() { return g_trace; }

// ---- running code under test ---------------------------------------------------------
RunResult run_sut(const char* what, const std::function<void()>& fn, uint64_t budget) {
  if (g_fiber) harness_error("nested run_sut");
  Fiber* f = make_fiber(what, fn);
  uint64_t start = g_steps;
  g_budget_end = g_steps + budget;
  g_next_event = g_budget_end;
  g_interleaving = false;
  resume(f);
  RunResult r;
  r.end = f->end;
  r.exit_code = f->exit_code;
  r.steps = g_steps - start;
  g_budget_end = g_next_event = ~0ull;
  if (f->end == End::kKilled || f->end == End::kExited) {
    ++g_generation;
    auto& g = guards();
    for (auto it = g.begin(); it != g.end();) {
      if (it->second == f) {
        *reinterpret_cast<uint8_t*>(it->first) = 0;
        it = g.erase(it);
      } else {
        ++it;
      }
    }
  }
  munmap(f->stack, kStack);
  f->stack = nullptr;
  f->fn = nullptr;
  delete f;
  return r;
}
void kill_process() {
  if (!g_fiber || g_interleaving) harness_error("kill outside run_sut");
  g_in_sut = false;
  g_fiber->end = End::kKilled;
  setcontext(&g_main_ctx);
  __builtin_unreachable();
}
void exit_process(int code) {
  if (!g_fiber) harness_error("exit(%d) outside code under test", code);
  g_in_sut = false;
  g_fiber->end = End::kExited;
  g_fiber->exit_code = code;
  setcontext(&g_main_ctx);
  __builtin_unreachable();
}
static int g_locks_held = 0;
bool critical_section() { return !guards().empty() || g_locks_held > 0; }
int current_job() { return g_fiber && g_interleaving ? g_fiber->index : -1; }
void yield_point() {
  if (g_interleaving && g_fiber && g_preempt_wanted) switch_to_main();
}

uint64_t run_interleaved(std::vector<Job>* jobs,
                         const std::function<Slice(const std::vector<int>&)>& next_slice,
                         uint64_t budget) {
  std::vector<Fiber*> fs;
  for (size_t i = 0; i < jobs->size(); ++i) {
    fs.push_back(make_fiber((*jobs)[i].what, (*jobs)[i].fn));
    fs.back()->index = int(i);
  }
  uint64_t switches = 0;
  g_interleaving = true;
  g_preempt_wanted = true;
  g_budget_end = g_steps + budget;
  for (;;) {
    std::vector<int> runnable;
    for (size_t i = 0; i < fs.size(); ++i) {
      if (!fs[i]->done) runnable.push_back(int(i));
    }
    if (runnable.empty()) break;
    Slice s = next_slice(runnable);
    if (s.job < 0) break;
    g_next_event = std::min(g_budget_end, g_steps + std::max<uint64_t>(1, s.steps));
    resume(fs[s.job]);
    ++switches;
    if (fs[s.job]->done) (*jobs)[s.job].done = true;
  }
  g_interleaving = false;
  g_preempt_wanted = false;
  g_budget_end = g_next_event = ~0ull;
  return switches;  // stacks of stalled jobs are left alone
}

}  // namespace sim

// ---- hooks called by instrumented code and the C++ runtime -----------------------------
extern "C" void __sanitizer_cov_trace_pc() {
  using namespace sim;
  if (!g_in_sut) return;
  uintptr_t pc = reinterpret_cast<uintptr_t>(__builtin_return_address(0));
  uintptr_t e = (pc * 0x9e3779b97f4a7c15ull) >> 48;
  g_sh->coverage[(e ^ (g_prev_pc >> 1)) & (kCoverage - 1)] = 1;
  g_prev_pc = e;
  if (++g_steps >= g_next_event) slow_event();
}

extern "C" int __cxa_guard_acquire(uint64_t* g) {
  using namespace sim;
  if (*reinterpret_cast<uint8_t*>(g)) return 0;
  for (;;) {
    auto& m = guards();
    auto it = m.find(g);
    if (it == m.end()) {
      m[g] = g_fiber;
      return 1;
    }
    if (it->second == g_fiber) {
      g_in_sut = false;
      violation("crash.recursive-init", "%s: recursive initialisation of a static", g_what);
    }
    // Another simulated thread is initialising it: wait for it.
    if (!g_interleaving) harness_error("static initialisation in progress elsewhere");
    switch_to_main();
    if (*reinterpret_cast<uint8_t*>(g)) return 0;
  }
}
extern "C" void __cxa_guard_release(uint64_t* g) {
  sim::guards().erase(g);
  *reinterpret_cast<uint8_t*>(g) = 1;
}
extern "C" void __cxa_guard_abort(uint64_t* g) { sim::guards().erase(g); }

// Locks: a job that would block lets the others run instead.
#define LOCK_REAL(name) \
  static auto real = reinterpret_cast<decltype(&name)>(dlsym(RTLD_NEXT, #name))
extern "C" int pthread_mutex_trylock(pthread_mutex_t* m) noexcept {
  LOCK_REAL(pthread_mutex_trylock);
  int r = real(m);
  if (r == 0 && sim::g_in_sut && sim::g_interleaving) ++sim::g_locks_held;
  return r;
}
extern "C" int pthread_mutex_lock(pthread_mutex_t* m) noexcept {
  LOCK_REAL(pthread_mutex_lock);
  if (!(sim::g_in_sut && sim::g_interleaving)) return real(m);
  for (;;) {
    int r = pthread_mutex_trylock(m);
    if (r != EBUSY) return r;
    sim::switch_to_main();
  }
}
extern "C" int pthread_mutex_unlock(pthread_mutex_t* m) noexcept {
  LOCK_REAL(pthread_mutex_unlock);
  if (sim::g_in_sut && sim::g_interleaving && sim::g_locks_held > 0) --sim::g_locks_held;
  return real(m);
}
extern "C" int pthread_once(pthread_once_t* once, void (*fn)()) {
  // 0: not run; 2: done (glibc's encoding); another value: in progress.
  if (*once == 2) return 0;
  while (sim::g_interleaving && *once == 0x51) sim::switch_to_main();
  if (*once == 2) return 0;
  *once = 0x51;
  if (sim::g_interleaving) ++sim::g_locks_held;
  try {
    fn();
  } catch (...) {
    *once = 0;
    if (sim::g_interleaving) --sim::g_locks_held;
    throw;
  }
  *once = 2;
  if (sim::g_interleaving) --sim::g_locks_held;
  return 0;
}

extern "C" void __assert_fail(const char* expr, const char* file, unsigned line,
                              const char* func) noexcept {
  const char* base = strrchr(file, '/');
  snprintf(sim::g_assert_msg, sizeof sim::g_assert_msg, "assertion failed: %s (%s:%u)", expr,
           base ? base + 1 : file, line);
  (void)func;
  raise(SIGABRT);
  _exit(99);
}
namespace std {
void __glibcxx_assert_fail(const char* file, int line, const char* function,
                           const char* condition) noexcept;
}
void std::__glibcxx_assert_fail(const char* file, int line, const char* function,
                                const char* condition) noexcept {
  const char* base = file ? strrchr(file, '/') : nullptr;
  snprintf(sim::g_assert_msg, sizeof sim::g_assert_msg,
           "container assertion failed: %s (%s:%d) in %.200s", condition ? condition : "?",
           base ? base + 1 : "?", line, function ? function : "?");
  raise(SIGABRT);
  _exit(99);
}

// ---- command line ------------------------------------------------------------------------
namespace sim {

void register_scenario(const Scenario& s) { scenarios().push_back(s); }

namespace {

void run_child(const std::string& prop) {
  install_handlers();
  reset_process_state();
  alarm(120);
  std::vector<Scenario*> mine;
  for (auto& s : scenarios()) {
    if (prop == s.property) mine.push_back(&s);
  }
  std::sort(mine.begin(), mine.end(), [](auto* a, auto* b) {
    return strcmp(a->name, b->name) < 0;
  });
  if (mine.empty()) harness_error("no scenario for %s", prop.c_str());
  std::vector<int> w;
  for (auto* s : mine) w.push_back(s->weight);
  int which = pick(w, "scenario");
  g_size_class = int(choose(10, "size"));
  set_hash_salt(0);
  set_heap_layout(0);
  log("scenario %s size %d", mine[which]->name, g_size_class);
  snprintf(g_sh->scenario, sizeof g_sh->scenario, "%s", mine[which]->name);
  g_what = "harness";
  mine[which]->fn();
  check_heap();
  g_sh->steps = g_steps;
  fflush(stderr);
  _exit(0);
}

struct Violation {
  uint64_t index;
  std::string cls, msg, scenario;
  std::vector<uint32_t> choices;
};

std::string json_str(const std::string& s) {
  std::string r = "\"";
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') {
      r += '\\';
      r += char(c);
    } else if (c < 32 || c > 126) {
      char b[8];
      snprintf(b, sizeof b, "\\u%04x", c);
      r += b;
    } else {
      r += char(c);
    }
  }
  return r + "\"";
}

int usage() {
  fprintf(stderr,
          "usage: sim run PROP SEED START STRIDE COUNT SECONDS OUT\n"
          "       sim replay PROP FILE [trace]\n");
  return 2;
}

void reset_run() {
  g_sh->nchoices = 0;
  g_sh->loghash = 0xcbf29ce484222325ull;
  g_sh->nevents = 0;
  g_sh->steps = 0;
  g_sh->nontrivial = 0;
  g_sh->vclass[0] = g_sh->message[0] = g_sh->scenario[0] = 0;
}

}  // namespace

int sim_main(int argc, char** argv) {
  int pers = personality(0xffffffff);
  if (pers != -1 && !(pers & ADDR_NO_RANDOMIZE) && !getenv("SIM_REEXEC")) {
    if (personality(pers | ADDR_NO_RANDOMIZE) != -1) {
      setenv("SIM_REEXEC", "1", 1);
      execv("/proc/self/exe", argv);
    }
  }
  g_sh = static_cast<Shared*>(mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE,
                                   MAP_SHARED | MAP_ANONYMOUS, -1, 0));
  if (g_sh == MAP_FAILED) {
    perror("mmap");
    return 2;
  }
  dl_iterate_phdr(find_tls, nullptr);
  g_tls_initial = new std::vector<uint8_t>(tls_begin(), tls_begin() + g_tls_size);

  if (argc >= 4 && std::string(argv[1]) == "replay") {
    std::string prop = argv[2];
    g_replay = true;
    g_trace = argc > 4;
    FILE* f = std::string(argv[3]) == "-" ? stdin : fopen(argv[3], "r");
    if (!f) return usage();
    unsigned v;
    while (fscanf(f, "%u", &v) == 1) g_replay_values.push_back(v);
    reset_run();
    fflush(stdout);
    pid_t pid = fork();
    if (pid == 0) run_child(prop);
    int st = 0;
    waitpid(pid, &st, 0);
    int code = WIFEXITED(st) ? WEXITSTATUS(st) : 128 + WTERMSIG(st);
    printf("{\"exit\": %d, \"class\": %s, \"message\": %s, \"scenario\": %s, \"hash\": \"%016llx\", "
           "\"steps\": %llu, \"choices\": [",
           code, json_str(g_sh->vclass).c_str(), json_str(g_sh->message).c_str(),
           json_str(g_sh->scenario).c_str(), (unsigned long long)g_sh->loghash,
           (unsigned long long)g_sh->steps);
    for (uint32_t i = 0; i < g_sh->nchoices; ++i) {
      printf("%s%u", i ? "," : "", g_sh->choices[i]);
    }
    printf("], \"ns\": [");
    for (uint32_t i = 0; i < g_sh->nchoices; ++i) {
      printf("%s%u", i ? "," : "", g_sh->choice_n[i]);
    }
    printf("]}\n");
    return 0;
  }
  if (argc != 9 || std::string(argv[1]) != "run") return usage();
  std::string prop = argv[2];
  uint64_t seed = strtoull(argv[3], nullptr, 10);
  uint64_t start = strtoull(argv[4], nullptr, 10), stride = strtoull(argv[5], nullptr, 10),
           count = strtoull(argv[6], nullptr, 10);
  double seconds = atof(argv[7]);
  timespec t0;
  clock_gettime(CLOCK_MONOTONIC, &t0);
  auto elapsed = [&] {
    timespec t;
    clock_gettime(CLOCK_MONOTONIC, &t);
    return double(t.tv_sec - t0.tv_sec) + 1e-9 * double(t.tv_nsec - t0.tv_nsec);
  };
  uint64_t runs = 0, nontriv = 0, steps = 0, events = 0, choices = 0;
  std::vector<Violation> violations;
  std::unordered_set<uint64_t> hashes;
  std::map<std::string, uint64_t> per_scenario;
  std::vector<std::pair<uint64_t, uint64_t>> index_hash;
  std::string harness_msg;
  for (uint64_t k = 0; k < count; ++k) {
    uint64_t index = start + k * stride;
    if (elapsed() > seconds) break;
    reset_run();
    uint64_t h = hash_bytes(prop.data(), prop.size());
    g_rng.seed(h ^ (seed * 0x9e3779b97f4a7c15ull) ^ (index * 0xd1342543de82ef95ull));
    pid_t pid = fork();
    if (pid < 0) {
      harness_msg = "fork failed";
      break;
    }
    if (pid == 0) run_child(prop);
    int st = 0;
    while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {
    }
    int code = WIFEXITED(st) ? WEXITSTATUS(st) : 128 + WTERMSIG(st);
    ++runs;
    steps += g_sh->steps;
    events += g_sh->nevents;
    choices += g_sh->nchoices;
    per_scenario[g_sh->scenario]++;
    index_hash.push_back({index, g_sh->loghash});
    if (code == 0) {
      if (g_sh->nontrivial) {
        ++nontriv;
        hashes.insert(g_sh->loghash);
      }
    } else if (code == kExitViolation) {
      ++nontriv;
      hashes.insert(g_sh->loghash);
      violations.push_back({index, g_sh->vclass, g_sh->message, g_sh->scenario,
                            std::vector<uint32_t>(g_sh->choices, g_sh->choices + g_sh->nchoices)});
      if (violations.size() >= 20) break;
    } else {
      harness_msg = code == kExitHarness ? std::string(g_sh->message)
                                         : "child ended with code " + std::to_string(code);
      harness_msg += " (run " + std::to_string(index) + ")";
      break;
    }
  }
  FILE* out = fopen(argv[8], "w");
  if (!out) return 2;
  uint64_t edges = 0;
  for (size_t i = 0; i < kCoverage; ++i) edges += g_sh->coverage[i];
  fprintf(out,
          "{\"runs\": %llu, \"nontrivial\": %llu, \"evaluations\": %llu, \"steps\": %llu, \"events\": "
          "%llu, \"choices\": %llu, \"wall\": %.3f, \"edges\": %llu, \"harness_error\": %s",
          (unsigned long long)runs, (unsigned long long)nontriv,
          (unsigned long long)g_sh->evaluations, (unsigned long long)steps,
          (unsigned long long)events, (unsigned long long)choices, elapsed(),
          (unsigned long long)edges, json_str(harness_msg).c_str());
  fprintf(out, ", \"scenarios\": {");
  bool first = true;
  for (auto& n : per_scenario) {
    fprintf(out, "%s%s: %llu", first ? "" : ", ", json_str(n.first).c_str(),
            (unsigned long long)n.second);
    first = false;
  }
  fprintf(out, "}, \"counters\": {");
  for (int i = 0; i < g_sh->ncounters; ++i) {
    fprintf(out, "%s%s: [%d, %llu]", i ? ", " : "", json_str(g_sh->counters[i].name).c_str(),
            int(g_sh->counters[i].fault), (unsigned long long)g_sh->counters[i].value);
  }
  fprintf(out, "}, \"violations\": [");
  for (size_t i = 0; i < violations.size(); ++i) {
    auto& v = violations[i];
    fprintf(out, "%s{\"index\": %llu, \"class\": %s, \"message\": %s, \"scenario\": %s, \"choices\": [",
            i ? ", " : "", (unsigned long long)v.index, json_str(v.cls).c_str(),
            json_str(v.msg).c_str(), json_str(v.scenario).c_str());
    for (size_t j = 0; j < v.choices.size(); ++j) {
      fprintf(out, "%s%u", j ? "," : "", v.choices[j]);
    }
    fprintf(out, "]}");
  }
  fprintf(out, "]}\n");
  fclose(out);
  FILE* hf = fopen((std::string(argv[8]) + ".hashes").c_str(), "wb");
  if (!hf) return 2;
  for (auto& ih : index_hash) {
    fwrite(&ih.first, 8, 1, hf);
    fwrite(&ih.second, 8, 1, hf);
  }
  fclose(hf);
  FILE* cf = fopen((std::string(argv[8]) + ".cov").c_str(), "wb");
  if (!cf) return 2;
  fwrite(g_sh->coverage, 1, kCoverage, cf);
  fclose(cf);
  return harness_msg.empty() ? 0 : 2;
}

}  // namespace sim

int main(int argc, char** argv) { return sim::sim_main(argc, argv); }
