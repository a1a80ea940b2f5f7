// Runs independent jobs alone and then interleaved, and compares what each saw.
#ifndef VERIF_JOBS_H
#define VERIF_JOBS_H

#include <cerrno>
#include <cstdio>
#include <functional>
#include <string>
#include <vector>

#include "sim/fs.h"
#include "sim/sim.h"

namespace jobs {

struct Job {
  std::function<void()> prepare;             // puts its files in place
  std::function<void(std::string*)> run;     // code under test
  std::function<void(std::string*)> finish;  // what it left behind
};

inline void digest(std::string* log, const char* what, const void* p, size_t n) {
  char b[80];
  snprintf(b, sizeof b, "%s %zu bytes %016llx\n", what, n,
           (unsigned long long)sim::hash_bytes(p, n));
  *log += b;
}

inline void compare(std::vector<Job>& js) {
  namespace fs = sim::fs;
  int n = int(js.size());
  std::vector<fs::JobPlan> plans;
  for (int i = 0; i < n; ++i) {
    fs::JobPlan p;
    if (sim::flip(1, 3, "job-faults")) {
      static const int kErr[] = {EIO, EINTR, ENOSPC, EACCES};
      int k = 1 + int(sim::choose(2, "job-fault-count"));
      for (int q = 0; q < k; ++q) {
        p.errors[int(sim::choose(10, "job-fault-at"))] = kErr[sim::choose(4, "job-errno")];
      }
    }
    plans.push_back(p);
  }
  // Alone.
  std::vector<std::string> alone(static_cast<size_t>(n));
  auto solo = [&](int i, std::string* log) {
    if (js[size_t(i)].prepare) js[size_t(i)].prepare();
    fs::clear_job_plans();
    fs::set_job_plan(i, plans[size_t(i)]);
    fs::set_solo_job(i);
    sim::run_sut("a job alone", [&] { js[size_t(i)].run(log); });
    if (js[size_t(i)].finish) js[size_t(i)].finish(log);
    fs::clear_job_plans();
  };
  bool cold = sim::flip(1, 2, "cold-start");  // interleave before anything was initialised
  auto all_alone = [&] {
    for (int i = 0; i < n; ++i) {
      solo(i, &alone[size_t(i)]);
      sim::log("job %d alone: %016llx", i,
               (unsigned long long)sim::hash_bytes(alone[size_t(i)].data(), alone[size_t(i)].size()));
    }
  };
  if (!cold) all_alone();
  // Interleaved.
  std::vector<std::string> together(static_cast<size_t>(n));
  std::vector<sim::Job> sj;
  for (int i = 0; i < n; ++i) {
    if (js[size_t(i)].prepare) js[size_t(i)].prepare();
    fs::set_job_plan(i, plans[size_t(i)]);
    sim::Job j;
    j.what = "an interleaved job";
    j.fn = [&js, &together, i] { js[size_t(i)].run(&together[size_t(i)]); };
    sj.push_back(j);
  }
  int stalled = sim::flip(1, 4, "stall") ? int(sim::choose(uint32_t(n), "stalled-job")) : -1;
  int stall_after = int(sim::choose(60, "stall-after"));
  int style = int(sim::choose(3, "slice-style"));
  int slices = 0;
  bool is_stalled = false;
  uint64_t switches = sim::run_interleaved(&sj, [&](const std::vector<int>& runnable) {
    ++slices;
    std::vector<int> r = runnable;
    if (stalled >= 0 && !is_stalled && slices > stall_after && !sim::critical_section()) {
      is_stalled = true;
      SIM_FAULT("job stalled for ever");
    }
    if (is_stalled) {
      r.clear();
      for (int x : runnable) {
        if (x != stalled) r.push_back(x);
      }
      if (r.empty()) return sim::Slice{-1, 0};
    }
    // Fine slices for as long as the choices last, then coarse ones.
    uint64_t len;
    if (slices < 4000) {
      static const uint32_t kMax[] = {40, 400, 8000};
      len = 1 + sim::choose(kMax[style], "slice");
      return sim::Slice{r[sim::choose(uint32_t(r.size()), "job")], len};
    }
    len = 20000;
    return sim::Slice{r[size_t(slices) % r.size()], len};
  });
  fs::clear_job_plans();
  static const int kSwitches = sim::register_counter("context switches", false);
  sim::bump(kSwitches, switches);
  for (int i = 0; i < n; ++i) {
    if (sj[size_t(i)].done && js[size_t(i)].finish) js[size_t(i)].finish(&together[size_t(i)]);
  }
  if (cold) all_alone();
  sim::nontrivial();
  for (int i = 0; i < n; ++i) {
    if (!sj[size_t(i)].done) continue;
    sim::evaluated();
    if (together[size_t(i)] != alone[size_t(i)]) {
      // First differing line.
      const std::string &a = alone[size_t(i)], &b = together[size_t(i)];
      size_t k = 0;
      while (k < a.size() && k < b.size() && a[k] == b[k]) ++k;
      size_t s = a.rfind('\n', k ? k - 1 : 0);
      s = s == std::string::npos || s > k ? 0 : s + 1;
      sim::violation("R08.interference", "job %d alone: `%.200s', interleaved: `%.200s'", i,
                     a.substr(s, a.find('\n', k) - s).c_str(), b.substr(s, b.find('\n', k) - s).c_str());
    }
  }
  // The survivors' results do not depend on the stalled one either: repeat alone.
  if (is_stalled) {
    for (int i = 0; i < n; ++i) {
      if (i == stalled) continue;
      std::string again;
      solo(i, &again);
      sim::evaluated();
      if (again != alone[size_t(i)]) {
        sim::violation("R08.after-stall", "job %d behaves differently after another job stalled", i);
      }
    }
  }
}

}  // namespace jobs
#endif
