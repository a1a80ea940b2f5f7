// Simulated disk.  While code under test runs, every file call of the process
// goes here (never to the real file system).
#ifndef VERIF_SIM_FS_H
#define VERIF_SIM_FS_H

#include <cstdint>
#include <functional>
#include <map>
#include <set>
#include <string>
#include <vector>

namespace sim::fs {

using Bytes = std::vector<uint8_t>;

struct Policy {
  // Which I/O call fails: none, exactly the n-th one (counted from when the
  // policy is set), or each with probability 1/rate_den.
  enum Mode { kNone, kSingle, kRate } mode = kNone;
  int single_at = 0;
  int rate_den = 16;
  int max_faults = 1000;
  bool short_io = false;   // short reads and writes (legal, not failures)
  bool errors = true;      // calls may fail
  bool kills = false;      // the process may be killed
  bool external = false;   // another process truncates/extends files being read
  // Only calls on this path are disturbed; empty means all.
  std::string only_path;
};

void reset();
void set_policy(const Policy& p);
// A policy drawn from the choice sequence.  `calls` is roughly how many I/O
// calls the operation makes.
Policy choose_policy(bool errors, bool kills, bool external, int calls);

void put(const std::string& path, const Bytes& b);
bool exists(const std::string& path);
Bytes get(const std::string& path);
void erase(const std::string& path);
std::vector<std::string> list();

// Since the last clear_marks():
void clear_marks();
int open_handles();                    // open files of the live process
int errors_injected();                 // calls that were made to fail
int hard_errors_injected();            // of those, the ones other than EINTR
int shorts_injected();
bool external_change();                // a file was changed by "another process"
uint64_t io_calls();
const std::set<std::string>& mutated();  // paths created/written/removed
// Content `path` has had since clear_marks(), oldest first.
std::vector<Bytes> versions(const std::string& path);
// Called just before code under test first modifies the disk (any path).
void on_first_mutation(std::function<void(const std::string&)> f);

// Capture what the code under test prints (fds 1 and 2) around a run.  With
// `room', what is beyond that many bytes cannot be written to fd 1.
void begin_capture(long room = -1);
std::string end_capture();

// What reads of descriptor 0 and writes to 1 and 2 by code under test do.
void set_terminal(std::function<ssize_t(char*, size_t)> in, std::function<ssize_t(const char*, size_t)> out);

// Faults of one job, fixed beforehand (the n-th call of the job fails with the
// given errno), so that a job meets the same faults however it is scheduled.
struct JobPlan {
  std::map<int, int> errors;  // call number -> errno
  int calls = 0;
};
void set_job_plan(int job, const JobPlan& p);
void clear_job_plans();
// Outside an interleaving: the job on whose behalf calls are made (-1: none).
void set_solo_job(int job);

}  // namespace sim::fs
#endif
