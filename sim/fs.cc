#include "fs.h"

#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <poll.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/ioctl.h>
#include <sys/mman.h>
#include <sys/random.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/uio.h>
#include <time.h>
#include <unistd.h>

#include <stdio_ext.h>

#include <algorithm>
#include <iostream>
#include <map>
#include <memory>

#include "internal.h"
#include "sim.h"

namespace sim::fs {
namespace {

struct Inode {
  Bytes data;
  std::vector<Bytes> versions;  // contents before external changes
};
using InodeP = std::shared_ptr<Inode>;

struct OpenFile {
  InodeP inode;
  std::string path;
  int64_t off = 0;
  int flags = 0;
  uint64_t gen = 0;
  size_t last_write_at = 0;
  int pending_error = 0;  // of a write that was cut short
};

struct State {
  std::map<std::string, InodeP> files;
  std::map<int, OpenFile> fds;
  std::map<FILE*, int> file_fd;
  std::map<int, JobPlan> plans;
  int solo_job = -1;
  Policy policy;
  int next_fd = 100000;
  int policy_calls = 0;
  int policy_faults = 0;
  int shorts = 0;
  int errors = 0;
  int hard_errors = 0;
  bool external = false;
  uint64_t calls = 0;
  std::set<std::string> mutated;
  std::function<void(const std::string&)> first_mutation;
};
State* S = nullptr;
State& st() {
  if (!S) S = new State;
  return *S;
}

enum Op { kOpenR, kOpenW, kRead, kWrite, kSeek, kStat, kClose, kMeta };

struct Fault {
  int err = 0;           // fail with this errno
  int64_t limit = -1;    // transfer at most this much first
  bool kill_before = false, kill_after = false;
};

Policy& cur_policy() {
  return st().policy;
}

const char* op_name(Op op) {
  static const char* n[] = {"open-read", "open-write", "read", "write",
                            "seek",      "stat",       "close", "meta"};
  return n[op];
}

void count_fault(Op op, const char* what) {
  char b[56];
  snprintf(b, sizeof b, "%s:%s", op_name(op), what);
  bump(register_counter(b, true));
}

void external_resize(InodeP ino, const std::string& path) {
  State& s = st();
  ino->versions.push_back(ino->data);
  size_t n = ino->data.size();
  int how = int(choose(4, "external"));
  if (how == 0) {
    ino->data.resize(n / 2);
  } else if (how == 1) {
    ino->data.resize(n > 4096 ? n - 4096 : 0);
  } else if (how == 2) {
    ino->data.resize(n > 0 ? n - 1 : 0);
  } else {
    ino->data.resize(n + 4096, 0xEE);
  }
  s.external = true;
  log("  another process resizes %s from %zu to %zu", path.c_str(), n, ino->data.size());
}

// What goes wrong with this call.
void count_error(Op op, int err) {
  State& s = st();
  ++s.errors;
  if (err != EINTR) ++s.hard_errors;
  count_fault(op, err == EIO      ? "EIO"
                  : err == ENOSPC ? "ENOSPC"
                  : err == EINTR  ? "EINTR"
                  : err == ENOENT ? "ENOENT"
                  : err == EACCES ? "EACCES"
                  : err == EMFILE ? "EMFILE"
                                  : "other-errno");
}

Fault decide(Op op, const std::string& path, InodeP ino, size_t len) {
  State& s = st();
  ++s.calls;
  yield_point();
  Policy& p = cur_policy();
  Fault f;
  int job = current_job() >= 0 ? current_job() : s.solo_job;
  auto plan = s.plans.find(job);
  if (job >= 0 && plan != s.plans.end()) {
    auto e = plan->second.errors.find(plan->second.calls++);
    if (e != plan->second.errors.end()) {
      f.err = e->second;
      count_fault(op, "planned");
      ++s.errors;
      if (f.err != EINTR) ++s.hard_errors;
    }
    return f;
  }
  if (!p.only_path.empty() && p.only_path != path) return f;
  int n = s.policy_calls++;
  if (p.short_io && (op == kRead || op == kWrite) && len > 1 && s.shorts < 12 &&
      flip(1, 3, "short")) {
    static const int kLens[] = {1, 2, 511, 512, 513, 4095, 4096};
    int64_t lim = kLens[choose(7, "short-len")];
    if (lim < int64_t(len)) {
      f.limit = lim;
      ++s.shorts;
      count_fault(op, "short");
    }
  }
  bool hit = false;
  if (s.policy_faults < p.max_faults) {
    if (p.mode == Policy::kSingle) {
      hit = n == p.single_at;
    } else if (p.mode == Policy::kRate) {
      hit = flip(1, p.rate_den, "fault?");
    }
  }
  if (!hit) return f;
  ++s.policy_faults;
  std::vector<int> w = {0, 0, 0};
  if (p.errors) w[0] = 4;
  if (p.kills) w[1] = 3;
  if (p.external && ino && (op == kRead || op == kSeek || op == kStat)) w[2] = 2;
  if (w[0] + w[1] + w[2] == 0) return f;
  int kind = pick(w, "fault-kind");
  if (kind == 2) {
    external_resize(ino, path);
    count_fault(op, "concurrent-resize");
    return f;
  }
  if (kind == 1) {
    count_fault(op, "kill");
    if (op == kWrite && len > 0) {
      int how = int(choose(3, "kill-when"));
      if (how == 0) {
        f.kill_before = true;
      } else if (how == 1) {
        f.kill_after = true;
      } else {
        f.limit = int64_t(len / 2);
        f.kill_after = true;
      }
    } else {
      (choose(2, "kill-when") ? f.kill_after : f.kill_before) = true;
    }
    return f;
  }
  std::vector<int> errs;
  switch (op) {
    case kOpenR: errs = {ENOENT, EACCES, EMFILE, EIO, EINTR}; break;
    case kOpenW: errs = {EACCES, ENOSPC, EMFILE, EROFS, EIO}; break;
    case kRead: errs = {EIO, EINTR, EBADF, ESTALE}; break;
    case kWrite: errs = {ENOSPC, EIO, EINTR, EDQUOT}; break;
    case kSeek: errs = {EIO, ESPIPE}; break;
    case kStat: errs = {EIO, EACCES}; break;
    case kClose: errs = {EIO, ENOSPC, EINTR}; break;
    case kMeta: errs = {EACCES, EIO, ENOSPC}; break;
  }
  f.err = errs[choose(uint32_t(errs.size()), "errno")];
  if (op == kWrite && len > 1 && flip(1, 2, "partial")) f.limit = int64_t(len / 2);
  if (op == kClose && flip(1, 2, "lose-tail")) f.limit = 0;
  if (op == kWrite && f.limit >= 0) {
    count_fault(op, "partial");  // the error itself is met by the next write
  } else {
    count_error(op, f.err);
  }
  return f;
}

void mutate(const std::string& path) {
  State& s = st();
  if (s.first_mutation) {
    auto f = std::move(s.first_mutation);
    s.first_mutation = nullptr;
    f(path);
  }
  s.mutated.insert(path);
}

int fail(int e) {
  errno = e;
  return -1;
}

std::string norm(const char* path) {
  std::string p = path ? path : "";
  if (p.empty() || p[0] != '/') p = "/sim/" + p;
  std::string r;
  for (char c : p) {
    if (c == '/' && !r.empty() && r.back() == '/') continue;
    r += c;
  }
  size_t i;
  while ((i = r.find("/./")) != std::string::npos) r.erase(i, 2);
  return r;
}

int sys_open(const char* cpath, int flags) {
  SutPause pause;
  State& s = st();
  std::string path = norm(cpath);
  bool w = (flags & O_ACCMODE) != O_RDONLY;
  auto it = s.files.find(path);
  Fault f = decide(w ? kOpenW : kOpenR, path, nullptr, 0);
  log("  open %s %s -> %s", path.c_str(), w ? "w" : "r",
      f.err ? strerror(f.err) : it == s.files.end() && !(flags & O_CREAT) ? "no such file" : "ok");
  if (f.kill_before) kill_process();
  if (f.err) return fail(f.err);
  if (path.back() == '/') return fail(EISDIR);
  if (it == s.files.end()) {
    if (!(flags & O_CREAT)) return fail(ENOENT);
    mutate(path);
    s.files[path] = std::make_shared<Inode>();
  } else if ((flags & O_CREAT) && (flags & O_EXCL)) {
    return fail(EEXIST);
  } else if (w && (flags & O_TRUNC)) {
    mutate(path);
    it->second->data.clear();
  }
  int fd = s.next_fd++;
  OpenFile o;
  o.inode = s.files[path];
  o.path = path;
  o.flags = flags;
  o.gen = generation();
  s.fds[fd] = o;
  if (f.kill_after) kill_process();
  return fd;
}

OpenFile* lookup(int fd) {
  State& s = st();
  auto it = s.fds.find(fd);
  if (it == s.fds.end() || it->second.gen != generation()) return nullptr;
  return &it->second;
}

int64_t sys_read(int fd, void* buf, size_t n, int64_t at) {
  SutPause pause;
  OpenFile* o = lookup(fd);
  if (!o) return fail(EBADF);
  if ((o->flags & O_ACCMODE) == O_WRONLY) return fail(EBADF);
  Fault f = decide(kRead, o->path, o->inode, n);
  o = lookup(fd);
  if (f.kill_before) kill_process();
  if (f.err) {
    log("  read %s %zu -> %s", o->path.c_str(), n, strerror(f.err));
    return fail(f.err);
  }
  int64_t pos = at >= 0 ? at : o->off;
  const Bytes& d = o->inode->data;
  size_t avail = pos < int64_t(d.size()) ? d.size() - size_t(pos) : 0;
  size_t k = std::min(n, avail);
  if (f.limit >= 0) k = std::min<size_t>(k, size_t(f.limit));
  if (k) memcpy(buf, d.data() + pos, k);
  if (at < 0) o->off += int64_t(k);
  log("  read %s %zu at %lld -> %zu", o->path.c_str(), n, (long long)pos, k);
  if (f.kill_after) kill_process();
  return int64_t(k);
}

int64_t sys_write(int fd, const void* buf, size_t n, int64_t at) {
  SutPause pause;
  OpenFile* o = lookup(fd);
  if (!o) return fail(EBADF);
  if ((o->flags & O_ACCMODE) == O_RDONLY) return fail(EBADF);
  if (o->pending_error) {
    int e = o->pending_error;
    o->pending_error = 0;
    count_error(kWrite, e);
    log("  write %s %zu -> %s", o->path.c_str(), n, strerror(e));
    return fail(e);
  }
  Fault f = decide(kWrite, o->path, o->inode, n);
  o = lookup(fd);
  if (f.kill_before) kill_process();
  size_t k = n;
  if (f.limit >= 0) k = std::min<size_t>(k, size_t(f.limit));
  if (f.err && f.limit < 0) k = 0;
  int64_t pos = at >= 0 ? at : (o->flags & O_APPEND) ? int64_t(o->inode->data.size()) : o->off;
  if (k) {
    mutate(o->path);
    Bytes& d = o->inode->data;
    if (d.size() < size_t(pos) + k) d.resize(size_t(pos) + k);
    memcpy(d.data() + pos, buf, k);
    if (at < 0) o->off = pos + int64_t(k);
    o->last_write_at = size_t(pos);
  }
  log("  write %s %zu at %lld -> %zu%s%s", o->path.c_str(), n, (long long)pos, k,
      f.err ? " then " : "", f.err ? strerror(f.err) : "");
  if (f.kill_after) kill_process();
  if (f.err) {
    // A partial transfer is reported first; the error comes with the next call.
    if (k == 0) return fail(f.err);
    o->pending_error = f.err;
    return int64_t(k);
  }
  return int64_t(k);
}

int64_t sys_lseek(int fd, int64_t off, int whence) {
  SutPause pause;
  OpenFile* o = lookup(fd);
  if (!o) return fail(EBADF);
  Fault f = decide(kSeek, o->path, o->inode, 0);
  o = lookup(fd);
  if (f.kill_before || f.kill_after) kill_process();
  if (f.err) {
    log("  seek %s -> %s", o->path.c_str(), strerror(f.err));
    return fail(f.err);
  }
  int64_t base = whence == SEEK_SET ? 0 : whence == SEEK_CUR ? o->off : int64_t(o->inode->data.size());
  if (base + off < 0) return fail(EINVAL);
  o->off = base + off;
  log("  seek %s %lld/%d -> %lld", o->path.c_str(), (long long)off, whence, (long long)o->off);
  return o->off;
}

int sys_close(int fd) {
  SutPause pause;
  OpenFile* o = lookup(fd);
  if (!o) return fail(EBADF);
  Fault f = decide(kClose, o->path, o->inode, 0);
  o = lookup(fd);
  if (f.kill_before || f.kill_after) kill_process();
  if (f.err && f.limit == 0 && (o->flags & O_ACCMODE) != O_RDONLY) {
    // Deferred write error: the tail of the file never reached the disk.
    if (o->inode->data.size() > o->last_write_at) o->inode->data.resize(o->last_write_at);
  }
  log("  close %s -> %s", o->path.c_str(), f.err ? strerror(f.err) : "ok");
  st().fds.erase(fd);
  return f.err ? fail(f.err) : 0;
}

void fill_stat(struct stat* b, int64_t size, bool dir) {
  memset(b, 0, sizeof *b);
  b->st_mode = dir ? (S_IFDIR | 0755) : (S_IFREG | 0644);
  b->st_size = size;
  b->st_blksize = 4096;
  b->st_blocks = (size + 511) / 512;
  b->st_nlink = 1;
}

int sys_fstat(int fd, struct stat* b) {
  SutPause pause;
  OpenFile* o = lookup(fd);
  if (!o) return fail(EBADF);
  Fault f = decide(kStat, o->path, o->inode, 0);
  o = lookup(fd);
  if (f.kill_before || f.kill_after) kill_process();
  if (f.err) return fail(f.err);
  fill_stat(b, int64_t(o->inode->data.size()), false);
  return 0;
}

int sys_stat(const char* cpath, struct stat* b) {
  SutPause pause;
  std::string path = norm(cpath);
  auto it = st().files.find(path);
  Fault f = decide(kStat, path, it == st().files.end() ? nullptr : it->second, 0);
  if (f.kill_before || f.kill_after) kill_process();
  if (f.err) return fail(f.err);
  if (path == "/sim" || path == "/" || path == "/sim/") {
    fill_stat(b, 4096, true);
    return 0;
  }
  if (it == st().files.end()) return fail(ENOENT);
  fill_stat(b, int64_t(it->second->data.size()), false);
  return 0;
}

int sys_truncate(InodeP ino, const std::string& path, int64_t n) {
  Fault f = decide(kMeta, path, ino, 0);
  if (f.kill_before) kill_process();
  if (f.err) return fail(f.err);
  mutate(path);
  ino->data.resize(size_t(n));
  if (f.kill_after) kill_process();
  return 0;
}

int sys_unlink(const char* cpath) {
  SutPause pause;
  std::string path = norm(cpath);
  Fault f = decide(kMeta, path, nullptr, 0);
  if (f.kill_before) kill_process();
  if (f.err) return fail(f.err);
  if (!st().files.count(path)) return fail(ENOENT);
  log("  unlink %s", path.c_str());
  mutate(path);
  st().files.erase(path);
  if (f.kill_after) kill_process();
  return 0;
}

int sys_rename(const char* a, const char* b) {
  SutPause pause;
  std::string from = norm(a), to = norm(b);
  Fault f = decide(kMeta, from, nullptr, 0);
  if (f.kill_before) kill_process();
  if (f.err) return fail(f.err);
  auto it = st().files.find(from);
  if (it == st().files.end()) return fail(ENOENT);
  log("  rename %s %s", from.c_str(), to.c_str());
  mutate(from);
  mutate(to);
  InodeP i = it->second;
  st().files.erase(it);
  st().files[to] = i;
  if (f.kill_after) kill_process();
  return 0;
}

// ---- stdio on top of the simulated calls ------------------------------------
struct Cookie {
  int fd;
  uint64_t gen;
};
bool dead(Cookie* c) { return c->gen != generation(); }

ssize_t ck_read(void* v, char* buf, size_t n) {
  auto* c = static_cast<Cookie*>(v);
  if (dead(c)) return fail(EBADF);
  return sys_read(c->fd, buf, n, -1);
}
ssize_t ck_write(void* v, const char* buf, size_t n) {
  auto* c = static_cast<Cookie*>(v);
  if (dead(c)) return ssize_t(n);
  size_t done = 0;
  while (done < n) {  // as _IO_new_file_write does
    int64_t k = sys_write(c->fd, buf + done, n - done, -1);
    if (k < 0) break;
    done += size_t(k);
  }
  return ssize_t(done);
}
int ck_seek(void* v, off64_t* off, int whence) {
  auto* c = static_cast<Cookie*>(v);
  if (dead(c)) return fail(EBADF);
  int64_t r = sys_lseek(c->fd, *off, whence);
  if (r < 0) return -1;
  *off = r;
  return 0;
}
int ck_close(void* v) {
  auto* c = static_cast<Cookie*>(v);
  int r = dead(c) ? 0 : sys_close(c->fd);
  delete c;
  return r;
}

FILE* make_file(int fd, const char* mode) {
  SutPause pause;
  std::string m;
  for (const char* q = mode; *q && *q != ','; ++q) {
    if (strchr("rwa+b", *q)) m += *q;
  }
  auto* c = new Cookie{fd, generation()};
  cookie_io_functions_t io{ck_read, ck_write, ck_seek, ck_close};
  FILE* f = fopencookie(c, m.c_str(), io);
  if (!f) harness_error("fopencookie failed");
  st().file_fd[f] = fd;
  return f;
}

FILE* sim_fopen(const char* path, const char* mode) {
  int flags = 0;
  bool plus = strchr(mode, '+') != nullptr;
  if (mode[0] == 'r') {
    flags = plus ? O_RDWR : O_RDONLY;
  } else if (mode[0] == 'w') {
    flags = (plus ? O_RDWR : O_WRONLY) | O_CREAT | O_TRUNC;
  } else if (mode[0] == 'a') {
    flags = (plus ? O_RDWR : O_WRONLY) | O_CREAT | O_APPEND;
  } else {
    errno = EINVAL;
    return nullptr;
  }
  if (strchr(mode, 'x')) flags |= O_EXCL;
  int fd = sys_open(path, flags);
  if (fd < 0) return nullptr;
  return make_file(fd, mode);
}

std::function<ssize_t(char*, size_t)> g_term_in;
std::function<ssize_t(const char*, size_t)> g_term_out;

int g_saved1 = -1, g_saved2 = -1, g_mem = -1, g_err = -1;

}  // namespace

void reset() {
  delete S;
  S = new State;
}
void set_policy(const Policy& p) {
  State& s = st();
  s.policy = p;
  s.policy_calls = 0;
  s.policy_faults = 0;
  s.shorts = 0;
}
void set_job_plan(int job, const JobPlan& p) { st().plans[job] = p; }
void clear_job_plans() {
  st().plans.clear();
  st().solo_job = -1;
}
void set_solo_job(int job) { st().solo_job = job; }

Policy choose_policy(bool errors, bool kills, bool external, int calls) {
  Policy p;
  p.errors = errors;
  p.kills = kills;
  p.external = external;
  int m = pick({3, 6, 2}, "fault-mode");
  if (m == 1) {
    p.mode = Policy::kSingle;
    p.single_at = range(0, std::max(1, calls), "fault-at");
  } else if (m == 2) {
    p.mode = Policy::kRate;
    p.rate_den = 3 + range(0, 20, "fault-rate");
  }
  p.short_io = flip(1, 2, "short-io");
  return p;
}

void put(const std::string& path, const Bytes& b) {
  auto i = std::make_shared<Inode>();
  i->data = b;
  st().files[path] = i;
}
bool exists(const std::string& path) { return st().files.count(path) > 0; }
Bytes get(const std::string& path) {
  auto it = st().files.find(path);
  if (it == st().files.end()) harness_error("no file %s", path.c_str());
  return it->second->data;
}
void erase(const std::string& path) { st().files.erase(path); }
std::vector<std::string> list() {
  std::vector<std::string> r;
  for (auto& n : st().files) r.push_back(n.first);
  return r;
}
void clear_marks() {
  State& s = st();
  s.errors = s.hard_errors = s.shorts = 0;
  s.external = false;
  s.calls = 0;
  s.mutated.clear();
  s.first_mutation = nullptr;
  for (auto& n : s.files) n.second->versions.clear();
}
int open_handles() {
  int n = 0;
  for (auto& f : st().fds) n += f.second.gen == generation();
  return n;
}
int errors_injected() { return st().errors; }
int hard_errors_injected() { return st().hard_errors; }
int shorts_injected() { return st().shorts; }
bool external_change() { return st().external; }
uint64_t io_calls() { return st().calls; }
const std::set<std::string>& mutated() { return st().mutated; }
std::vector<Bytes> versions(const std::string& path) {
  std::vector<Bytes> v;
  auto it = st().files.find(path);
  if (it == st().files.end()) return v;
  v = it->second->versions;
  v.push_back(it->second->data);
  return v;
}
void on_first_mutation(std::function<void(const std::string&)> f) {
  st().first_mutation = std::move(f);
}

void set_terminal(std::function<ssize_t(char*, size_t)> in, std::function<ssize_t(const char*, size_t)> out) {
  g_term_in = std::move(in);
  g_term_out = std::move(out);
}

void begin_capture(long room) {
  SutPause pause;
  fflush(stdout);
  fflush(stderr);
  g_mem = memfd_create("sim-out", room < 0 ? 0 : MFD_ALLOW_SEALING);
  g_err = room < 0 ? g_mem : memfd_create("sim-err", 0);
  if (g_mem < 0 || g_err < 0) harness_error("memfd_create failed");
  if (room >= 0 && (::ftruncate(g_mem, room) != 0 || ::fcntl(g_mem, F_ADD_SEALS, F_SEAL_GROW) != 0)) {
    harness_error("sealing failed");
  }
  g_saved1 = dup(1);
  g_saved2 = dup(2);
  dup2(g_mem, 1);
  if (!tracing()) dup2(g_err, 2);
}
std::string end_capture() {
  SutPause pause;
  fflush(stdout);
  fflush(stderr);
  __fpurge(stdout);  // what could not be written
  clearerr(stdout);
  std::cout.clear();
  dup2(g_saved1, 1);
  dup2(g_saved2, 2);
  auto contents = [](int fd) {
    off_t n = ::lseek64(fd, 0, SEEK_CUR);
    std::string r(size_t(n), 0);
    if (n > 0 && ::pread(fd, &r[0], size_t(n), 0) != n) harness_error("capture read failed");
    return r;
  };
  std::string r = contents(g_mem);
  if (g_err != g_mem) r += contents(g_err);
  static int (*real)(int) = reinterpret_cast<int (*)(int)>(dlsym(RTLD_NEXT, "close"));
  if (g_err != g_mem) real(g_err);
  real(g_mem);
  real(g_saved1);
  real(g_saved2);
  return r;
}

}  // namespace sim::fs

namespace sim {
void reset_process_state() { fs::reset(); }
}  // namespace sim

// ---- interposed C library calls -------------------------------------------------
using namespace sim;
using namespace sim::fs;
#define REAL(name) \
  static auto real = reinterpret_cast<decltype(&name)>(dlsym(RTLD_NEXT, #name))
static bool fake(int fd) { return fd >= 100000; }

extern "C" {

FILE* fopen(const char* path, const char* mode) {
  if (g_in_sut) return sim_fopen(path, mode);
  REAL(fopen);
  return real(path, mode);
}
FILE* fopen64(const char* path, const char* mode) {
  if (g_in_sut) return sim_fopen(path, mode);
  REAL(fopen64);
  return real(path, mode);
}
FILE* fdopen(int fd, const char* mode) noexcept {
  if (fake(fd)) return make_file(fd, mode);
  REAL(fdopen);
  return real(fd, mode);
}
int fileno(FILE* f) noexcept {
  if (S) {
    auto it = S->file_fd.find(f);
    if (it != S->file_fd.end()) return it->second;
  }
  REAL(fileno);
  return real(f);
}
int fileno_unlocked(FILE* f) noexcept { return fileno(f); }
int fclose(FILE* f) {
  if (S) {
    SutPause p;
    S->file_fd.erase(f);
  }
  REAL(fclose);
  return real(f);
}
int open(const char* path, int flags, ...) {
  va_list ap;
  va_start(ap, flags);
  int mode = va_arg(ap, int);
  va_end(ap);
  if (g_in_sut) return sys_open(path, flags);
  REAL(open);
  return real(path, flags, mode);
}
int open64(const char* path, int flags, ...) {
  va_list ap;
  va_start(ap, flags);
  int mode = va_arg(ap, int);
  va_end(ap);
  if (g_in_sut) return sys_open(path, flags);
  REAL(open64);
  return real(path, flags, mode);
}
int openat(int dir, const char* path, int flags, ...) {
  va_list ap;
  va_start(ap, flags);
  int mode = va_arg(ap, int);
  va_end(ap);
  if (g_in_sut) return sys_open(path, flags);
  REAL(openat);
  return real(dir, path, flags, mode);
}
int openat64(int dir, const char* path, int flags, ...) {
  va_list ap;
  va_start(ap, flags);
  int mode = va_arg(ap, int);
  va_end(ap);
  if (g_in_sut) return sys_open(path, flags);
  REAL(openat64);
  return real(dir, path, flags, mode);
}
int creat(const char* path, mode_t mode) {
  if (g_in_sut) return sys_open(path, O_CREAT | O_WRONLY | O_TRUNC);
  REAL(creat);
  return real(path, mode);
}
ssize_t read(int fd, void* b, size_t n) {
  if (fake(fd)) return sys_read(fd, b, n, -1);
  if (fd == 0 && g_in_sut && g_term_in) return g_term_in(static_cast<char*>(b), n);
  REAL(read);
  return real(fd, b, n);
}
ssize_t pread(int fd, void* b, size_t n, off_t off) {
  if (fake(fd)) return sys_read(fd, b, n, off);
  REAL(pread);
  return real(fd, b, n, off);
}
ssize_t pread64(int fd, void* b, size_t n, off64_t off) {
  if (fake(fd)) return sys_read(fd, b, n, off);
  REAL(pread64);
  return real(fd, b, n, off);
}
ssize_t write(int fd, const void* b, size_t n) {
  if (fake(fd)) return sys_write(fd, b, n, -1);
  if ((fd == 1 || fd == 2) && g_in_sut && g_term_out) return g_term_out(static_cast<const char*>(b), n);
  REAL(write);
  return real(fd, b, n);
}
ssize_t pwrite(int fd, const void* b, size_t n, off_t off) {
  if (fake(fd)) return sys_write(fd, b, n, off);
  REAL(pwrite);
  return real(fd, b, n, off);
}
ssize_t pwrite64(int fd, const void* b, size_t n, off64_t off) {
  if (fake(fd)) return sys_write(fd, b, n, off);
  REAL(pwrite64);
  return real(fd, b, n, off);
}
ssize_t readv(int fd, const struct iovec* v, int n) {
  if (fake(fd)) {
    ssize_t total = 0;
    for (int i = 0; i < n; ++i) {
      ssize_t k = sys_read(fd, v[i].iov_base, v[i].iov_len, -1);
      if (k < 0) return total ? total : -1;
      total += k;
      if (size_t(k) < v[i].iov_len) break;
    }
    return total;
  }
  REAL(readv);
  return real(fd, v, n);
}
ssize_t writev(int fd, const struct iovec* v, int n) {
  if (fake(fd)) {
    ssize_t total = 0;
    for (int i = 0; i < n; ++i) {
      if (!v[i].iov_len) continue;
      ssize_t k = sys_write(fd, v[i].iov_base, v[i].iov_len, -1);
      if (k < 0) return total ? total : -1;
      total += k;
      if (size_t(k) < v[i].iov_len) break;
    }
    return total;
  }
  REAL(writev);
  return real(fd, v, n);
}
off_t lseek(int fd, off_t off, int whence) noexcept {
  if (fake(fd)) return sys_lseek(fd, off, whence);
  REAL(lseek);
  return real(fd, off, whence);
}
off64_t lseek64(int fd, off64_t off, int whence) noexcept {
  if (fake(fd)) return sys_lseek(fd, off, whence);
  REAL(lseek64);
  return real(fd, off, whence);
}
int close(int fd) {
  if (fake(fd)) return sys_close(fd);
  REAL(close);
  return real(fd);
}
int fstat(int fd, struct stat* b) noexcept {
  if (fake(fd)) return sys_fstat(fd, b);
  REAL(fstat);
  return real(fd, b);
}
int fstat64(int fd, struct stat64* b) noexcept {
  if (fake(fd)) return sys_fstat(fd, reinterpret_cast<struct stat*>(b));
  REAL(fstat64);
  return real(fd, b);
}
int stat(const char* p, struct stat* b) noexcept {
  if (g_in_sut) return sys_stat(p, b);
  REAL(stat);
  return real(p, b);
}
int stat64(const char* p, struct stat64* b) noexcept {
  if (g_in_sut) return sys_stat(p, reinterpret_cast<struct stat*>(b));
  REAL(stat64);
  return real(p, b);
}
int lstat(const char* p, struct stat* b) noexcept {
  if (g_in_sut) return sys_stat(p, b);
  REAL(lstat);
  return real(p, b);
}
int lstat64(const char* p, struct stat64* b) noexcept {
  if (g_in_sut) return sys_stat(p, reinterpret_cast<struct stat*>(b));
  REAL(lstat64);
  return real(p, b);
}
int fstatat(int d, const char* p, struct stat* b, int fl) noexcept {
  if (fake(d) && (!p || !*p)) return sys_fstat(d, b);
  if (g_in_sut) return sys_stat(p, b);
  REAL(fstatat);
  return real(d, p, b, fl);
}
int fstatat64(int d, const char* p, struct stat64* b, int fl) noexcept {
  if (fake(d) && (!p || !*p)) return sys_fstat(d, reinterpret_cast<struct stat*>(b));
  if (g_in_sut) return sys_stat(p, reinterpret_cast<struct stat*>(b));
  REAL(fstatat64);
  return real(d, p, b, fl);
}
int access(const char* p, int m) noexcept {
  if (g_in_sut) {
    struct stat b;
    return sys_stat(p, &b);
  }
  REAL(access);
  return real(p, m);
}
int fsync(int fd) {
  if (fake(fd)) {
    SutPause pause;
    OpenFile* o = lookup(fd);
    if (!o) return fail(EBADF);
    Fault f = decide(kMeta, o->path, o->inode, 0);
    if (f.kill_before || f.kill_after) kill_process();
    return f.err ? fail(f.err) : 0;
  }
  REAL(fsync);
  return real(fd);
}
int fdatasync(int fd) {
  if (fake(fd)) return fsync(fd);
  REAL(fdatasync);
  return real(fd);
}
int ftruncate(int fd, off_t n) noexcept {
  if (fake(fd)) {
    SutPause pause;
    OpenFile* o = lookup(fd);
    if (!o) return fail(EBADF);
    return sys_truncate(o->inode, o->path, n);
  }
  REAL(ftruncate);
  return real(fd, n);
}
int ftruncate64(int fd, off64_t n) noexcept {
  if (fake(fd)) return ftruncate(fd, n);
  REAL(ftruncate64);
  return real(fd, n);
}
int truncate(const char* p, off_t n) noexcept {
  if (g_in_sut) {
    SutPause pause;
    std::string path = norm(p);
    auto it = st().files.find(path);
    if (it == st().files.end()) return fail(ENOENT);
    return sys_truncate(it->second, path, n);
  }
  REAL(truncate);
  return real(p, n);
}
int unlink(const char* p) noexcept {
  if (g_in_sut) return sys_unlink(p);
  REAL(unlink);
  return real(p);
}
int remove(const char* p) noexcept {
  if (g_in_sut) return sys_unlink(p);
  REAL(remove);
  return real(p);
}
int rename(const char* a, const char* b) noexcept {
  if (g_in_sut) return sys_rename(a, b);
  REAL(rename);
  return real(a, b);
}
int renameat(int x, const char* a, int y, const char* b) noexcept {
  if (g_in_sut) return sys_rename(a, b);
  REAL(renameat);
  return real(x, a, y, b);
}
int poll(struct pollfd* p, nfds_t n, int t) {
  if (n == 1 && fake(p->fd)) {
    p->revents = p->events;
    return 1;
  }
  REAL(poll);
  return real(p, n, t);
}
int ioctl(int fd, unsigned long req, ...) noexcept {
  va_list ap;
  va_start(ap, req);
  void* arg = va_arg(ap, void*);
  va_end(ap);
  if (fake(fd)) {
    errno = ENOTTY;
    return -1;
  }
  REAL(ioctl);
  return real(fd, req, arg);
}
void* mmap(void* a, size_t n, int prot, int flags, int fd, off_t off) noexcept {
  if (fake(fd)) {
    SutPause pause;
    OpenFile* o = lookup(fd);
    if (!o || off != 0) {
      errno = EBADF;
      return MAP_FAILED;
    }
    Fault f = decide(kRead, o->path, o->inode, 0);
    if (f.kill_before || f.kill_after) kill_process();
    if (f.err) {
      errno = f.err;
      return MAP_FAILED;
    }
    REAL(mmap);
    void* m = real(nullptr, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    if (m != MAP_FAILED) {
      memcpy(m, o->inode->data.data(), std::min(n, o->inode->data.size()));
    }
    return m;
  }
  REAL(mmap);
  return real(a, n, prot, flags, fd, off);
}

// ---- clocks, ids, randomness: functions of the step count ---------------------------
int clock_gettime(clockid_t c, struct timespec* t) noexcept {
  if (g_in_sut) {
    uint64_t s = total_steps();
    t->tv_sec = time_t(1700000000 + s / 1000000000);
    t->tv_nsec = long(s % 1000000000);
    return 0;
  }
  REAL(clock_gettime);
  return real(c, t);
}
time_t time(time_t* t) noexcept {
  if (g_in_sut) {
    time_t v = time_t(1700000000 + total_steps() / 1000000000);
    if (t) *t = v;
    return v;
  }
  REAL(time);
  return real(t);
}
pid_t getpid() noexcept {
  if (g_in_sut) return pid_t(4000 + generation());
  REAL(getpid);
  return real();
}
ssize_t getrandom(void* b, size_t n, unsigned fl) {
  if (g_in_sut) {
    memset(b, 0x5a, n);
    return ssize_t(n);
  }
  REAL(getrandom);
  return real(b, n, fl);
}
void exit(int code) noexcept {
  if (g_in_sut) {
    fflush(stdout);
    exit_process(code);
  }
  REAL(exit);
  real(code);
  __builtin_unreachable();
}

}  // extern "C"
