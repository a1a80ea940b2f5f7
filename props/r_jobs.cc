// R04, R05, R08 for the parts of nsasm that are about ROM files and claims.
#include <cstring>
#include <map>
#include <set>

#include "jobs.h"
#include "nsasm/memory.h"
#include "nsasm/ranges.h"
#include "nsasm/rom.h"
#include "rommodel.h"
#include "sim/fs.h"
#include "sim/sim.h"

using model::Bytes;
using model::RomFile;
namespace fs = sim::fs;

namespace {

const char* kIn = "/sim/in.sfc";
const char* kOut = "/sim/out.sfc";

Bytes damaged(const RomFile& r) {
  Bytes f = r.file();
  sim::Rng g = sim::data_rng("damage");
  switch (sim::choose(5, "damage-kind")) {
    case 0: f.resize(f.size() - 1 - g.below(0x1ff)); break;
    case 1: f.resize(g.below(3) * 0x200); break;
    case 2: f.resize(0xf000 + (g.below(2) ? 0x200 : 0)); break;
    case 3: f[r.header.size() + (r.mode == model::kLo ? 0x7fdc : 0xffdc)] ^= 1; break;
    default: f.resize(f.size() + 0x800); break;
  }
  return f;
}

void check_closed(const char* what) {
  sim::evaluated();
  int n = fs::open_handles();
  if (n) sim::violation("R04.leak", "%d file%s still open after %s", n, n == 1 ? "" : "s", what);
}

struct Write {
  uint32_t a;
  Bytes d;
};

std::vector<Write> choose_writes(const RomFile& r, int n, bool mapped_only) {
  std::vector<Write> v;
  for (int i = 0; i < n; ++i) {
    Write w;
    w.a = model::pick_address(r);
    int len = sim::flip(1, 3, "long-write") ? model::pick_length("write-len")
                                            : 1 + int(sim::choose(40, "write-len"));
    sim::Rng g = sim::data_rng("write-data");
    w.d.resize(size_t(len));
    model::fill(w.d, g);
    if (mapped_only && !r.read(w.a, len)) continue;
    v.push_back(w);
  }
  return v;
}

}  // namespace

// ---------------------------------------------------------------------------
SIM_SCENARIO(R04, rom_files, 1) {
  RomFile r = model::make_rom(sim::flip(1, 10, "allow-big"));
  fs::put(kIn, r.file());
  int ops = 1 + int(sim::choose(4 + uint32_t(sim::size_class()), "ops"));
  std::unique_ptr<nsasm::RomOverwriter> sink;
  for (int i = 0; i < ops; ++i) {
    fs::clear_marks();
    if (!sink || sim::flip(1, 2, "load?")) {
      if (sim::flip(1, 4, "damaged?")) {
        fs::put("/sim/bad.sfc", damaged(r));
      } else {
        fs::put("/sim/bad.sfc", r.file());
      }
      fs::set_policy(fs::choose_policy(true, false, true, 10));
      bool ok = false;
      sim::run_sut("LoadRomFile", [&] {
        auto rom = nsasm::LoadRomFile("/sim/bad.sfc");
        ok = rom.ok();
      });
      fs::set_policy(fs::Policy());
      sim::log("load -> %s", ok ? "ok" : "error");
      check_closed(ok ? "a successful load" : "a failed load");
      if (ok) SIM_PROBE("load ok"); else SIM_PROBE("load refused");
      if (!sink) {
        sim::run_sut("LoadRomFile", [&] {
          auto rom = nsasm::LoadRomFile(kIn);
          if (rom.ok()) sink = std::make_unique<nsasm::RomOverwriter>(*std::move(rom));
        });
        if (!sink) sim::violation("R04.load", "a well-formed ROM could not be loaded after failed attempts");
        check_closed("a load that was turned into an overwriter");
      }
    } else {
      std::string out = sim::flip(1, 8, "bad-path") ? "/sim/dir/" : kOut;
      fs::set_policy(fs::choose_policy(true, false, false, 8));
      bool ok = false;
      sim::run_sut("RomOverwriter::CreateFile", [&] { ok = sink->CreateFile(out).ok(); });
      fs::set_policy(fs::Policy());
      sim::log("create -> %s", ok ? "ok" : "error");
      check_closed(ok ? "a successful write-out" : "a failed write-out");
      if (ok) SIM_PROBE("write-out ok"); else SIM_PROBE("write-out refused");
    }
    sim::nontrivial();
  }
  // The process can still open files.
  bool ok = false;
  sim::run_sut("LoadRomFile", [&] { ok = nsasm::LoadRomFile(kIn).ok(); });
  if (!ok) sim::violation("R04.load", "a well-formed ROM cannot be loaded any more");
  check_closed("the last load");
}

// ---------------------------------------------------------------------------
// The patching job: load, write patches, write out.
namespace {

struct JobState {
  bool writing_out = false;
  bool ok = false;
  std::string error;
};

void patch_job(const std::vector<Write>& writes, bool touch_bad, JobState* js) {
  auto rom = nsasm::LoadRomFile(kIn);
  if (!rom.ok()) {
    js->error = rom.error().ToString();
    return;
  }
  nsasm::RomOverwriter sink(*std::move(rom));
  for (auto& w : writes) {
    auto e = sink.Write(nsasm::Address(w.a), w.d);
    if (!e.ok()) {
      js->error = e.error().ToString();
      return;
    }
  }
  if (touch_bad && !sink.Write(nsasm::Address(0x7e0000), Bytes(1)).ok()) {
    js->error = "unmapped";
    return;
  }
  js->writing_out = true;
  auto e = sink.CreateFile(kOut);
  if (!e.ok()) {
    js->error = e.error().ToString();
    return;
  }
  js->ok = true;
}

}  // namespace

SIM_SCENARIO(R05, patch_job, 1) {
  RomFile r = model::make_rom(sim::flip(1, 10, "allow-big"));
  auto writes = choose_writes(r, 1 + int(sim::choose(4, "writes")), true);
  fs::put(kIn, r.file());
  fs::put("/sim/other.txt", Bytes(100, 'x'));
  RomFile want = r;
  for (auto& w : writes) {
    for (size_t i = 0; i < w.d.size(); ++i) want.image[*r.offset(model::wrap(w.a, uint32_t(i)))] = w.d[i];
  }
  Bytes previous;
  bool have_previous = sim::flip(1, 2, "previous");
  if (have_previous) {
    previous.assign(sim::flip(1, 2, "longer") ? r.image.size() + 4000 : 500, 0xAA);
    fs::put(kOut, previous);
  }
  int attempts = int(sim::choose(4 + uint32_t(sim::size_class()) / 2, "attempts"));
  for (int k = 0; k <= attempts; ++k) {
    bool last = k == attempts;
    bool bad = !last && sim::flip(1, 5, "bad-write");
    bool damaged_input = !last && sim::flip(1, 8, "damaged-input");
    Bytes input = damaged_input ? damaged(r) : r.file();
    if (damaged_input) fs::put(kIn, input);
    bool had = fs::exists(kOut);
    Bytes before = had ? fs::get(kOut) : Bytes();
    fs::clear_marks();
    JobState js;
    bool early = false;
    std::string early_path;
    fs::on_first_mutation([&](const std::string& path) {
      if (!js.writing_out) early = true, early_path = path;
    });
    fs::set_policy(last ? fs::Policy() : fs::choose_policy(true, true, false, 14));
    auto res = sim::run_sut("patch job", [&] { patch_job(writes, bad, &js); });
    bool err = fs::errors_injected() > 0;
    fs::set_policy(fs::Policy());
    sim::nontrivial();
    sim::evaluated();
    sim::log("attempt %d -> %s", k, res.end == sim::End::kKilled ? "killed" : js.ok ? "ok" : "error");
    if (early) {
      sim::violation("R05.early", "%s was modified before the write-out step", early_path.c_str());
    }
    for (auto& m : fs::mutated()) {
      if (m != kOut) sim::violation("R05.modified", "%s was modified", m.c_str());
    }
    if (!fs::exists(kIn) || fs::get(kIn) != input) {
      sim::violation("R05.modified", "the source ROM was modified");
    }
    if (!js.writing_out) {
      if (fs::exists(kOut) != had || (had && fs::get(kOut) != before)) {
        sim::violation("R05.early", "the output was changed by an attempt that failed before the write-out");
      }
      SIM_PROBE("failed before write-out");
    }
    if (res.end == sim::End::kKilled) {
      SIM_PROBE("killed");
      if (js.writing_out) SIM_PROBE("killed during write-out");
    } else if (!js.ok && !err && !bad && !damaged_input) {
      sim::violation("R05.not-repeatable", "attempt %d failed though no call failed: %s", k, js.error.c_str());
    }
    if (js.ok && (bad || damaged_input)) {
      if (bad) sim::violation("R05.bad", "a job with an unmapped write succeeded");
      if (damaged_input && !model::load(input)) sim::violation("R05.bad", "a damaged ROM was patched");
    }
    if (damaged_input) fs::put(kIn, r.file());
    if (js.ok && !damaged_input) {
      if (!fs::exists(kOut) || fs::get(kOut) != want.file()) {
        sim::violation("R05.output", "the completed job's output is not the patched ROM (attempt %d)", k);
      }
    }
  }
}

// ---------------------------------------------------------------------------
// Independent jobs.  Each works on its own files and returns what it observed.
namespace {

// `hot`: addresses and lengths that several jobs use in their own ROMs.
jobs::Job rom_job(int id, const std::vector<std::pair<uint32_t, int>>& hot) {
  RomFile r = model::make_rom(false);
  auto writes = choose_writes(r, 1 + int(sim::choose(5, "writes")), false);
  for (auto& h : hot) {
    if (sim::flip(1, 3, "skip-hot")) continue;
    sim::Rng g = sim::data_rng("write-data");
    Write w{h.first, Bytes(size_t(h.second))};
    model::fill(w.d, g);
    writes.insert(writes.begin() + long(sim::choose(uint32_t(writes.size()) + 1, "hot-at")), w);
  }
  int what = int(sim::choose(3, "rom-job"));
  bool bad = sim::flip(1, 5, "damaged?");
  Bytes file = bad ? damaged(r) : r.file();
  std::string in = "/sim/job" + std::to_string(id) + "/in.sfc";
  std::string out = "/sim/job" + std::to_string(id) + "/out.sfc";
  jobs::Job j;
  j.prepare = [=] {
    fs::put(in, file);
    fs::erase(out);
  };
  j.run = [=](std::string* log) {
    auto rom = nsasm::LoadRomFile(in);
    if (!rom.ok()) {
      *log += "load: " + rom.error().ToString() + "\n";
      return;
    }
    *log += "loaded " + (*rom)->Path() + "\n";
    if (what == 0) {
      for (auto& w : writes) {
        auto b = (*rom)->Read(nsasm::Address(w.a), int(w.d.size()));
        if (b.ok()) {
          jobs::digest(log, "read", b->data(), b->size());
        } else {
          *log += b.error().ToString() + "\n";
        }
      }
      return;
    }
    if (what == 1) {
      nsasm::RomIdentityTest sink(*std::move(rom));
      for (auto& w : writes) {
        auto b = r.read(w.a, int(w.d.size()));
        auto e = sink.Write(nsasm::Address(w.a), b ? *b : w.d);
        *log += e.ok() ? "same\n" : e.error().ToString() + "\n";
      }
      return;
    }
    nsasm::RomOverwriter sink(*std::move(rom));
    for (auto& w : writes) {
      auto e = sink.Write(nsasm::Address(w.a), w.d);
      *log += e.ok() ? "stored\n" : e.error().ToString() + "\n";
    }
    auto e = sink.CreateFile(out);
    *log += e.ok() ? "created\n" : e.error().ToString() + "\n";
  };
  j.finish = [=](std::string* log) {
    if (!fs::exists(out)) return;
    Bytes b = fs::get(out);
    jobs::digest(log, "output", b.data(), b.size());
  };
  return j;
}

jobs::Job claims_job(int) {
  struct Op {
    uint32_t a;
    int n;
    bool commit;
  };
  std::vector<Op> ops;
  int n = 2 + int(sim::choose(20, "claims"));
  for (int i = 0; i < n; ++i) {
    Op o;
    o.a = sim::choose(3, "bank") << 16 | (sim::flip(1, 4, "end") ? 0xfff0 + sim::choose(16, "off")
                                                                 : sim::choose(200, "off"));
    o.n = int(sim::choose(40, "len"));
    o.commit = sim::flip(1, 4, "commit");
    ops.push_back(o);
  }
  jobs::Job j;
  j.run = [=](std::string* log) {
    nsasm::DataRange range;
    nsasm::RangeMap<int> map;
    int v = 0;
    for (auto& o : ops) {
      *log += range.ClaimBytes(nsasm::Address(o.a), o.n) ? "claimed\n" : "conflict\n";
      if (o.commit) {
        *log += map.Insert(range, ++v) ? "inserted\n" : "refused\n";
        range = nsasm::DataRange();
      }
      auto x = map.Lookup(nsasm::Address(o.a));
      *log += std::to_string(x.has_value() ? *x : 0) + (range.Contains(nsasm::Address(o.a)) ? "+" : "-") + "\n";
    }
  };
  return j;
}

}  // namespace

SIM_SCENARIO(R08, rom_jobs, 1) {
  std::vector<jobs::Job> js;
  int n = 2 + int(sim::choose(3, "jobs"));
  std::vector<std::pair<uint32_t, int>> hot;
  for (uint32_t k = sim::choose(5, "hot"); k > 0; --k) {
    uint32_t bank = sim::flip(1, 2, "hot-low") ? 0x00 : 0x80;
    hot.push_back({bank << 16 | 0x8000 | sim::choose(0x8000, "hot-off"), 1 + int(sim::choose(8, "hot-len"))});
  }
  for (int i = 0; i < n; ++i) js.push_back(sim::flip(1, 4, "claims?") ? claims_job(i) : rom_job(i, hot));
  jobs::compare(js);
}
