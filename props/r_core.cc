// R01, R02, R03, R06, R07, R09: ROM files, patching, claims, quick_dump.
// Built exactly like /opt/vp/build.sh builds the library (system Abseil).
#include <cstring>
#include <set>

#include "nsasm/memory.h"
#include "nsasm/ranges.h"
#include "nsasm/rom.h"
#include "rommodel.h"
#include "sim/fs.h"
#include "sim/sim.h"

using model::Bytes;
using model::RomFile;
namespace fs = sim::fs;

namespace {

const char* kIn = "/sim/in.sfc";
const char* kOut = "/sim/out.sfc";

using RomPtr = std::unique_ptr<nsasm::Rom>;

// Loads with whatever policy is set.  Null on error.
RomPtr load_rom(const std::string& path, std::string* err = nullptr) {
  RomPtr rom;
  sim::run_sut("LoadRomFile", [&] {
    auto r = nsasm::LoadRomFile(path);
    if (r.ok()) {
      rom = *std::move(r);
    } else if (err) {
      *err = r.error().ToString();
    }
  });
  sim::log("load %s -> %s", path.c_str(), rom ? "ok" : "error");
  return rom;
}

// All banks with their mirrors are 16 MB, which may well be read byte by byte.
constexpr uint64_t kImageBudget = 4'000'000'000ull;

std::optional<Bytes> read_rom(const nsasm::Rom& rom, uint32_t a, int n) {
  std::optional<Bytes> out;
  sim::run_sut("Rom::Read", [&] {
    auto r = rom.Read(nsasm::Address(a), n);
    if (r.ok()) out = Bytes(r->begin(), r->end());
  });
  return out;
}

// Everything the ROM serves must be what the model says.
void check_whole_image(const char* prop, const nsasm::Rom& rom, const RomFile& want) {
  sim::run_sut("Rom::Read (whole image)", [&] {
    for (uint32_t bank = 0; bank < 256; ++bank) {
      for (uint32_t half = 0; half < 2; ++half) {
        uint32_t a = (bank << 16) | (half * 0x8000);
        auto o = want.offset(a);
        int n = 0x8000;
        if (o) n = int(std::min<size_t>(0x8000, want.image.size() - *o));
        if (!o && sim::total_steps() % 7) n = 1;
        auto r = rom.Read(nsasm::Address(a), n);
        sim::evaluated();
        if (r.ok() != o.has_value()) {
          sim::violation((std::string(prop) + ".map").c_str(),
                         "read of %d bytes at $%06x: %s, but the map says %s", n, a,
                         r.ok() ? "served" : "refused", o ? "mapped" : "unmapped or past the end");
        }
        if (!o) continue;
        if (r->size() != size_t(n) || memcmp(r->data(), want.image.data() + *o, size_t(n)) != 0) {
          sim::violation((std::string(prop) + ".wrong-bytes").c_str(),
                         "read of %d bytes at $%06x does not return the bytes at image offset 0x%zx",
                         n, a, *o);
        }
      }
    }
  }, kImageBudget);
}

// Why the ROM cannot be `want` with bytes taken from any of `versions`.
std::string layout_mismatch(const nsasm::Rom& rom, const RomFile& want,
                            const std::vector<Bytes>& versions) {
  std::string why;
  sim::run_sut("Rom::Read (image)", [&] {
    for (uint32_t bank = 0; bank < 256 && why.empty(); ++bank) {
      for (uint32_t half = 0; half < 2 && why.empty(); ++half) {
        uint32_t a = (bank << 16) | (half * 0x8000);
        auto o = want.offset(a);
        int n = o ? int(std::min<size_t>(0x8000, want.image.size() - *o)) : 1;
        auto got = rom.Read(nsasm::Address(a), n);
        char b[100];
        if (got.ok() != o.has_value()) {
          snprintf(b, sizeof b, "address $%06x is %s", a, o ? "refused" : "served");
          why = b;
          return;
        }
        if (!o) continue;
        // The byte after the last one must not be served.
        if (n < 0x8000 && rom.Read(nsasm::Address(a + uint32_t(n)), 1).ok()) {
          snprintf(b, sizeof b, "address $%06x past the end is served", a + unsigned(n));
          why = b;
          return;
        }
        if (got->size() != size_t(n)) {
          why = "wrong number of bytes";
          return;
        }
        bool same = versions.size() == 1 && memcmp(got->data(), want.image.data() + *o, size_t(n)) == 0;
        for (int i = 0; i < n && !same; ++i) {
          bool held = false;
          for (auto& v : versions) {
            size_t fo = want.header.size() + *o + size_t(i);
            held = held || (fo < v.size() && v[fo] == (*got)[size_t(i)]);
          }
          if (!held) {
            snprintf(b, sizeof b, "offset 0x%zx holds a byte the file never held", *o + size_t(i));
            why = b;
            return;
          }
        }
      }
    }
  }, kImageBudget);
  return why;
}

void check_reads(const char* prop, const nsasm::Rom& rom, const RomFile& want, int count) {
  for (int i = 0; i < count; ++i) {
    uint32_t a = model::pick_address(want);
    int n = model::pick_length("read-len");
    auto expect = want.read(a, n);
    auto got = read_rom(rom, a, n);
    sim::evaluated();
    sim::log("read $%06x %d -> %s", a, n, got ? "ok" : "error");
    if (expect.has_value() != got.has_value()) {
      sim::violation((std::string(prop) + ".map").c_str(),
                     "read of %d bytes at $%06x %s, model says %s", n, a,
                     got ? "succeeded" : "failed", expect ? "mapped" : "unmapped or past the end");
    }
    if (expect && *expect != *got) {
      sim::violation((std::string(prop) + ".wrong-bytes").c_str(),
                     "read of %d bytes at $%06x returned %zu bytes %s, expected %s", n, a,
                     got->size(), sim::hex(got->data(), got->size()).c_str(),
                     sim::hex(expect->data(), expect->size()).c_str());
    }
    if (sim::flip(1, 3, "read-int")) {
      int w = 1 + int(sim::choose(3, "width"));
      auto e = want.read(a, w);
      bool ok = false;
      int v = 0;
      sim::run_sut("InputSource::ReadByte/Word/Long", [&] {
        const nsasm::InputSource& s = rom;
        auto r = w == 1   ? s.ReadByte(nsasm::Address(a))
                 : w == 2 ? s.ReadWord(nsasm::Address(a))
                          : s.ReadLong(nsasm::Address(a));
        ok = r.ok();
        if (ok) v = *r;
      });
      sim::evaluated();
      if (ok != e.has_value()) {
        sim::violation((std::string(prop) + ".map").c_str(), "%d-byte value at $%06x %s", w, a,
                       ok ? "served though unmapped" : "refused though mapped");
      }
      if (e) {
        int x = 0;
        for (int k = w - 1; k >= 0; --k) x = x * 256 + (*e)[k];
        if (x != v) {
          sim::violation((std::string(prop) + ".wrong-bytes").c_str(),
                         "%d-byte value at $%06x is 0x%x, expected 0x%x", w, a, v, x);
        }
      }
    }
  }
}

Bytes maybe_malformed(const RomFile& r) {
  Bytes f = r.file();
  sim::Rng g = sim::data_rng("malform-data");
  switch (sim::choose(9, "malform")) {
    case 0: f.resize(f.size() - 1 - g.below(0x1ff)); break;
    case 1: f.resize(f.size() + 1 + g.below(0x1ff)); break;
    case 2: f.resize(g.below(3) * 0x200); break;
    case 3: f.resize(0xf000 + (g.below(2) ? 0x200 : 0)); break;
    case 4: f.resize(f.size() / 2); break;
    case 5: {  // both header checksums good
      Bytes img = r.image;
      model::set_pair(img, 0x7fb0, true, g);
      model::set_pair(img, 0xffb0, true, g);
      f = r.header;
      f.insert(f.end(), img.begin(), img.end());
      break;
    }
    case 6: {  // neither
      Bytes img = r.image;
      model::set_pair(img, 0x7fb0, false, g);
      model::set_pair(img, 0xffb0, false, g);
      f = r.header;
      f.insert(f.end(), img.begin(), img.end());
      break;
    }
    case 7: {  // flipped stored bits
      for (int i = 0; i < 3; ++i) {
        size_t base = r.header.size() + (g.below(2) ? 0x7fdc : 0xffdc);
        f[base + g.below(4)] ^= uint8_t(1u << g.below(8));
      }
      SIM_FAULT("stored-bit-flip");
      break;
    }
    default: {  // torn file: tail never written
      size_t cut = g.below(uint32_t(f.size()));
      std::fill(f.begin() + cut, f.end(), 0);
      SIM_FAULT("torn-file");
      break;
    }
  }
  return f;
}

}  // namespace

// ---------------------------------------------------------------------------
SIM_SCENARIO(R01, load, 1) {
  RomFile r = model::make_rom(true);
  Bytes file = r.file();
  if (sim::flip(1, 4, "malformed?")) file = maybe_malformed(r);
  if (sim::flip(1, 40, "missing?")) {
    // no file at all
  } else {
    fs::put(kIn, file);
  }
  int attempts = 1 + int(sim::choose(3, "attempts"));
  for (int k = 0; k < attempts; ++k) {
    bool last = k + 1 == attempts;
    fs::clear_marks();
    fs::Policy p = fs::choose_policy(true, false, true, 8);
    if (last && attempts > 1) p = fs::Policy();  // a clean retry
    fs::set_policy(p);
    RomPtr rom = load_rom(kIn);
    fs::set_policy(fs::Policy());
    sim::nontrivial();
    sim::evaluated();
    if (!fs::mutated().empty()) {
      sim::violation("R01.mutated", "loading modified %s", fs::mutated().begin()->c_str());
    }
    if (!fs::exists(kIn)) {
      if (rom) sim::violation("R01.ghost", "a file that does not exist was loaded");
      continue;
    }
    auto versions = fs::versions(kIn);
    bool disturbed = fs::errors_injected() > 0 || fs::external_change();
    if (fs::errors_injected()) SIM_PROBE("load with failed call");
    if (!rom) {
      if (!disturbed && model::load(versions[0])) {
        sim::violation("R01.refused", "a well-formed %zu-byte file was refused though no call failed",
                       versions[0].size());
      }
      SIM_PROBE("load refused");
    } else {
      // The ROM must be one of the contents the file had, byte for byte (or, when
      // it changed under the load, laid out as one of them with every byte one
      // that the file held at that offset).
      std::optional<RomFile> want;
      std::string why = "no version of the file is loadable";
      for (auto& v : versions) {
        auto m = model::load(v);
        if (!m || want) continue;
        why = layout_mismatch(*rom, *m, versions);
        if (why.empty()) want = m;
      }
      if (!want) {
        sim::violation("R01.bad-load", "loading succeeded with contents the file never had (%zu versions): %s",
                       versions.size(), why.c_str());
      }
      if (versions.size() == 1) {
        check_whole_image("R01", *rom, *want);
      } else {
        SIM_PROBE("loaded during concurrent change");
        // Reads below compare with what it holds.
        for (uint32_t bank = 0; bank < 256; ++bank) {
          for (uint32_t half = 0; half < 2; ++half) {
            uint32_t a = (bank << 16) | (half * 0x8000);
            auto o = want->offset(a);
            if (!o) continue;
            int n = int(std::min<size_t>(0x8000, want->image.size() - *o));
            auto got = read_rom(*rom, a, n);
            if (got) std::copy(got->begin(), got->end(), want->image.begin() + long(*o));
          }
        }
      }
      check_reads("R01", *rom, *want, 4 + sim::size_class());
      std::string path;
      sim::run_sut("Rom::Path", [&] { path = rom->Path(); });
      if (path != kIn) sim::violation("R01.path", "path is %s", path.c_str());
    }
    // Put the original back for the next attempt.
    fs::put(kIn, file);
  }
}

// ---------------------------------------------------------------------------
namespace {

struct Patched {
  std::unique_ptr<nsasm::RomOverwriter> sink;
  RomFile want;                                   // expected image
  std::map<size_t, std::set<uint8_t>> uncertain;  // prefix of refused writes
};

bool sut_write(nsasm::OutputSink* sink, uint32_t a, const Bytes& d, std::string* message = nullptr) {
  bool ok = false;
  sim::run_sut("OutputSink::Write", [&] {
    auto done = sink->Write(nsasm::Address(a), d);
    ok = done.ok();
    if (!ok && message) *message = done.error().ToString();
  });
  return ok;
}

void patch(const char* prop, Patched* p) {
  uint32_t a = model::pick_address(p->want);
  int n = model::pick_length("write-len");
  sim::Rng g = sim::data_rng("write-data");
  Bytes d(static_cast<size_t>(n));
  model::fill(d, g);
  bool ok = sut_write(p->sink.get(), a, d);
  int bad = -1;
  for (int i = 0; i < n && bad < 0; ++i) {
    if (!p->want.offset(model::wrap(a, uint32_t(i)))) bad = i;
  }
  sim::log("write $%06x %d -> %s", a, n, ok ? "ok" : "error");
  sim::evaluated();
  if (ok && bad >= 0) {
    sim::violation((std::string(prop) + ".accepted").c_str(),
                   "write of %d bytes at $%06x accepted although byte %d is unmapped or past the end",
                   n, a, bad);
  }
  if (!ok && bad < 0) {
    sim::violation((std::string(prop) + ".refused").c_str(),
                   "write of %d bytes at $%06x refused although all of it is mapped", n, a);
  }
  if (ok) {
    for (int i = 0; i < n; ++i) {
      size_t o = *p->want.offset(model::wrap(a, uint32_t(i)));
      p->want.image[o] = d[size_t(i)];
      p->uncertain.erase(o);
    }
    if (n > 1 && (a & 0xffff) + uint32_t(n) > 0x10000) SIM_PROBE("accepted write wraps a bank");
  } else {
    SIM_PROBE("refused write");
    for (int i = 0; i < bad; ++i) {
      size_t o = *p->want.offset(model::wrap(a, uint32_t(i)));
      auto& u = p->uncertain[o];
      u.insert(p->want.image[o]);
      u.insert(d[size_t(i)]);
    }
  }
}

bool same_file(const Patched& p, const Bytes& f, std::string* why) {
  size_t h = p.want.header.size();
  char b[200];
  if (f.size() != h + p.want.image.size()) {
    snprintf(b, sizeof b, "file has %zu bytes, expected %zu + %zu", f.size(), h,
             p.want.image.size());
    *why = b;
    return false;
  }
  if (memcmp(f.data(), p.want.header.data(), h) != 0) {
    *why = "copier header differs from the source file's";
    return false;
  }
  const uint8_t* img = f.data() + h;
  if (p.uncertain.empty() && memcmp(img, p.want.image.data(), p.want.image.size()) == 0) return true;
  for (size_t i = 0; i < p.want.image.size(); ++i) {
    if (img[i] == p.want.image[i]) continue;
    auto it = p.uncertain.find(i);
    if (it != p.uncertain.end() && it->second.count(img[i])) continue;
    snprintf(b, sizeof b, "image offset 0x%zx holds 0x%02x, expected 0x%02x", i, img[i],
             p.want.image[i]);
    *why = b;
    return false;
  }
  return true;
}

void adopt(Patched* p, const Bytes& f) {
  std::copy(f.begin() + long(p->want.header.size()), f.end(), p->want.image.begin());
  p->uncertain.clear();
}

void open_session(Patched* p, const std::string& path) {
  Bytes f = fs::get(path);
  auto m = model::load(f);
  fs::set_policy(fs::Policy());
  RomPtr rom = load_rom(path);
  if (!m || !rom) {
    if (bool(m) != bool(rom)) {
      sim::violation("R03.reload", "%s: %s", path.c_str(),
                     m ? "a well-formed file was refused" : "a malformed file was loaded");
    }
    p->sink = nullptr;
    return;
  }
  p->want = *m;
  p->uncertain.clear();
  sim::run_sut("RomOverwriter", [&] {
    p->sink = std::make_unique<nsasm::RomOverwriter>(std::move(rom));
  });
}

enum Created { kOk, kError, kKilled };
Created create(Patched* p, const std::string& path) {
  bool ok = false;
  auto r = sim::run_sut("RomOverwriter::CreateFile", [&] { ok = p->sink->CreateFile(path).ok(); });
  Created c = r.end == sim::End::kKilled ? kKilled : ok ? kOk : kError;
  sim::log("create %s -> %s", path.c_str(), c == kOk ? "ok" : c == kError ? "error" : "killed");
  return c;
}

}  // namespace

SIM_SCENARIO(R02, write_out, 1) {
  RomFile r = model::make_rom(sim::flip(1, 6, "allow-big"));
  fs::put(kIn, r.file());
  Patched p;
  open_session(&p, kIn);
  if (!p.sink) sim::violation("R02.reload", "a well-formed ROM file was refused");
  int n = int(sim::choose(4, "patches"));
  for (int i = 0; i < n; ++i) patch("R02", &p);
  if (sim::flip(1, 2, "previous")) {
    Bytes old(sim::flip(1, 2, "longer") ? r.image.size() + 5000 : 777, 0xAA);
    fs::put(kOut, old);
  }
  int rounds = 1 + int(sim::choose(3, "rounds"));
  for (int k = 0; k < rounds; ++k) {
    fs::clear_marks();
    fs::set_policy(fs::choose_policy(true, false, false, 6 + int(r.image.size() / 0x20000)));
    Created c = create(&p, kOut);
    bool err = fs::errors_injected() > 0;
    fs::set_policy(fs::Policy());
    sim::nontrivial();
    sim::evaluated();
    for (auto& m : fs::mutated()) {
      // Helper files beside the output are nobody's business while they are
      // gone at the end; checked below.
      if (m == kIn) sim::violation("R02.source-changed", "writing out changed the source ROM");
    }
    if (!err) {
      for (auto& f : fs::list()) {
        if (f != kIn && f != kOut) sim::violation("R02.stray", "stray file %s", f.c_str());
      }
    }
    if (c == kOk) {
      SIM_PROBE("write-out ok");
      if (fs::hard_errors_injected() > 0) {
        sim::violation("R02.swallowed", "reported success although a call on the file failed");
      }
      std::string why;
      if (!fs::exists(kOut)) sim::violation("R02.lie", "reported success but there is no file");
      if (!same_file(p, fs::get(kOut), &why)) {
        sim::violation("R02.lie", "reported success but %s", why.c_str());
      }
    } else {
      SIM_PROBE("write-out refused");
      if (!err) {
        sim::violation("R02.refused", "write-out failed though no call failed (%d short transfers)",
                       fs::shorts_injected());
      }
    }
    if (sim::flip(1, 2, "more-patches")) patch("R02", &p);
  }
}

SIM_SCENARIO(R03, sessions, 1) {
  RomFile r = model::make_rom(sim::flip(1, 6, "allow-big"));
  fs::put(kIn, r.file());
  Patched p;
  std::string base = kIn;
  int sessions = 1 + int(sim::choose(4, "sessions"));
  for (int s = 0; s < sessions; ++s) {
    open_session(&p, base);
    if (!p.sink) {
      if (base == kIn) sim::violation("R03.reload", "the source ROM was refused");
      SIM_PROBE("patched header made the file unloadable");
      return;
    }
    sim::nontrivial();
    int ops = 1 + int(sim::choose(4 + uint32_t(sim::size_class()) * 3, "ops"));
    bool alive = true;
    for (int i = 0; i < ops && alive; ++i) {
      if (sim::choose(5, "op") < 4) {
        patch("R03", &p);
        continue;
      }
      std::string out = sim::flip(1, 3, "other-out") ? "/sim/out2.sfc" : kOut;
      fs::clear_marks();
      fs::set_policy(fs::choose_policy(true, true, false, 6));
      Created c = create(&p, out);
      bool err = fs::errors_injected() > 0;
      fs::set_policy(fs::Policy());
      if (fs::get(kIn) != r.file()) sim::violation("R03.source-changed", "the source ROM changed");
      if (c == kKilled) {
        SIM_PROBE("killed during write-out");
        alive = false;
        break;
      }
      sim::evaluated();
      if (c == kError) {
        if (!err) sim::violation("R03.refused", "write-out failed though no call failed");
        continue;
      }
      std::string why;
      if (!fs::exists(out) || !same_file(p, fs::get(out), &why)) {
        sim::violation("R03.image", "written ROM is not source plus accepted writes: %s", why.c_str());
      }
      adopt(&p, fs::get(out));
      base = out;
    }
    if (!alive) {
      (void)p.sink.release();  // the process is gone
      base = kIn;
      continue;
    }
    // Clean end of the session.
    fs::clear_marks();
    fs::set_policy(fs::Policy());
    if (create(&p, kOut) != kOk) sim::violation("R03.refused", "write-out failed though no call failed");
    std::string why;
    sim::evaluated();
    if (!fs::exists(kOut) || !same_file(p, fs::get(kOut), &why)) {
      sim::violation("R03.image", "written ROM is not source plus accepted writes: %s", why.c_str());
    }
    adopt(&p, fs::get(kOut));
    base = kOut;
    // Reload and compare what is served.
    auto m = model::load(fs::get(kOut));
    RomPtr rom = load_rom(kOut);
    if (bool(m) != bool(rom)) sim::violation("R03.reload", "reload of the written file differs from the model");
    if (rom) {
      check_whole_image("R03", *rom, *m);
      check_reads("R03", *rom, *m, 2);
    }
  }
}

// ---------------------------------------------------------------------------
SIM_SCENARIO(R06, identity, 1) {
  RomFile r = model::make_rom(sim::flip(1, 6, "allow-big"));
  fs::put(kIn, r.file());
  fs::set_policy(fs::choose_policy(true, false, false, 8));
  RomPtr rom = load_rom(kIn);
  fs::set_policy(fs::Policy());
  if (!rom) rom = load_rom(kIn);
  if (!rom) sim::violation("R06.load", "the ROM was refused");
  std::unique_ptr<nsasm::RomIdentityTest> sink;
  sim::run_sut("RomIdentityTest", [&] {
    sink = std::make_unique<nsasm::RomIdentityTest>(std::move(rom));
  });
  int ops = 3 + int(sim::choose(10 + uint32_t(sim::size_class()) * 4, "ops"));
  for (int i = 0; i < ops; ++i) {
    uint32_t a = model::pick_address(r);
    int n = model::pick_length("len");
    auto want = r.read(a, n);
    Bytes d;
    if (want) {
      d = *want;
    } else {
      d.resize(size_t(n));
      // As far as it is mapped, the right bytes.
      for (int k = 0; k < n; ++k) {
        auto o = r.offset(model::wrap(a, uint32_t(k)));
        if (o) d[size_t(k)] = r.image[*o];
      }
    }
    bool expect = want.has_value();
    if (n > 0 && sim::flip(1, 2, "flip?")) {
      int how = int(sim::choose(4, "flip-where"));
      size_t at = how == 0   ? size_t(n - 1)
                  : how == 1 ? 0
                  : how == 2 ? size_t(sim::choose(uint32_t(n), "flip-at"))
                             : std::min<size_t>(size_t(n - 1), 0x10000 - (a & 0xffff));
      d[at] ^= uint8_t(1u << sim::choose(8, "flip-bit"));
      SIM_FAULT("flipped-byte-in-write");
      if (sim::flip(1, 3, "another")) {
        size_t other = size_t(sim::choose(uint32_t(n), "flip-at"));
        if (other != at) d[other] ^= uint8_t(1u << sim::choose(8, "flip-bit"));
      }
      expect = false;
    }
    std::string message;
    bool ok = sut_write(sink.get(), a, d, &message);
    sim::evaluated();
    sim::nontrivial();
    sim::log("identity write $%06x %d -> %s", a, n, ok ? "ok" : "error");
    if (ok != expect) {
      sim::violation(ok ? "R06.accepted" : "R06.refused", "write of %d bytes at $%06x was %s", n, a,
                     ok ? "accepted but does not match the ROM" : "refused but matches the ROM");
    }
    if (!ok && want) {
      int k = 0;
      while (d[size_t(k)] == (*want)[size_t(k)]) ++k;
      char at[16];
      uint32_t bad = model::wrap(a, uint32_t(k));
      snprintf(at, sizeof at, "%06x", unsigned(bad));
      std::string lower;
      for (char ch : message) lower += char(tolower(ch));
      if (lower.find(at) == std::string::npos) {
        sim::violation("R06.place", "write of %d bytes at $%06x first differs at $%s, but the error is `%s'", n, a, at,
                       message.c_str());
      }
    }
  }
}

// ---------------------------------------------------------------------------
namespace {

std::string chunk_str(const nsasm::Chunk& c) {
  char b[40];
  snprintf(b, sizeof b, "[$%06x,$%06x)", unsigned(c.first.Bank() << 16 | c.first.BankAddress()),
           unsigned(c.second.Bank() << 16 | c.second.BankAddress()));
  return b;
}
uint32_t num(nsasm::Address a) { return uint32_t(a.Bank()) << 16 | a.BankAddress(); }

// A byte set over 24-bit addresses, as sorted disjoint intervals.
struct ByteSet {
  std::map<uint32_t, uint32_t> iv;  // start -> end
  bool contains(uint32_t a) const {
    auto it = iv.upper_bound(a);
    if (it == iv.begin()) return false;
    --it;
    return a < it->second;
  }
  bool overlaps(uint32_t b, uint32_t e) const {
    auto it = iv.lower_bound(b);
    if (it != iv.end() && it->first < e) return true;
    if (it == iv.begin()) return false;
    --it;
    return it->second > b;
  }
  void add(uint32_t b, uint32_t e) {
    if (b >= e) return;
    auto it = iv.upper_bound(b);
    if (it != iv.begin()) {
      auto p = std::prev(it);
      if (p->second >= b) {
        b = p->first;
        e = std::max(e, p->second);
        it = iv.erase(p);
      }
    }
    while (it != iv.end() && it->first <= e) {
      e = std::max(e, it->second);
      it = iv.erase(it);
    }
    iv[b] = e;
  }
  bool operator==(const ByteSet& o) const { return iv == o.iv; }
};
std::vector<std::pair<uint32_t, uint32_t>> spans(uint32_t a, int n) {
  std::vector<std::pair<uint32_t, uint32_t>> r;
  uint32_t off = a & 0xffff, bank = a & 0xff0000;
  uint32_t first = std::min<uint32_t>(uint32_t(n), 0x10000 - off);
  if (first) r.push_back({a, a + first});
  if (uint32_t(n) > first) r.push_back({bank, bank + uint32_t(n) - first});
  return r;
}

uint32_t claim_address(const ByteSet& s, uint32_t lo_bank, uint32_t nbanks, int n) {
  // Near an existing boundary, or anywhere.
  std::vector<uint32_t> edges;
  for (auto& i : s.iv) {
    edges.push_back(i.first);
    edges.push_back(i.second);
  }
  if (!edges.empty() && sim::choose(4, "claim-near") > 0) {
    uint32_t e = edges[sim::choose(uint32_t(edges.size()), "edge")];
    int64_t base = sim::flip(1, 2, "before") ? int64_t(e) - n : int64_t(e);
    base += int64_t(sim::choose(5, "delta")) - 2;
    if (base >= 0 && base <= 0xffffff) return uint32_t(base);
  }
  uint32_t bank = (lo_bank + sim::choose(nbanks, "claim-bank")) & 0xff;
  static const uint32_t kO[] = {0x0000, 0x8000, 0xffff, 0xfff8, 0x7ffe};
  uint32_t off = sim::flip(1, 2, "off?") ? kO[sim::choose(5, "off")] : sim::choose(64, "off64");
  return bank << 16 | off;
}

int claim_length() {
  switch (sim::choose(6, "claim-len")) {
    case 0: return 1 + int(sim::choose(4, "len"));
    case 1: return int(sim::choose(20, "len"));
    case 2: return 0;
    case 3: return 0x10000 - int(sim::choose(3, "len"));
    case 4: return 0x8000 + int(sim::choose(16, "len")) - 8;
    default: return int(sim::choose(0x10000, "len"));
  }
}

void check_range(const nsasm::DataRange& r, const ByteSet& want) {
  // Chunks: ascending, non-empty, exactly the bytes.
  ByteSet got;
  uint32_t prev_end = 0;
  bool first = true;
  for (const nsasm::Chunk& c : r.Chunks()) {
    uint32_t b = num(c.first), e = num(c.second);
    if (b >= e) sim::violation("R07.chunks", "empty chunk %s", chunk_str(c).c_str());
    if (!first && b < prev_end) {
      sim::violation("R07.chunks", "chunks out of order or overlapping at %s", chunk_str(c).c_str());
    }
    first = false;
    prev_end = e;
    got.add(b, e);
  }
  sim::evaluated();
  if (!(got == want)) {
    sim::violation("R07.union", "the chunks do not cover exactly the claimed bytes");
  }
  auto probe = [&](uint32_t a) {
    if (a > 0xffffff) return;
    sim::evaluated();
    if (r.Contains(nsasm::Address(a)) != want.contains(a)) {
      sim::violation("R07.contains", "Contains($%06x) is %d", a, !want.contains(a));
    }
  };
  for (auto& i : want.iv) {
    probe(i.first);
    probe(i.first - 1);
    probe(i.second);
    probe(i.second - 1);
    probe((i.first + i.second) / 2);
  }
  probe(0);
  probe(0xffffff);
}

}  // namespace

// Several claimants, scheduled one claim at a time, on shared ranges and maps.
SIM_SCENARIO(R07, claims, 2) {
  uint32_t lo = sim::choose(256, "lo-bank"), nb = 1 + sim::choose(4, "banks");
  nsasm::DataRange range;
  ByteSet want;
  int ops = 2 + int(sim::choose(6 + uint32_t(sim::size_class()) * 6, "ops"));
  for (int i = 0; i < ops; ++i) {
    int who = int(sim::choose(3, "claimant"));
    int n = claim_length();
    uint32_t a = claim_address(want, lo, nb, n);
    auto sp = spans(a, n);
    bool free_before = true;
    for (auto& s : sp) free_before = free_before && !want.overlaps(s.first, s.second);
    bool by_chunk = n > 0 && sp.size() == 1 && sim::flip(1, 4, "by-chunk");
    bool ok = false;
    sim::run_sut("DataRange::ClaimBytes", [&] {
      ok = by_chunk ? range.ClaimBytes(
                          nsasm::Chunk(nsasm::Address(sp[0].first), nsasm::Address(sp[0].second)))
                    : range.ClaimBytes(nsasm::Address(a), n);
    });
    for (auto& s : sp) want.add(s.first, s.second);
    sim::log("claimant %d claims $%06x+%d -> %d", who, a, n, ok);
    sim::evaluated();
    sim::nontrivial();
    if (sp.size() > 1) SIM_PROBE("claim wraps a bank");
    if (!ok) SIM_PROBE("claim conflicts");
    if (ok != free_before) {
      sim::violation(ok ? "R07.double-claim" : "R07.false-conflict",
                     "claim of %d bytes at $%06x reported %s", n, a,
                     ok ? "free although some were already claimed" : "a conflict although all were free");
    }
    sim::run_sut("DataRange queries", [&] { check_range(range, want); });
  }
}

SIM_SCENARIO(R07, range_map, 2) {
  uint32_t lo = sim::choose(256, "lo-bank"), nb = 1 + sim::choose(4, "banks");
  nsasm::RangeMap<int> map;
  ByteSet used;
  struct Entry {
    uint32_t b, e;
    int value;
  };
  std::vector<Entry> entries;
  int inserts = 1 + int(sim::choose(4 + uint32_t(sim::size_class()) * 3, "inserts"));
  for (int i = 0; i < inserts; ++i) {
    nsasm::DataRange range;
    ByteSet mine;
    int parts = 1 + int(sim::choose(4, "parts"));
    for (int k = 0; k < parts; ++k) {
      int n = claim_length();
      uint32_t a = claim_address(sim::flip(1, 2, "near-own") ? mine : used, lo, nb, n);
      sim::run_sut("DataRange::ClaimBytes", [&] { range.ClaimBytes(nsasm::Address(a), n); });
      for (auto& s : spans(a, n)) mine.add(s.first, s.second);
      sim::log("  part $%06x+%d", a, n);
    }
    bool conflict = false;
    for (auto& s : mine.iv) conflict = conflict || used.overlaps(s.first, s.second);
    bool ok = false;
    sim::run_sut("RangeMap::Insert", [&] { ok = map.Insert(range, i + 1); });
    sim::log("insert %d -> %d", i + 1, ok);
    sim::evaluated();
    sim::nontrivial();
    if (ok == conflict) {
      sim::violation(ok ? "R07.double-claim" : "R07.false-conflict", "insertion %d was %s", i + 1,
                     ok ? "accepted although it overlaps an accepted one"
                        : "refused although it overlaps nothing");
    }
    if (ok) {
      for (auto& s : mine.iv) {
        used.add(s.first, s.second);
        entries.push_back({s.first, s.second, i + 1});
      }
    } else {
      SIM_PROBE("insertion refused");
    }
    std::vector<uint32_t> probes = {0, 0xffffff};
    for (auto& e : entries) {
      for (uint32_t a : {e.b, e.b - 1, e.e, e.e - 1, (e.b + e.e) / 2}) probes.push_back(a);
    }
    for (auto& s : mine.iv) {
      for (uint32_t a : {s.first, s.second - 1, s.second, (s.first + s.second) / 2}) probes.push_back(a);
    }
    sim::run_sut("RangeMap queries", [&] {
      for (uint32_t a : probes) {
        if (a > 0xffffff) continue;
        int v = 0;
        for (auto& e : entries) {
          if (a >= e.b && a < e.e) v = e.value;
        }
        sim::evaluated();
        auto got = map.Lookup(nsasm::Address(a));
        if (map.Contains(nsasm::Address(a)) != (v != 0)) {
          sim::violation("R07.contains", "map Contains($%06x) is %d", a, v == 0);
        }
        if (got.has_value() != (v != 0) || (v != 0 && *got != v)) {
          sim::violation("R07.lookup", "Lookup($%06x) gives %d, expected %d", a,
                         got.has_value() ? *got : 0, v);
        }
      }
    });
  }
}

// ---------------------------------------------------------------------------
extern "C" int quick_dump_main(int argc, char** argv);

SIM_SCENARIO(R09, quick_dump, 1) {
  RomFile r = model::make_rom(sim::flip(1, 6, "allow-big"));
  Bytes file = r.file();
  if (sim::flip(1, 10, "malformed?")) file = maybe_malformed(r);
  fs::put(kIn, file);
  auto m = model::load(file);
  uint32_t a = model::pick_address(r);
  for (int tries = 0; tries < 8 && !r.read(a, 1) && !sim::flip(1, 12, "unmapped"); ++tries) {
    a = model::pick_address(r);
  }
  int count = 1 + int(sim::choose(40, "count"));
  if (sim::flip(1, 6, "long")) count = 1 + int(sim::choose(3000, "count"));
  if (sim::flip(1, 12, "very-long")) count = 1 + int(sim::choose(12000, "count"));
  int stride = 1 + int(sim::choose(3, "stride"));
  int per_line = 1 + int(sim::choose(20, "per-line"));
  if (count > 3000) per_line = std::max(per_line, 8);
  int nargs = 3 + int(sim::choose(3, "nargs"));
  if (sim::flip(1, 60, "round-the-bank")) {  // further than a bank is long
    count = 0x8000 + int(sim::choose(0xa000, "count"));
    per_line = 300 + int(sim::choose(1000, "per-line"));
    nargs = 5;
    SIM_PROBE("more entries than a bank has bytes");
  }
  if (nargs < 4) stride = 1;
  if (nargs < 5) per_line = 8;  // quick_dump is quadratic in count / per_line
  char addr[16];
  snprintf(addr, sizeof addr, sim::flip(1, 4, "upper") ? "%X" : "%x", a);
  std::vector<std::string> args = {"quick_dump", kIn, addr, std::to_string(count),
                                   std::to_string(stride), std::to_string(per_line)};
  args.resize(size_t(nargs) + 1);
  bool malformed = false;
  if (sim::flip(1, 12, "odd-argument")) {
    size_t which = 2 + sim::choose(uint32_t(nargs) - 1, "which");
    static const char* kOddAddress[] = {"", "@", "xyz", "1000000", "ffffffff", "100008000", "8000zz", "-1", "ffffffff00008000"};
    static const char* kOddNumber[] = {"", "x", "-", " ", "$8"};
    args[which] = which == 2 ? kOddAddress[sim::choose(9, "odd")] : kOddNumber[sim::choose(5, "odd")];
    malformed = true;
    SIM_PROBE("malformed argument");
  }
  std::vector<char*> argv;
  for (auto& s : args) argv.push_back(&s[0]);
  argv.push_back(nullptr);
  fs::clear_marks();
  fs::set_policy(sim::flip(1, 2, "faults") ? fs::choose_policy(true, false, false, 8) : fs::Policy());
  auto run = [&](long room, std::string* said) {
    fs::begin_capture(room);
    int code = -1;
    auto res = sim::run_sut("quick_dump", [&] { code = quick_dump_main(int(args.size()), argv.data()); },
                            2'000'000'000);
    *said = fs::end_capture();
    return res.end == sim::End::kExited ? res.exit_code : code;
  };
  std::string out;
  int code = run(-1, &out);
  bool err = fs::errors_injected() > 0;
  fs::set_policy(fs::Policy());
  sim::nontrivial();
  sim::evaluated();
  sim::log("quick_dump $%06x count %d stride %d per line %d -> exit %d, %zu bytes", a, count, stride,
           per_line, code, out.size());

  std::optional<std::vector<uint32_t>> want;
  if (m) {
    want.emplace();
    for (int i = 0; i < count && want; ++i) {
      auto b = m->read(model::wrap(a, uint32_t(i * stride)), stride);
      if (!b) {
        want.reset();
        break;
      }
      uint32_t v = 0;
      for (int k = stride - 1; k >= 0; --k) v = v * 256 + (*b)[size_t(k)];
      want->push_back(v);
    }
  }
  if (malformed) want.reset();
  // Parse what was printed.
  bool has_dump = out.compare(0, 2, ".d") == 0 || out.find(".org $") != std::string::npos || out.find("\n.d") != std::string::npos;
  if (code != 0) {
    if (!err && want) sim::violation("R09.refused", "exit %d though everything was readable: %s", code, out.c_str());
    if (out.empty()) sim::violation("R09.silent", "exit %d without a diagnostic", code);
    if (has_dump) sim::violation("R09.partial", "exit %d after printing dump lines", code);
    SIM_PROBE("dump refused");
    return;
  }
  if (!want) sim::violation("R09.lie", "exit 0 although %s", malformed ? "an argument is malformed" : "the requested entries cannot be read");
  SIM_PROBE("dump printed");
  const char* dir = stride == 1 ? ".db" : stride == 2 ? ".dw" : ".dl";
  std::vector<uint32_t> got;
  size_t pos = 0;
  bool org = false;
  while (pos < out.size()) {
    size_t nl = out.find('\n', pos);
    if (nl == std::string::npos) nl = out.size();
    std::string line = out.substr(pos, nl - pos);
    pos = nl + 1;
    if (line.empty()) continue;
    if (!org) {
      unsigned v = 0;
      if (sscanf(line.c_str(), ".org $%x", &v) != 1 || v != a) {
        sim::violation("R09.org", "first line is `%s', expected .org $%06x", line.c_str(), a);
      }
      org = true;
      continue;
    }
    if (line.compare(0, 3, dir) != 0) sim::violation("R09.directive", "line `%s'", line.c_str());
    size_t q = 3;
    size_t n_on_line = 0;
    while (q < line.size()) {
      if (line[q] == ' ' || line[q] == ',') {
        ++q;
        continue;
      }
      char* end = nullptr;
      if (line[q] != '$') sim::violation("R09.entry", "line `%s'", line.c_str());
      uint32_t v = uint32_t(strtoul(line.c_str() + q + 1, &end, 16));
      got.push_back(v);
      ++n_on_line;
      q = size_t(end - line.c_str());
    }
    if (n_on_line > size_t(per_line)) sim::violation("R09.entry", "%zu entries on one line", n_on_line);
  }
  if (!org) sim::violation("R09.org", "no .org line");
  if (got.size() != want->size()) {
    sim::violation("R09.count", "%zu entries printed, %d requested", got.size(), count);
  }
  for (size_t i = 0; i < got.size(); ++i) {
    if (got[i] != (*want)[i]) {
      sim::violation("R09.value", "entry %zu is 0x%x, expected 0x%x", i, got[i], (*want)[i]);
    }
  }
  if (sim::flip(1, 4, "full-output")) {
    uint32_t room = sim::choose(uint32_t(out.size()), "room");
    SIM_FAULT("stdout:no-space");
    std::string said;
    if (run(room, &said) == 0) {
      sim::violation("R09.lost", "exit 0 although only %u of the %zu bytes of the dump could be written", room, out.size());
    }
  }
}
