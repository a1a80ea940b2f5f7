// Reference model of SNES cartridge files, written from the documented maps
// (not from the code under test), and a generator of ROM files.
#ifndef VERIF_ROMMODEL_H
#define VERIF_ROMMODEL_H

#include <cstdint>
#include <optional>
#include <string>
#include <vector>

#include "sim/fs.h"
#include "sim/sim.h"

namespace model {

using Bytes = std::vector<uint8_t>;
enum MapMode { kLo, kHi, kExHi };

inline std::optional<size_t> map_address(MapMode m, uint32_t a) {
  uint32_t bank = (a >> 16) & 0xff, off = a & 0xffff;
  if (bank == 0x7e || bank == 0x7f) return {};
  bool system_bank = (bank & 0x7f) < 0x40;
  if (system_bank && off < 0x8000) return {};
  switch (m) {
    case kLo:
      if (off < 0x8000) return {};
      return size_t(bank & 0x7f) * 0x8000 + (off - 0x8000);
    case kHi:
      return size_t(bank & 0x3f) * 0x10000 + off;
    case kExHi:
      return size_t(bank & 0x3f) * 0x10000 + off + (bank < 0x80 ? 0x400000 : 0);
  }
  return {};
}
inline uint32_t wrap(uint32_t a, uint32_t i) {
  return (a & 0xff0000) | ((a + i) & 0xffff);
}

struct RomFile {
  Bytes header;
  Bytes image;
  MapMode mode = kLo;
  std::optional<size_t> offset(uint32_t a) const {
    auto o = map_address(mode, a);
    if (!o || *o >= image.size()) return {};
    return o;
  }
  std::optional<Bytes> read(uint32_t a, int n) const {
    Bytes r;
    for (int i = 0; i < n; ++i) {
      auto o = offset(wrap(a, uint32_t(i)));
      if (!o) return {};
      r.push_back(image[*o]);
    }
    return r;
  }
  Bytes file() const {
    Bytes f = header;
    f.insert(f.end(), image.begin(), image.end());
    return f;
  }
};

inline bool checksum_pair(const Bytes& d, size_t base) {
  return (d[base + 0x2c] ^ d[base + 0x2e]) == 0xff && (d[base + 0x2d] ^ d[base + 0x2f]) == 0xff;
}

// What loading a file with these contents must give; nullopt = refused.
inline std::optional<RomFile> load(const Bytes& f) {
  RomFile r;
  size_t n = f.size();
  if (n == 0) return {};
  size_t hdr = n % 0x1000;
  if (hdr != 0 && hdr != 0x200) return {};
  r.header.assign(f.begin(), f.begin() + hdr);
  r.image.assign(f.begin() + hdr, f.end());
  if (r.image.size() < 0x10000) return {};
  bool lo = checksum_pair(r.image, 0x7fb0), hi = checksum_pair(r.image, 0xffb0);
  if (lo == hi) return {};
  r.mode = lo ? kLo : r.image.size() <= 0x400000 ? kHi : kExHi;
  return r;
}

inline void set_pair(Bytes& d, size_t base, bool good, sim::Rng& g) {
  uint8_t a = uint8_t(g.next()), b = uint8_t(g.next());
  d[base + 0x2c] = a;
  d[base + 0x2d] = b;
  d[base + 0x2e] = uint8_t(~a);
  d[base + 0x2f] = uint8_t(~b);
  if (!good) {
    int k = int(g.below(4));
    d[base + 0x2c + k] ^= uint8_t(1 + g.below(255));
  }
}

inline void fill(Bytes& b, sim::Rng& g) {
  size_t i = 0;
  for (; i + 8 <= b.size(); i += 8) {
    uint64_t v = g.next();
    for (int k = 0; k < 8; ++k) b[i + k] = uint8_t(v >> (8 * k));
  }
  for (; i < b.size(); ++i) b[i] = uint8_t(g.next());
}

// A well-formed ROM file.  `big` allows images of several MiB.
inline RomFile make_rom(bool big) {
  RomFile r;
  int kind = sim::pick({4, 4, big ? 2 : 0}, "rom-kind");
  static const size_t kSizes[] = {0x10000, 0x11000, 0x18000, 0x20000, 0x2f000,
                                  0x30000, 0x40000, 0x80000};
  size_t n = kSizes[sim::choose(8, "rom-size")];
  if (kind < 2 && big && sim::flip(1, 10, "rom-big")) {
    static const size_t kBig[] = {0x3ff000, 0x400000, 0x200000, 0x301000};
    n = kBig[sim::choose(4, "rom-big-size")];
  }
  if (kind == 2) {
    static const size_t kEx[] = {0x401000, 0x410000, 0x480000, 0x600000};
    n = kEx[sim::choose(4, "rom-ex-size")];
  }
  r.mode = kind == 0 ? kLo : n <= 0x400000 ? kHi : kExHi;
  sim::Rng g = sim::data_rng("rom-data");
  if (sim::flip(1, 2, "rom-header")) {
    r.header.resize(0x200);
    fill(r.header, g);
  }
  r.image.resize(n);
  fill(r.image, g);
  set_pair(r.image, 0x7fb0, kind == 0, g);
  set_pair(r.image, 0xffb0, kind != 0, g);
  return r;
}

// An address, biased to the places where maps, banks and images end.
inline uint32_t pick_address(const RomFile& r) {
  uint32_t bank, off;
  switch (sim::choose(6, "addr-bank")) {
    case 0: {  // inside the image
      size_t banks = r.image.size() / (r.mode == kLo ? 0x8000 : 0x10000) + 1;
      bank = sim::choose(uint32_t(std::min<size_t>(banks, 0x80)), "bank");
      if (r.mode == kHi) bank |= 0xc0;
      if (r.mode == kExHi) bank = sim::flip(1, 2, "ex") ? 0x40 | (bank & 0x3f) : 0xc0 | (bank & 0x3f);
      break;
    }
    case 1: bank = 0x80 + sim::choose(0x40, "bank"); break;
    case 2: bank = sim::choose(256, "bank"); break;
    case 3: bank = sim::choose(0x40, "bank"); break;
    case 4: bank = 0x40 + sim::choose(0x3e, "bank"); break;
    default: {
      static const uint32_t kB[] = {0x00, 0x3f, 0x40, 0x7d, 0x7e, 0x7f, 0x80, 0xbf, 0xc0, 0xff};
      bank = kB[sim::choose(10, "bank")];
    }
  }
  switch (sim::choose(5, "addr-off")) {
    case 0: off = 0x8000; break;
    case 1: {
      static const uint32_t kO[] = {0x0000, 0x7fff, 0x8000, 0x8001, 0xffff, 0xfffe, 0xfffd, 0xfff0};
      off = kO[sim::choose(8, "off")];
      break;
    }
    case 2: off = sim::choose(0x10000, "off"); break;
    case 3: off = 0x8000 + sim::choose(0x8000, "off"); break;
    default: {  // around the end of the image
      size_t end = r.image.size() - 4 + sim::choose(9, "end");
      if (r.mode == kLo) {
        bank = uint32_t(end >> 15) & 0x7f;
        off = 0x8000 | (end & 0x7fff);
      } else {
        bank = 0xc0 | (uint32_t(end >> 16) & 0x3f);
        if (r.mode == kExHi && end >= 0x400000) bank = 0x40 | (uint32_t(end >> 16) & 0x3f);
        off = end & 0xffff;
      }
    }
  }
  return (bank << 16) | off;
}

inline int pick_length(const char* label) {
  switch (sim::choose(7, label)) {
    case 0: return 1 + int(sim::choose(4, label));
    case 1: return 0;
    case 2: return int(sim::choose(64, label));
    case 3: return 0x7ffc + int(sim::choose(8, label));
    case 4: return 0xfffc + int(sim::choose(8, label));
    case 5: return int(sim::choose(0x2000, label));
    default: return 0x10000 + int(sim::choose(0x12000, label));
  }
}

}  // namespace model
#endif
