// ROM contents, sources that fail, and running the disassembler on them.
#ifndef VERIF_DISRUN_H
#define VERIF_DISRUN_H

#include <cstdint>
#include <functional>
#include <map>
#include <memory>
#include <optional>
#include <set>
#include <string>
#include <utility>
#include <vector>

#include "asmrun.h"
#include "nsasm/disassemble.h"
#include "nsasm/opcode_map.h"
#include "rommodel.h"
#include "sim/sim.h"

namespace disrun {

using asmgen::Flags;
using asmrun::num;

struct Entry {
  uint32_t at;
  Flags flags;
};

// What is at every address of the simulated machine.
struct Image {
  std::map<uint32_t, uint8_t> bytes;
  bool everywhere = false;  // other addresses hold arbitrary bytes; else unreadable
  uint64_t salt = 0;
  std::vector<Entry> entries;
  std::vector<uint32_t> callees;  // places worth giving a return convention
  bool from_program = false;      // assembled from a generated program, not disturbed
  const model::RomFile* rom = nullptr;  // if set, the machine holds just this

  std::optional<uint8_t> at(uint32_t a) const {
    if (rom) {
      auto off = rom->offset(a);
      if (!off) return {};
      return rom->image[*off];
    }
    auto it = bytes.find(a);
    if (it != bytes.end()) return it->second;
    if (!everywhere) return {};
    uint64_t z = (a + salt) * 0x9e3779b97f4a7c15ull;
    z ^= z >> 29;
    // Mostly things that end a routine, so that stray jumps do not go on for ever.
    static const uint8_t kEnd[] = {0x60, 0x6b, 0x40, 0xdb, 0x80, 0x60};
    return z % 3 ? kEnd[(z >> 8) % 6] : uint8_t(z >> 16);
  }
};

class Source : public nsasm::InputSource {
 public:
  struct State {
    const Image* image = nullptr;
    int reads = 0;
    std::set<int> fail_at;
    std::set<uint32_t> bad;  // unreadable for the time being
    int failed = 0;
    std::string message = "sector 4711 is unreadable";
  };
  explicit Source(State* s) : s_(s) {}
  std::string Path() const override { return "/sim/image"; }
  nsasm::ErrorOr<std::vector<uint8_t>> Read(nsasm::Address address, int length) const override {
    int n = s_->reads++;
    if (s_->fail_at.count(n)) {
      SIM_FAULT("source read failed");
      ++s_->failed;
      return nsasm::Error("%s", s_->message);
    }
    std::vector<uint8_t> v;
    for (int i = 0; i < length; ++i) {
      uint32_t a = cpu::wrap(num(address), i);
      if (s_->bad.count(a)) {
        SIM_FAULT("source temporarily unreadable");
        ++s_->failed;
        return nsasm::Error("%s", s_->message);
      }
      auto b = s_->image->at(a);
      if (!b) return nsasm::Error("%06x is not mapped", a);
      v.push_back(*b);
    }
    return v;
  }

 private:
  State* s_;
};

inline nsasm::BitState to_bit(int b) { return b < 0 ? nsasm::B_unknown : b ? nsasm::B_on : nsasm::B_off; }
inline nsasm::StatusFlags to_flags(const Flags& f) {
  return nsasm::StatusFlags(to_bit(f.e), to_bit(f.m), to_bit(f.x));
}

// ---- contents ------------------------------------------------------------------

inline Flags entry_flags() {
  // Mostly definite, as modes are given on a command line.
  switch (sim::pick({6, 2, 2}, "entry-flags")) {
    case 0: return {0, int(sim::choose(2, "m")), int(sim::choose(2, "x"))};
    case 1: return {1, 1, 1};
    default:
      if (sim::choose(2, "e")) return {-1, -1, -1};
      return {0, int(sim::choose(3, "m")) - 1, int(sim::choose(3, "x")) - 1};
  }
}

// Code written directly as opcodes, with branches that join in any state.
class RawCode {
 public:
  RawCode(Image* im, sim::Rng g) : im_(im), g_(g) {}

  void make(int routines, int length) {
    static const uint32_t banks[] = {0x00, 0x80, 0x01, 0xc0, 0x7e};
    std::vector<uint32_t> starts;
    uint32_t bank = banks[sim::choose(5, "bank")];
    for (int i = 0; i < routines; ++i) {
      uint32_t off = 0x8000 + uint32_t(i) * 0x400 + g_.below(0x100);
      if (i == 0 && sim::flip(1, 5, "bank-end")) off = 0xffff - g_.below(uint32_t(length));
      if (sim::flip(1, 6, "other-bank")) bank = banks[g_.below(5)];
      starts.push_back(bank << 16 | off);
    }
    for (auto s : starts) {
      im_->callees.push_back(s);
      routine(s, starts, length);
    }
    if (sim::flip(1, 10, "bank-seam")) {  // code that runs over the end of two neighbouring banks
      uint32_t b = uint32_t(g_.below(4)) << 16;
      bool sub = g_.below(2);
      auto put = [&](uint32_t a, std::vector<uint8_t> v) {
        for (size_t i = 0; i < v.size(); ++i) im_->bytes[cpu::wrap(a, int(i))] = v[i];
      };
      put(b | 0xffff, {uint8_t(sub ? 0x38 : 0x18), uint8_t(g_.below(2) ? 0xea : 0x65), 0x60, 0x60, 0x60, 0x60});
      put((b + 0x10000) | 0xfffe, {0xa5, uint8_t(g_.next()), uint8_t(sub ? 0xe5 : 0x65), uint8_t(g_.next()), 0x60, 0x60, 0x60, 0x60});
      im_->entries.push_back({b | 0xffff, entry_flags()});
      im_->entries.push_back({(b + 0x10000) | 0xfffe, entry_flags()});
    }
    if (sim::flip(1, 16, "long-chain")) {  // one routine leads to the next, many times over
      int k = 8 + int(sim::choose(50, "chain"));
      std::vector<uint32_t> order;
      for (int i = 0; i < k; ++i) order.push_back((starts[0] & 0xff0000) | uint32_t(0xd000 + 16 * i));
      if (g_.below(2)) std::reverse(order.begin(), order.end());
      for (int i = 0; i < k; ++i) {
        uint32_t a = order[size_t(i)], t = i + 1 < k ? order[size_t(i) + 1] : starts[0];
        static const uint8_t kHow[] = {0x20, 0x22, 0x4c, 0x5c};
        uint8_t how = kHow[g_.below(4)];
        im_->bytes[a++] = g_.below(3) ? 0xea : g_.below(2) ? 0xe2 : 0x18;
        if (im_->bytes[a - 1] == 0xe2) im_->bytes[a++] = 0x10;
        im_->bytes[a++] = how;
        im_->bytes[a++] = uint8_t(t);
        im_->bytes[a++] = uint8_t(t >> 8);
        if (how & 2 || how == 0x5c) im_->bytes[a++] = uint8_t(t >> 16);
        for (int q = 0; q < 5; ++q) im_->bytes[a++] = 0x60;
      }
      im_->entries.push_back({order[0], entry_flags()});
      SIM_PROBE("long chain of jumps");
    }
    int n = 1 + int(sim::choose(uint32_t(routines), "entries"));
    for (int i = 0; i < n; ++i) im_->entries.push_back({starts[size_t(i)], entry_flags()});
    // Sometimes also into the middle.
    if (sim::flip(1, 4, "middle-entry")) im_->entries.push_back({spots_[g_.below(uint32_t(spots_.size()))], entry_flags()});
  }

 private:
  Image* im_;
  sim::Rng g_;
  std::vector<uint32_t> spots_;

  struct Ins {
    uint8_t op;
    std::vector<uint8_t> arg;
    int branch = -1;  // index of the target instruction
  };

  // Flags kept under other things on the stack, which two ways of getting there
  // may have pushed differently.
  void stack_games(std::vector<Ins>& v) {
    static const uint8_t kPush[] = {0x48, 0xda, 0x5a, 0x8b, 0x0b, 0x4b, 0x08};
    static const uint8_t kPull[] = {0x68, 0xfa, 0x7a, 0xab, 0x2b, 0xab, 0x28};
    auto put = [&](uint8_t op, std::vector<uint8_t> a = {}) { v.push_back({op, a}); };
    auto branch = [&](uint8_t op, int over) {
      Ins b{op, {0}};
      b.branch = int(v.size()) + 1 + over;
      v.push_back(b);
    };
    auto sepp = [&] { put(g_.below(2) ? 0xe2 : 0xc2, {uint8_t((1 + g_.below(3)) << 4)}); };
    if (g_.below(3) == 0) sepp();
    put(0x08);
    if (g_.below(4) == 0) sepp();
    size_t a = g_.below(7), b = g_.below(4) ? g_.below(7) : a;
    if (g_.below(2)) {  // one of two pushes
      branch(0xd0, 2);
      put(kPush[a]);
      branch(0x80, 1);
      put(kPush[b]);
    } else {
      put(kPush[a]);
    }
    if (g_.below(5) == 0) sepp();
    put(kPull[g_.below(3) ? a : g_.below(7)]);
    if (g_.below(6) == 0) put(kPull[g_.below(7)]);
    put(0x28);
  }

  void routine(uint32_t start, const std::vector<uint32_t>& starts, int length) {
    std::vector<Ins> v;
    int m = int(g_.below(2)), x = int(g_.below(2));  // what the writer has in mind
    int n = 2 + int(sim::choose(uint32_t(length), "raw-length"));
    auto put = [&](uint8_t op, std::vector<uint8_t> a = {}) { v.push_back({op, a}); };
    auto byte = [&] { return uint8_t(g_.below(3) ? g_.below(64) : g_.next()); };
    for (int i = 0; i < n; ++i) {
      switch (g_.below(15)) {
        case 14: stack_games(v); break;
        case 0: {  // rep / sep
          uint8_t bits = uint8_t((1 + g_.below(3)) << 4);
          if (g_.below(6) == 0) bits |= 1;
          bool on = g_.below(2);
          put(on ? 0xe2 : 0xc2, {bits});
          if (bits & 0x20) m = on;
          if (bits & 0x10) x = on;
          break;
        }
        case 1: put(0x08); if (g_.below(2)) put(0x28); break;      // php (plp)
        case 2: put(0x28); break;                                  // plp
        case 3: {                                                  // push and pull something
          static const uint8_t kPush[] = {0x48, 0xda, 0x5a, 0x8b, 0x0b, 0x4b};
          static const uint8_t kPull[] = {0x68, 0xfa, 0x7a, 0xab, 0x2b, 0xab};
          size_t k = g_.below(6);
          put(kPush[k]);
          if (g_.below(4)) put(kPull[g_.below(8) ? k : g_.below(6)]);
          break;
        }
        case 4: case 5: {  // immediates
          if (g_.below(2)) {
            static const uint8_t kM[] = {0xa9, 0x69, 0xe9, 0x29, 0x09, 0x49, 0xc9, 0x89};
            put(kM[g_.below(8)], m ? std::vector<uint8_t>{byte()} : std::vector<uint8_t>{byte(), byte()});
          } else {
            static const uint8_t kX[] = {0xa2, 0xa0, 0xe0, 0xc0};
            put(kX[g_.below(4)], x ? std::vector<uint8_t>{byte()} : std::vector<uint8_t>{byte(), byte()});
          }
          break;
        }
        case 6: case 7: {  // short branch
          static const uint8_t kB[] = {0x90, 0xb0, 0xf0, 0xd0, 0x30, 0x10, 0x50, 0x70, 0x80};
          Ins b{kB[g_.below(g_.below(4) ? 8 : 9)], {0}};
          b.branch = int(g_.below(uint32_t(n) + 2));
          v.push_back(b);
          break;
        }
        case 8: {  // brl, per
          Ins b{uint8_t(g_.below(3) ? 0x82 : 0x62), {0, 0}};
          b.branch = int(g_.below(uint32_t(n) + 2));
          v.push_back(b);
          break;
        }
        case 9: {  // call or jump
          uint32_t t = starts[g_.below(uint32_t(starts.size()))];
          if (g_.below(8) == 0) t = uint32_t(g_.next()) & 0xffffff;
          uint32_t k = g_.below(8);
          if (k < 3) put(0x20, {uint8_t(t), uint8_t(t >> 8)});
          else if (k < 6) put(0x22, {uint8_t(t), uint8_t(t >> 8), uint8_t(t >> 16)});
          else if (k == 6) put(0xfc, {uint8_t(t), uint8_t(t >> 8)});
          else {
            static const uint8_t kJ[] = {0x4c, 0x5c, 0x6c, 0x7c, 0xdc};
            uint8_t j = kJ[g_.below(5)];
            put(j, j == 0x5c ? std::vector<uint8_t>{uint8_t(t), uint8_t(t >> 8), uint8_t(t >> 16)}
                             : std::vector<uint8_t>{uint8_t(t), uint8_t(t >> 8)});
          }
          break;
        }
        case 10: {  // carry games
          put(g_.below(2) ? 0x18 : 0x38);
          switch (g_.below(5)) {
            case 0: put(0xfb); break;
            case 1: put(0x65, {byte()}); break;
            case 2: put(0xe5, {byte()}); break;
            case 3: put(0x69, m ? std::vector<uint8_t>{byte()} : std::vector<uint8_t>{byte(), byte()}); break;
            default: put(0xe9, m ? std::vector<uint8_t>{byte()} : std::vector<uint8_t>{byte(), byte()});
          }
          break;
        }
        case 11: {  // anything at all
          uint8_t op = uint8_t(g_.next());
          std::vector<uint8_t> a;
          int k = cpu::operand_bytes(cpu::opcodes()[op].mode, m, x);
          for (int q = 0; q < k; ++q) a.push_back(byte());
          put(op, a);
          break;
        }
        default: {  // plain memory access
          static const uint8_t kOps[] = {0xa5, 0xad, 0xaf, 0xb5, 0xbd, 0xb9, 0xbf, 0xb1, 0xb2, 0xa7, 0xb7, 0xa1, 0xa3, 0xb3,
                                         0x85, 0x8d, 0x8f, 0x86, 0x84, 0xa6, 0xa4, 0x64, 0x9c, 0xe6, 0xee, 0x1a, 0x3a, 0x0a,
                                         0xe8, 0xca, 0xc8, 0x88, 0xea, 0xeb, 0xaa, 0xa8, 0x8a, 0x98, 0x9b, 0xbb, 0x24, 0x54};
          uint8_t op = kOps[g_.below(sizeof kOps)];
          std::vector<uint8_t> a;
          int k = cpu::operand_bytes(cpu::opcodes()[op].mode, m, x);
          for (int q = 0; q < k; ++q) a.push_back(byte());
          put(op, a);
        }
      }
    }
    static const uint8_t kEnd[] = {0x60, 0x6b, 0x40, 0xdb};
    put(kEnd[g_.below(4)]);
    // Addresses, then branch distances.
    std::vector<uint32_t> at;
    uint32_t pc = start;
    for (auto& i : v) {
      at.push_back(pc);
      spots_.push_back(pc);
      pc = cpu::wrap(pc, 1 + int(i.arg.size()));
    }
    for (size_t k = 0; k < v.size(); ++k) {
      auto& i = v[k];
      if (i.branch >= 0) {
        uint32_t t = at[std::min(size_t(i.branch), at.size() - 1)];
        if (g_.below(12) == 0) t = cpu::wrap(t, 1);  // into the middle of something
        int d = int16_t(t - cpu::wrap(at[k], 1 + int(i.arg.size())));
        if (i.arg.size() == 1 && (d < -128 || d > 127)) d = 0;
        i.arg[0] = uint8_t(d);
        if (i.arg.size() == 2) i.arg[1] = uint8_t(d >> 8);
      }
      im_->bytes[at[k]] = i.op;
      for (size_t q = 0; q < i.arg.size(); ++q) im_->bytes[cpu::wrap(at[k], 1 + int(q))] = i.arg[q];
    }
    for (int q = 0; q < 3; ++q) im_->bytes.emplace(cpu::wrap(pc, q), uint8_t(g_.next()));
  }
};

// Entry points of a generated program with their addresses.
inline std::vector<Entry> program_entries(const asmgen::Program& p) {
  std::vector<Entry> v;
  asmgen::Meaning m(p);
  for (size_t f = 0; f < p.files.size(); ++f) {
    std::optional<uint32_t> at;
    for (size_t i = 0; i < p.files[f].lines.size(); ++i) {
      auto& l = p.files[f].lines[i];
      if (l.kind == asmgen::kOrg) {
        at.reset();
        if (asmgen::constant(l.a)) {
          auto x = m.evaluate({int(f), int(i)}, l.a);
          if (x) at = uint32_t(*x) & 0xffffff;
        }
      } else if (l.kind == asmgen::kEntry) {
        if (at) v.push_back({*at, l.flags});
      } else if (l.kind == asmgen::kInstr || l.kind == asmgen::kData) {
        at.reset();
      }
    }
  }
  return v;
}

inline Image make_image(bool rom_places = false) {
  Image im;
  sim::Rng g = sim::data_rng("image");
  im.salt = g.next();
  im.everywhere = sim::flip(1, 3, "bytes-everywhere");
  if (sim::flip(1, 2, "raw-code")) {
    RawCode r(&im, g);
    r.make(1 + int(sim::choose(3, "raw-routines")), 6 + 3 * sim::size_class());
    return im;
  }
  auto o = asmgen::choose_options(true, 2);
  o.stack_games = false;
  o.rom = rom_places;
  asmgen::Generator gen(o, sim::data_rng("program"));
  auto p = gen.make();
  auto out = asmrun::assemble(asmrun::render(p, sim::data_rng("spelling")));
  for (auto& b : out.memory) im.bytes[b.first] = b.second;
  im.entries = program_entries(p);
  for (auto& e : im.entries) im.callees.push_back(e.at);
  if (!out.ok || im.entries.empty() || im.bytes.empty()) {
    im.entries.clear();
    im.callees.clear();
    RawCode r(&im, g);
    r.make(1, 6);
    return im;
  }
  im.from_program = true;
  if (sim::flip(1, 3, "stored-bytes-damaged")) {
    im.from_program = false;
    std::vector<uint32_t> a;
    for (auto& b : im.bytes) a.push_back(b.first);
    int n = 1 + int(sim::choose(4, "damage"));
    for (int i = 0; i < n; ++i) {
      SIM_FAULT("stored byte damaged");
      im.bytes[a[g.below(uint32_t(a.size()))]] = uint8_t(g.next());
    }
  }
  // The disassembler reads four bytes at a time.
  std::vector<uint32_t> ends;
  for (auto& b : im.bytes) {
    if (!im.bytes.count(cpu::wrap(b.first, 1))) ends.push_back(b.first);
  }
  for (auto e : ends) {
    for (int q = 1; q <= 3; ++q) im.bytes.emplace(cpu::wrap(e, q), uint8_t(g.next()));
  }
  return im;
}

// ---- running --------------------------------------------------------------------

struct Listed {
  std::string label, text, mnemonic;
  int mode = 0, size = 0, suffix = 0;
  bool entry = false;
  Flags before, after;
  int c_before = -1, c_after = -1;
  std::optional<int> arg;
  bool same_states = false;
  bool operator==(const Listed& o) const {
    auto f = [](const Flags& a, const Flags& b) { return a.e == b.e && a.m == b.m && a.x == b.x; };
    return label == o.label && text == o.text && mode == o.mode && size == o.size && entry == o.entry &&
           f(before, o.before) && f(after, o.after) && c_before == o.c_before && c_after == o.c_after;
  }
};
using Listing = std::map<uint32_t, Listed>;

struct Session {
  Source::State source;
  std::unique_ptr<nsasm::Disassembler> d;

  explicit Session(const Image* im) {
    source.image = im;
    d = std::make_unique<nsasm::Disassembler>(std::make_unique<Source>(&source));
  }

  struct Call {
    bool ok = false;
    std::string error;
    std::map<uint32_t, nsasm::StatusFlags> targets;
    std::map<uint32_t, std::string> target_names;
    int failed_reads = 0;
  };
  Call disassemble(uint32_t at, const nsasm::StatusFlags& flags) {
    Call c;
    int before = source.failed;
    source.reads = 0;
    size_t known = d->Result().size();
    sim::run_sut("disassembling", [&] {
      auto r = d->Disassemble(nsasm::Address(at), flags);
      c.ok = r.ok();
      if (!r.ok()) {
        c.error = r.error().ToString();
      } else {
        for (auto& t : *r) {
          c.targets.emplace(num(t.first), t.second);
          c.target_names[num(t.first)] = t.second.ToString();
        }
      }
    }, 200'000'000ull + 400'000ull * (source.image->bytes.size() + known));
    source.fail_at.clear();
    c.failed_reads = source.failed - before;
    sim::log("disassemble %06x %s -> %s, %zu targets, %zu instructions", at, flags.ToString().c_str(),
             c.ok ? "ok" : c.error.c_str(), c.targets.size(), d->Result().size());
    return c;
  }
  Listing listing() const {
    Listing l;
    sim::run_sut("reading the result", [&] {
      for (auto& n : d->Result()) {
        Listed x;
        auto& i = n.second.instruction;
        x.label = n.second.label;
        x.text = i.ToString();
        x.mnemonic = std::string(nsasm::ToString(i.mnemonic));
        x.mode = int(i.addressing_mode);
        x.size = i.SerializedSize();
        x.suffix = int(i.suffix);
        x.entry = n.second.is_entry;
        x.before = asmrun::flags(n.second.current_execution_state.Flags());
        x.after = asmrun::flags(n.second.next_execution_state.Flags());
        x.c_before = asmrun::bit(n.second.current_execution_state.Flags().CBit());
        x.c_after = asmrun::bit(n.second.next_execution_state.Flags().CBit());
        auto v = i.arg1.Evaluate(nsasm::NullLookupContext());
        if (v.ok()) x.arg = *v;
        l[num(n.first)] = x;
      }
    });
    return l;
  }
  void cleanup() {
    sim::run_sut("clean-up", [&] {
      auto r = d->Cleanup();
      if (!r.ok()) sim::violation("clean-up", "clean-up failed: %s", r.error().ToString().c_str());
    });
  }
  // As quick_disassemble prints it.
  std::string print() const {
    std::string t;
    sim::run_sut("printing", [&] {
      nsasm::Address pc(0);
      bool first = true;
      for (auto& n : d->Result()) {
        if (first || n.first != pc) t += "         .org " + n.first.ToString() + "\n";
        first = false;
        pc = n.first;
        std::string label = n.second.label;
        if (!label.empty()) label += ':';
        if (n.second.is_entry) {
          t += label + " .entry " + n.second.current_execution_state.Flags().ToString() + "\n";
          label.clear();
        }
        t += label + " " + n.second.instruction.ToString() + " ; " + pc.ToString() + " " +
             n.second.next_execution_state.Flags().ToString() + "\n";
        pc = pc.AddWrapped(n.second.instruction.SerializedSize());
      }
    });
    return t;
  }
};

inline void log_image(const Image& im) {
  std::string row;
  uint32_t at = 0, next = 0xffffffff;
  for (auto& b : im.bytes) {
    if (b.first != next || row.size() > 3 * 32) {
      if (!row.empty()) sim::log("  %06x:%s", at, row.c_str());
      row.clear();
      at = b.first;
    }
    char t[4];
    snprintf(t, sizeof t, " %02x", b.second);
    row += t;
    next = b.first + 1;
  }
  if (!row.empty()) sim::log("  %06x:%s", at, row.c_str());
}

// Follows far targets until nothing is new, like the tools do.  Returns the
// targets that could not be disassembled (in their latest state).
struct Closure {
  std::map<uint32_t, nsasm::StatusFlags> asked;   // states requested so far
  std::set<uint32_t> failed;
  std::set<uint32_t> roots_ok;
  int calls = 0;
  bool complete = true;
};
inline Closure close_over(Session* s, const std::vector<Entry>& roots, bool faults, bool merge_first,
                          const std::function<bool(uint32_t)>& skip = {}) {
  Closure c;
  std::vector<uint32_t> work;
  std::map<uint32_t, nsasm::StatusFlags> pending;
  auto want = [&](uint32_t a, const nsasm::StatusFlags& f) {
    if (skip && skip(a)) return;
    auto it = c.asked.find(a);
    nsasm::StatusFlags next = it == c.asked.end() ? f : it->second | f;
    if (it != c.asked.end() && next == it->second) return;
    if (it == c.asked.end()) c.asked.emplace(a, f); else it->second = next;
    auto p = pending.find(a);
    if (p == pending.end()) {
      pending.emplace(a, merge_first ? next : f);
      work.push_back(a);
    } else {
      p->second = merge_first ? next : p->second | f;
    }
  };
  for (auto& r : roots) want(r.at, to_flags(r.flags));
  while (!work.empty()) {
    if (++c.calls > 400) {
      c.complete = false;
      break;
    }
    size_t k = sim::choose(uint32_t(std::min<size_t>(work.size(), 4)), "next-target");
    uint32_t a = work[k];
    work.erase(work.begin() + long(k));
    // A request that failed stands until one succeeds that includes it.
    nsasm::StatusFlags f = c.failed.count(a) ? c.asked.at(a) : pending.at(a);
    pending.erase(a);
    if (faults) {
      // Attempts that fail first.
      for (int tries = 0; tries < 3 && sim::flip(1, 3, "fault-first"); ++tries) {
        s->source.fail_at = {int(sim::choose(12, "fail-read"))};
        auto r = s->disassemble(a, f);
        if (r.ok) {
          for (auto& t : r.targets) want(t.first, t.second);
        }
      }
    }
    auto r = s->disassemble(a, f);
    if (!r.ok) {
      c.failed.insert(a);
      continue;
    }
    c.failed.erase(a);
    for (auto& t : r.targets) want(t.first, t.second);
  }
  for (auto& r : roots) {
    if (!c.failed.count(r.at)) c.roots_ok.insert(r.at);
  }
  return c;
}

// Nothing in it is beyond what the source language can express.
inline bool expressible(const Listing& l) {
  std::set<uint32_t> seen;
  for (auto& n : l) {
    if (n.second.mnemonic == "per" || (n.first & 0xffff) + uint32_t(n.second.size) > 0xffff) return false;
    auto& f = n.second.before;
    if (n.second.entry && f.e < 0 && (f.m >= 0 || f.x >= 0)) return false;
    for (int i = 0; i < n.second.size; ++i) {
      if (!seen.insert(cpu::wrap(n.first, i)).second) return false;
    }
  }
  return true;
}

// The instruction without its suffix, which shows the state.
inline std::string shape(const Listed& l) {
  size_t dot = l.text.find('.');
  size_t end = l.text.find(' ');
  if (dot != std::string::npos && (end == std::string::npos || dot < end) && dot + 2 <= l.text.size()) {
    return l.text.substr(0, dot) + l.text.substr(dot + 2);
  }
  return l.text;
}

}  // namespace disrun
#endif
