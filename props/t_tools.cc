// T02, T03: quick_disassemble, disassemble_more and dumb_disassemble on the simulated disk.
#include <cstring>
#include <set>
#include <string>
#include <vector>

#include "disrun.h"
#include "nsasm/rom.h"
#include "rommodel.h"
#include "sim/fs.h"
#include "sim/sim.h"

extern "C" int quick_disassemble_main(int argc, char** argv);
extern "C" int disassemble_more_main(int argc, char** argv);
extern "C" int dumb_disassemble_main(int argc, char** argv);

namespace {

namespace fs = sim::fs;
using asmgen::Flags;
using disrun::Closure;
using disrun::Entry;
using disrun::Image;
using disrun::Listed;
using disrun::Listing;
using disrun::Session;
using model::Bytes;
using model::RomFile;

const char* kRom = "/sim/in.sfc";

struct Ran {
  int code = 0;
  std::string said;
};

Ran run_tool(int (*tool)(int, char**), std::vector<std::string> args, uint64_t budget, long room = -1) {
  std::vector<char*> argv;
  for (auto& a : args) argv.push_back(&a[0]);
  argv.push_back(nullptr);
  Ran r;
  fs::begin_capture(room);
  auto res = sim::run_sut(args[0].c_str(), [&] { r.code = tool(int(args.size()), argv.data()); }, budget);
  r.said = fs::end_capture();
  if (res.end == sim::End::kExited) r.code = res.exit_code;
  sim::log("%s -> exit %d, %zu bytes printed, %d calls failed", args[0].c_str(), r.code, r.said.size(), fs::errors_injected());
  return r;
}

// What a listing consists of, without the comments.
std::vector<std::string> statements(const std::string& t) {
  std::vector<std::string> v;
  size_t b = 0;
  while (b < t.size()) {
    size_t e = t.find('\n', b);
    if (e == std::string::npos) e = t.size();
    std::string l = t.substr(b, e - b);
    size_t c = l.find(';');
    if (c != std::string::npos) l.resize(c);
    while (!l.empty() && l.back() == ' ') l.pop_back();
    if (!l.empty()) v.push_back(l);
    b = e + 1;
  }
  return v;
}

// A printed listing means what the ROM holds, or does not assemble.
bool check_listing(const RomFile& rom, const std::string& said) {
  if (statements(said).empty()) return true;
  auto out = asmrun::assemble({{"listing.asm", said}});
  sim::evaluated();
  if (!out.ok) {
    SIM_PROBE("listing refused");
    sim::log("refused: %s", out.error.c_str());
    return false;
  }
  SIM_PROBE("listing assembled");
  for (auto& b : out.memory) {
    auto off = rom.offset(b.first);
    if (!off || rom.image[*off] != b.second) {
      sim::violation("T02.bytes", "%06x is %02x in the ROM and %02x when the printed listing is assembled", b.first,
                     off ? rom.image[*off] : 0, b.second);
    }
  }
  return true;
}

// Reads a printed listing along the instructions found by following all targets
// through the library.
void compare_listing(const Session& s, const Closure& c, const Image& im, const std::vector<Entry>& roots,
                     const std::string& said, bool assembles) {
  if (!c.complete || c.calls > 90) return;
  for (uint32_t a : c.failed) {
    if (!im.at(a)) continue;
    SIM_PROBE("something not decodable");
    return;
  }
  Listing l = s.listing();
  SIM_PROBE("listing compared");
  if (!assembles && disrun::expressible(l)) sim::violation("T02.unassemblable", "the printed listing does not assemble");
  std::map<uint32_t, Flags> entry_at;
  std::set<uint32_t> seen;
  std::optional<uint32_t> pc;
  for (auto& line : statements(said)) {
    sim::evaluated();
    std::string rest = line, label;
    auto strip = [](std::string& t) { t.erase(0, t.find_first_not_of(' ') == std::string::npos ? t.size() : t.find_first_not_of(' ')); };
    if (rest[0] != ' ') {
      size_t e = rest.find(':');
      if (e == std::string::npos) sim::violation("T02.format", "`%s' has no label", line.c_str());
      label = rest.substr(0, e);
      rest.erase(0, e + 1);
    }
    strip(rest);
    if (rest.compare(0, 6, ".org $") == 0) {
      pc = uint32_t(strtoul(rest.c_str() + 6, nullptr, 16));
      continue;
    }
    if (rest.empty()) continue;
    auto it = pc ? l.find(*pc) : l.end();
    if (it == l.end()) sim::violation("T02.stray", "`%s' is printed at %06x, where nothing should be listed", line.c_str(), pc ? *pc : 0);
    auto& x = it->second;
    if (!label.empty() && label != x.label) {
      sim::violation("T02.label", "%06x is labelled `%s' instead of `%s'", *pc, label.c_str(), x.label.c_str());
    }
    if (rest.compare(0, 7, ".entry ") == 0) {
      entry_at[*pc] = asmgen::flags_of(rest.c_str() + 7);
      continue;
    }
    Listed printed = x;
    printed.text = rest;
    if (disrun::shape(printed) != disrun::shape(x)) {
      sim::violation("T02.instruction", "%06x is printed as `%s' instead of `%s'", *pc, rest.c_str(), x.text.c_str());
    }
    seen.insert(*pc);
    pc = cpu::wrap(*pc, x.size);
  }
  for (auto& x : l) {
    if (!seen.count(x.first)) sim::violation("T02.missing", "%06x `%s' is not printed", x.first, x.second.text.c_str());
    if (x.second.entry != (entry_at.count(x.first) > 0)) {
      sim::violation("T02.entry", "%06x is %s as entry", x.first, x.second.entry ? "not printed" : "printed");
    }
  }
  for (auto& e : roots) {
    if (c.failed.count(e.at)) continue;
    auto it = entry_at.find(e.at);
    if (it == entry_at.end()) sim::violation("T02.entry", "%06x was requested, but is not printed as entry", e.at);
    auto misses = [](int shown, int asked) { return shown >= 0 && shown != asked; };
    auto& f = it->second;
    if (misses(f.e, e.flags.e) || misses(f.m, e.flags.m) || misses(f.x, e.flags.x)) {
      sim::violation("T02.entry", "%06x is printed as `.entry %s', but was requested with `%s'", e.at,
                     asmgen::flags_name(f).c_str(), asmgen::flags_name(e.flags).c_str());
    }
  }
}

// A ROM holding the image as far as it has room for it.
RomFile rom_with(const Image& im) {
  RomFile r = model::make_rom(false);
  if (sim::flip(1, 2, "tame-filler")) {
    sim::Rng g = sim::data_rng("filler");
    for (size_t i = 0; i < r.image.size(); ++i) {
      if (((i & 0x7fff) < 0x7fb0)) r.image[i] = g.below(4) ? 0x60 : 0xea;
    }
  }
  for (auto& b : im.bytes) {
    auto off = r.offset(b.first);
    if (off && (*off & 0x7fff) < 0x7fb0) r.image[*off] = b.second;
  }
  return r;
}

// Runs the tool without faults, then under faults: each run fails with a
// diagnostic or prints exactly the same listing.
void faulty_runs(int (*tool)(int, char**), const std::vector<std::string>& args, const Ran& clean, uint64_t budget,
                 int calls, const std::string& prop = "T02") {
  if (clean.code == 0 && !clean.said.empty() && sim::flip(1, 4, "full-output")) {
    // The listing goes to a disk that becomes full.
    uint32_t room = sim::choose(uint32_t(clean.said.size()), "room");
    SIM_FAULT("stdout:no-space");
    Ran r = run_tool(tool, args, budget, room);
    sim::evaluated();
    if (r.code == 0) {
      sim::violation((prop + ".lost").c_str(), "exit 0 although only %u of the %zu bytes of the listing could be written", room,
                     clean.said.size());
    }
  }
  int n = int(sim::choose(3, "attempts"));
  for (int k = 0; k <= n; ++k) {
    fs::clear_marks();
    fs::set_policy(fs::choose_policy(true, false, false, calls));
    Ran r = run_tool(tool, args, budget);
    fs::set_policy(fs::Policy());
    sim::evaluated();
    if (!fs::mutated().empty()) sim::violation((prop + ".modified").c_str(), "%s was modified", fs::mutated().begin()->c_str());
    if (int h = fs::open_handles()) {
      if (r.code == 0) sim::violation((prop + ".leak").c_str(), "%d files left open", h);
    }
    if (r.code == 0) {
      SIM_PROBE("exit 0");
      if (clean.code != 0) sim::violation((prop + ".false-success").c_str(), "exit 0 where the fault-free run fails: %.200s", clean.said.c_str());
      if (r.said != clean.said) {
        sim::violation((prop + ".listing").c_str(), "exit 0 with another listing (%zu bytes instead of %zu) after %d failed calls",
                       r.said.size(), clean.said.size(), fs::errors_injected());
      }
    } else {
      SIM_PROBE("exit nonzero");
      if (clean.code == 0 && !fs::errors_injected()) {
        sim::violation((prop + ".refused").c_str(), "exit %d although no call failed: %.200s", r.code, r.said.c_str());
      }
      if (r.said.empty()) sim::violation((prop + ".silent").c_str(), "exit %d without a diagnostic", r.code);
      if (prop == "T02" && !statements(r.said).empty()) {
        // Usage and error text is not a listing.
        auto out = asmrun::assemble({{"listing.asm", r.said}});
        if (out.ok && !out.memory.empty()) sim::violation((prop + ".partial").c_str(), "exit %d after printing a listing", r.code);
      }
    }
  }
}

std::string hex(uint32_t v) {
  char b[20];
  static const char* kForms[] = {"%x", "%06x", "0x%x", "%X"};
  snprintf(b, sizeof b, kForms[sim::choose(4, "hex-form")], v);
  return b;
}

}  // namespace

SIM_SCENARIO(T02, quick_disassemble, 3) {
  Image im = disrun::make_image(true);
  RomFile rom = rom_with(im);
  auto wanted = im.entries;
  if (sim::flip(1, 4, "requested-twice")) wanted.push_back({wanted[0].at, disrun::entry_flags()});
  std::vector<std::optional<uint32_t>> pointer(wanted.size());
  for (size_t i = 0; i < wanted.size(); ++i) {
    if (!sim::flip(1, 8, "indirect")) continue;
    // A pointer to it (or to anything) somewhere in the ROM; it leads to bank 0.
    uint32_t p = 0xff00 + sim::choose(0x100, "pointer");
    if (sim::flip(1, 3, "other-bank")) {
      p = (im.entries[sim::choose(uint32_t(im.entries.size()), "bank")].at & 0xff0000) | 0x8000 |
          sim::choose(0x8000, "pointer");
    }
    pointer[i] = p;
    if (sim::flip(2, 3, "to-it")) {
      for (uint32_t k = 0; k < 2; ++k) {
        auto off = rom.offset(model::wrap(p, k));
        if (off && (*off & 0x7fff) < 0x7fb0) rom.image[*off] = uint8_t(wanted[i].at >> (8 * k));
      }
    }
  }
  Bytes file = rom.file();
  bool damaged = sim::flip(1, 10, "damaged-rom");
  if (damaged) file.resize(file.size() - 1 - sim::choose(0x1ff, "cut"));
  fs::put(kRom, file);
  std::vector<std::string> args = {"quick_disassemble", kRom};
  std::vector<Entry> roots;
  std::string malformed;
  for (size_t i = 0; i < wanted.size(); ++i) {
    uint32_t at = wanted[i].at;
    std::string a = hex(at);
    if (pointer[i]) {
      a = "@" + hex(*pointer[i]);
      auto lo = rom.offset(*pointer[i]), hi = rom.offset(model::wrap(*pointer[i], 1));
      if (lo && hi) at = rom.image[*lo] | uint32_t(rom.image[*hi]) << 8;
      else malformed = "a pointer is not mapped";
    } else if (sim::flip(1, 40, "unmapped-pointer")) {
      char b[20];
      snprintf(b, sizeof b, "@7e%04x", unsigned(sim::choose(0x10000, "pointer")));
      a = b;
      malformed = "a pointer is not mapped";
    }
    std::string mode = asmgen::flags_name(wanted[i].flags);
    if (sim::flip(1, 20, "odd-address")) {
      static const char* kOdd[] = {"", "@", "xyz", "1000000", "1000001", "ffffffff", "@1000000", "-1", "@@8000",
                                   "99999999999", "100008000", "8000zz", "@ff00;", "80 00", "8000,", "ffffffff00008000"};
      a = kOdd[sim::choose(16, "odd")];
      malformed = "the address `" + a + "' is malformed";
    }
    if (sim::flip(1, 40, "odd-mode")) {
      static const char* kOdd[] = {"", "m", "m9", "nativ", "m8x8x8"};
      mode = kOdd[sim::choose(5, "mode")];
      malformed = "there is no mode `" + mode + "'";
    }
    roots.push_back({at, wanted[i].flags});
    args.push_back(a);
    args.push_back(mode);
  }
  if (sim::flip(1, 30, "odd-count")) {
    args.pop_back();
    malformed = "an address has no mode";
  }
  if (args.size() < 4) return;  // prints its usage
  uint64_t budget = 3'000'000'000ull;
  Ran clean = run_tool(quick_disassemble_main, args, budget);
  sim::evaluated();
  sim::nontrivial();
  if (damaged) malformed = "the ROM is malformed";
  if (clean.code == 0 && !malformed.empty()) sim::violation("T02.false-success", "exit 0 although %s", malformed.c_str());
  if (clean.code != 0 && malformed.empty()) {
    sim::violation("T02.refused", "exit %d: %.200s", clean.code, clean.said.c_str());
  }
  if (clean.code != 0 && clean.said.empty()) sim::violation("T02.silent", "exit %d without a diagnostic", clean.code);
  if (clean.code == 0) {
    bool assembles = check_listing(rom, clean.said);
    Image machine;
    machine.rom = &rom;
    Session s(&machine);
    auto c = disrun::close_over(&s, roots, false, sim::flip(1, 2, "merge-first"));
    s.cleanup();
    compare_listing(s, c, machine, roots, clean.said, assembles);
  }
  faulty_runs(quick_disassemble_main, args, clean, budget, 12);
}

SIM_SCENARIO(T02, disassemble_more, 3) {
  // Part of the code is known as source; the tool disassembles what it calls.
  auto o = asmgen::choose_options(!sim::flip(1, 8, "sloppy-program"), 2);
  o.rom = true;
  o.stack_games = false;
  asmgen::Generator gen(o, sim::data_rng("program"));
  auto p = gen.make();
  auto texts = asmrun::render(p, sim::data_rng("spelling"));
  asmrun::place_sources(&texts);
  auto want = asmrun::assemble(texts);
  RomFile rom = model::make_rom(false);
  sim::Rng g = sim::data_rng("elsewhere");
  bool fits = true;
  // Something to disassemble where the program jumps to.
  for (auto& t : want.targets) {
    std::vector<uint8_t> code;
    auto some_target = [&] {
      auto it = want.targets.begin();
      std::advance(it, long(g.below(uint32_t(want.targets.size()))));
      return it->first + (g.below(4) ? 0 : g.below(6));
    };
    auto jump = [&](uint8_t near, uint8_t far) {
      uint32_t to = some_target();
      bool is_far = to >> 16 != t.first >> 16 || g.below(3) == 0;
      code.push_back(is_far ? far : near);
      code.push_back(uint8_t(to));
      code.push_back(uint8_t(to >> 8));
      if (is_far) code.push_back(uint8_t(to >> 16));
    };
    int k = int(g.below(6));
    for (int i = 0; i < k; ++i) {
      static const uint8_t kOps[] = {0xea, 0x18, 0x1a, 0xe8, 0x08, 0x28, 0x48, 0x68};
      if (g.below(6) == 0) {
        code.push_back(g.below(2) ? 0xe2 : 0xc2);  // sep, rep
        code.push_back(uint8_t(g.below(4) << 4));
      } else if (g.below(5) == 0) {
        jump(0x20, 0x22);
      } else {
        code.push_back(kOps[g.below(8)]);
      }
    }
    if (g.below(4) == 0) {
      jump(0x4c, 0x5c);
    } else {
      code.push_back(g.below(2) ? 0x60 : 0x6b);
    }
    for (size_t i = 0; i < code.size(); ++i) {
      auto off = rom.offset(model::wrap(t.first, uint32_t(i)));
      if (off && (*off & 0x7fff) < 0x7fb0) rom.image[*off] = code[i];
    }
  }
  if (!want.targets.empty() && sim::flip(1, 12, "long-chain")) {
    // One of them leads on, from routine to routine, many times over.
    auto it = want.targets.begin();
    std::advance(it, long(g.below(uint32_t(want.targets.size()))));
    uint32_t at = it->first, links = 8 + sim::choose(50, "chain");
    bool down = g.below(2);
    for (uint32_t i = 0; i <= links; ++i) {
      uint32_t next = (at & 0xff0000) | (0xd000 + 16 * (down ? links - i : i));
      std::vector<uint8_t> code;
      if (g.below(3) == 0) code.push_back(0x18);
      if (i == links) {
        code.push_back(0x60);
      } else if (g.below(2)) {
        code.insert(code.end(), {uint8_t(g.below(2) ? 0x20 : 0x4c), uint8_t(next), uint8_t(next >> 8)});
      } else {
        code.insert(code.end(), {uint8_t(g.below(2) ? 0x22 : 0x5c), uint8_t(next), uint8_t(next >> 8), uint8_t(next >> 16)});
      }
      code.push_back(0x60);
      for (size_t q = 0; q < code.size(); ++q) {
        auto off = rom.offset(model::wrap(at, uint32_t(q)));
        if (off && (*off & 0x7fff) < 0x7fb0) rom.image[*off] = code[q];
      }
      at = next;
    }
    SIM_PROBE("long chain of jumps from sources");
  }
  for (auto& b : want.memory) {
    auto off = rom.offset(b.first);
    if (!off) fits = false; else rom.image[*off] = b.second;
  }
  bool differs = false;
  if (!want.memory.empty() && sim::flip(1, 5, "stored-bit-flip")) {
    auto it = want.memory.begin();
    std::advance(it, long(g.below(uint32_t(want.memory.size()))));
    auto off = rom.offset(it->first);
    if (off) {
      SIM_FAULT("stored-bit-flip");
      rom.image[*off] ^= uint8_t(1u << g.below(8));
    }
  }
  for (auto& b : want.memory) {  // banks mirror each other
    auto off = rom.offset(b.first);
    if (off && rom.image[*off] != b.second) differs = true;
  }
  Bytes file = rom.file();
  auto reloaded = model::load(file);
  bool damaged = !reloaded || sim::flip(1, 12, "damaged-rom");
  if (reloaded && damaged) file.resize(file.size() - 1 - sim::choose(0x1ff, "cut"));
  if (reloaded && (reloaded->mode != rom.mode || reloaded->image != rom.image)) return;
  fs::put(kRom, file);
  std::vector<std::string> args = {"disassemble_more", kRom};
  for (auto& t : texts) {
    fs::put(t.path, Bytes(t.text.begin(), t.text.end()));
    args.push_back(t.path);
  }
  uint64_t budget = 3'000'000'000ull;
  Ran clean = run_tool(disassemble_more_main, args, budget);
  sim::evaluated();
  sim::nontrivial();
  bool expect_ok = want.ok && fits && !differs && !damaged;
  if (expect_ok != (clean.code == 0)) {
    sim::violation(expect_ok ? "T02.refused" : "T02.false-success",
                   "exit %d (program %s, %s the ROM, ROM %s): %.300s", clean.code,
                   want.ok ? "correct" : want.error.c_str(), fits && !differs ? "agrees with" : "differs from",
                   damaged ? "malformed" : "good", clean.said.c_str());
  }
  if (clean.code != 0 && clean.said.empty()) sim::violation("T02.silent", "exit %d without a diagnostic", clean.code);
  if (clean.code == 0) {
    SIM_PROBE("sources agree with the ROM");
    bool assembles = check_listing(rom, clean.said);
    Image machine;
    machine.rom = &rom;
    Session s(&machine);
    s.d->AddTargetReturnConventions(want.assembler->JumpTargetReturnConventions());
    std::vector<Entry> roots;
    for (auto& t : want.targets) {
      if (!want.memory.count(t.first)) roots.push_back({t.first, t.second});
    }
    auto c = disrun::close_over(&s, roots, false, sim::flip(1, 2, "merge-first"),
                                [&](uint32_t a) { return want.memory.count(a) > 0; });
    s.cleanup();
    compare_listing(s, c, machine, roots, clean.said, assembles);
  }
  faulty_runs(disassemble_more_main, args, clean, budget, 24 + 2 * int(texts.size()));
}

// ---- dumb_disassemble ---------------------------------------------------------------

namespace {

// Operand syntax of a mode, numbers as N.
const char* syntax(const std::string& name, cpu::Mode m) {
  switch (m) {
    case cpu::kImp: case cpu::kAcc: return "";
    case cpu::kImm8: case cpu::kImmM: case cpu::kImmX: case cpu::kImm16: return name == "pea" ? "N|#N" : "#N";
    case cpu::kDp: return name == "pei" ? "N|(N)" : "N";
    case cpu::kAbs: case cpu::kLong: case cpu::kRel8: case cpu::kRel16: return "N";
    case cpu::kDpX: case cpu::kAbsX: case cpu::kLongX: return "N,x";
    case cpu::kDpY: case cpu::kAbsY: return "N,y";
    case cpu::kInd: case cpu::kAbsInd: return "(N)";
    case cpu::kIndX: case cpu::kAbsIndX: return "(N,x)";
    case cpu::kIndY: return "(N),y";
    case cpu::kIndL: case cpu::kAbsIndL: return "[N]";
    case cpu::kIndLY: return "[N],y";
    case cpu::kSr: return "N,s";
    case cpu::kSrIY: return "(N,s),y";
    case cpu::kMove: return "#N,#N";
    default: return "?";
  }
}

struct Printed {
  uint32_t at = 0;
  std::string text, state, target_note;
  std::string name, form;
  std::vector<int64_t> numbers;
  Flags flags;
  int c = -1;
};

int carry_of(const std::string& s) {
  size_t p = s.find("c=");
  return p == std::string::npos ? -1 : s[p + 2] == '1';
}

// `$008000 -     lda #$12 ; m8x8 to $008000 (new)'
std::optional<Printed> parse_line(const std::string& line) {
  Printed p;
  size_t dash = line.find(" - "), semi = line.find(" ; ");
  if (line.size() < 8 || line[0] != '$' || dash != 7 || semi == std::string::npos) return {};
  p.at = uint32_t(strtoul(line.c_str() + 1, nullptr, 16));
  std::string t = line.substr(dash + 3, semi - dash - 3);
  size_t b = t.find_first_not_of(' ');
  if (b == std::string::npos) return {};
  p.text = t.substr(b);
  size_t e = p.text.find(' ');
  p.name = p.text.substr(0, e);
  if (size_t dot = p.name.find('.'); dot != std::string::npos) p.name.resize(dot);
  for (size_t i = e == std::string::npos ? p.text.size() : e; i < p.text.size();) {
    char ch = p.text[i];
    if (ch == ' ') {
      ++i;
    } else if (ch == '$' || ch == '-' || (ch >= '0' && ch <= '9')) {
      bool neg = ch == '-';
      if (neg) ++i;
      bool hexadecimal = p.text[i] == '$';
      if (hexadecimal) ++i;
      char* end;
      int64_t v = strtoll(p.text.c_str() + i, &end, hexadecimal ? 16 : 10);
      if (end == p.text.c_str() + i) return {};
      i = size_t(end - p.text.c_str());
      p.numbers.push_back(neg ? -v : v);
      p.form += 'N';
    } else {
      p.form += char(tolower(ch));
      ++i;
    }
  }
  std::string rest = line.substr(semi + 3);
  size_t to = rest.find(" to $");
  if (to != std::string::npos) {
    p.target_note = rest.substr(to + 4);
    rest.resize(to);
  }
  p.state = rest;
  p.flags = asmgen::flags_of(rest.substr(0, rest.find(',')).c_str());
  p.c = carry_of(rest);
  return p;
}

bool form_matches(const std::string& form, const char* want) {
  std::string w = want;
  size_t bar = w.find('|');
  if (bar == std::string::npos) return form == w;
  return form == w.substr(0, bar) || form == w.substr(bar + 1);
}

// Checks everything printed against the ROM, and the states against the processor.
// Returns false if the listing ends with an error.
void check_dumb(const RomFile& rom, uint32_t start, const Flags& mode, const Ran& r) {
  std::vector<Printed> lines;
  std::vector<std::string> tail;
  size_t pos = 0;
  while (pos < r.said.size()) {
    size_t nl = r.said.find('\n', pos);
    if (nl == std::string::npos) nl = r.said.size();
    std::string line = r.said.substr(pos, nl - pos);
    pos = nl + 1;
    if (auto p = parse_line(line)) {
      if (!tail.empty()) sim::violation("T03.format", "`%s' after `%s'", line.c_str(), tail[0].c_str());
      lines.push_back(*p);
    } else {
      tail.push_back(line);
    }
  }
  auto fetch = [&](uint32_t a) -> std::optional<uint8_t> {
    auto off = rom.offset(a);
    if (!off) return {};
    return rom.image[*off];
  };
  uint32_t pc = start;
  Flags f = mode;
  std::map<uint32_t, std::string> latest;  // branch target -> state noted last
  bool ended = false;
  std::vector<cpu::Decoded> code;
  for (size_t i = 0; i < lines.size(); ++i) {
    auto& p = lines[i];
    sim::evaluated();
    if (ended) sim::violation("T03.continued", "%06x `%s' is printed although nothing leads on there", p.at, p.text.c_str());
    if (p.at != pc) sim::violation("T03.address", "%06x is printed where %06x follows", p.at, pc);
    auto op = fetch(pc);
    if (!op) sim::violation("T03.unmapped", "%06x `%s' is printed, but is not mapped", p.at, p.text.c_str());
    auto m = cpu::opcodes()[*op].mode;
    Flags w = f;
    int* width = m == cpu::kImmM ? &w.m : m == cpu::kImmX ? &w.x : nullptr;
    if (width && *width < 0) {
      if (f.e >= 0) {
        sim::violation("T03.guess", "%06x `%s' has a size that depends on a state printed as `%s'", p.at, p.text.c_str(),
                       i ? lines[i - 1].state.c_str() : asmgen::flags_name(mode).c_str());
      }
      // `unk' may hide what is known about a register; the executions below tell.
      size_t at = p.text.find('$');
      *width = at != std::string::npos && p.text.size() - at <= 3;
      SIM_PROBE("width known in state unk");
    }
    auto d = cpu::decode(pc, w.m > 0, w.x > 0, fetch);
    if (!d) sim::violation("T03.unmapped", "%06x `%s' is printed, but is not completely mapped", p.at, p.text.c_str());
    bool same = p.name == d->name && form_matches(p.form, syntax(d->name, d->mode));
    if (same && d->mode == cpu::kMove) {
      same = p.numbers.size() == 2 && ((p.numbers[1] << 8 | p.numbers[0]) == d->operand || (p.numbers[0] << 8 | p.numbers[1]) == d->operand);
    } else if (same && d->bytes > 1) {
      uint32_t mask = d->bytes == 2 ? 0xff : d->bytes == 3 ? 0xffff : 0xffffff;
      same = p.numbers.size() == 1 && (uint32_t(p.numbers[0]) & mask) == d->operand;
    }
    if (!same) {
      sim::violation("T03.instruction", "%06x holds %s with operand %x and is printed as `%s'", pc, d->name.c_str(), d->operand, p.text.c_str());
    }
    uint32_t next = cpu::wrap(pc, d->bytes);
    bool branch = d->mode == cpu::kRel8 || (d->mode == cpu::kRel16 && d->name != "per");
    if (branch) {
      char want[20];
      snprintf(want, sizeof want, "$%06x", d->target);
      auto it = latest.find(d->target);
      bool fresh = it == latest.end();
      std::string note = std::string(want) + (fresh ? " (new)" : " (was");
      if (p.target_note.compare(0, note.size(), note) != 0) {
        sim::violation("T03.target", "%06x `%s' leads to %s (%s), but is noted as `%s'", pc, p.text.c_str(), want,
                       fresh ? "first seen" : "seen before", p.target_note.c_str());
      }
      latest[d->target] = p.state;
    } else if (!p.target_note.empty()) {
      sim::violation("T03.target", "%06x `%s' is noted as leading to %s", pc, p.text.c_str(), p.target_note.c_str());
    }
    bool leaves = d->name == "jmp" || d->name == "rts" || d->name == "rtl" || d->name == "rti" || d->name == "stp" ||
                  d->name == "bra" || d->name == "brl";
    // Nothing known is forgotten, unless the instruction brings in something else.
    bool brings = d->name == "plp" || d->name == "xce" || d->name == "rep" || d->name == "sep";
    if (!leaves && !brings && (p.flags.e != f.e || p.flags.m != f.m || p.flags.x != f.x)) {
      sim::violation("T03.precision", "%06x `%s' changes the printed state from `%s' to `%s'", pc, p.text.c_str(),
                     i ? lines[i - 1].state.c_str() : asmgen::flags_name(mode).c_str(), p.state.c_str());
    }
    if ((d->name == "rep" || d->name == "sep") && f.e == 0) {
      int v = d->name == "sep";
      Flags after = f;
      if (d->operand & 0x20) after.m = v;
      if (d->operand & 0x10) after.x = v;
      if (p.flags.e != after.e || p.flags.m != after.m || p.flags.x != after.x) {
        sim::violation("T03.precision", "%06x `%s' leaves `%s'", pc, p.text.c_str(), p.state.c_str());
      }
    }
    f = p.flags;
    code.push_back(*d);
    pc = next;
    if (leaves) {
      auto it = latest.find(next);
      if (it == latest.end()) {
        ended = true;
      } else {
        // In the state that branch has.
        SIM_PROBE("goes on after an exit instruction");
        const std::string& s = it->second;
        f = asmgen::flags_of(s.substr(0, s.find(',')).c_str());
      }
    }
  }
  bool whole = false;
  if (r.code == 0) {
    if (lines.empty()) sim::violation("T03.nothing", "exit 0 without an instruction");
    uint64_t bytes = 0;
    for (auto& d : code) bytes += uint64_t(d.bytes);
    whole = bytes >= 0x10000;
    if (!ended && !whole) sim::violation("T03.stopped", "exit 0, but the listing ends at %06x with `%s'", lines.back().at, lines.back().text.c_str());
    if (whole) SIM_PROBE("a whole bank");
    SIM_PROBE("listing ended");
    for (auto& t : tail) {
      auto address_after = [&](const char* what) -> std::optional<uint32_t> {
        size_t p = t.find(what);
        if (p == std::string::npos) return {};
        p = t.find('$', p);
        if (p == std::string::npos) return {};
        return uint32_t(strtoul(t.c_str() + p + 1, nullptr, 16));
      };
      if (auto a = address_after("Nearest local jump target is")) {
        auto it = latest.lower_bound(pc);
        if (it == latest.end() || it->first != *a) sim::violation("T03.nearest", "`%s' is printed after %06x", t.c_str(), pc);
        SIM_PROBE("gap reported");
      }
      if (auto a = address_after("Earliest branch target")) {
        if (latest.empty() || latest.begin()->first != *a) sim::violation("T03.earliest", "`%s' is printed", t.c_str());
      }
    }
  } else {
    if (ended) sim::violation("T03.refused", "exit %d after a complete listing: %.200s", r.code, tail.empty() ? "" : tail[0].c_str());
    // The instruction that could not be listed.
    bool readable = rom.read(pc, 4).has_value();
    if (readable) {
      auto m = cpu::opcodes()[*fetch(pc)].mode;
      bool unclear = (m == cpu::kImmM && f.m < 0) || (m == cpu::kImmX && f.x < 0);
      if (!unclear) {
        sim::violation("T03.refused", "exit %d at %06x, which holds %s, in state `%s': %.200s", r.code, pc, cpu::opcodes()[*fetch(pc)].name,
                       lines.empty() ? asmgen::flags_name(mode).c_str() : lines.back().state.c_str(), tail.empty() ? "" : tail[0].c_str());
      }
      SIM_PROBE("stopped at an unknown width");
    } else {
      SIM_PROBE("stopped at something unmapped");
    }
    if (tail.empty()) sim::violation("T03.silent", "exit %d without a diagnostic", r.code);
  }
  // Executions that run along the listing.
  std::map<size_t, size_t> continues;  // branch -> line that builds on it
  {
    std::map<uint32_t, size_t> by;
    for (size_t i = 0; i + 1 < lines.size(); ++i) {
      auto& d = code[i];
      if (d.mode == cpu::kRel8 || (d.mode == cpu::kRel16 && d.name != "per")) by[d.target] = i;
      bool leaves = d.name == "jmp" || d.name == "rts" || d.name == "rtl" || d.name == "rti" || d.name == "stp" ||
                    d.name == "bra" || d.name == "brl";
      if (leaves && by.count(lines[i + 1].at)) continues[by[lines[i + 1].at]] = i + 1;
    }
  }
  for (int k = 0; k < (lines.size() > 1000 ? 3 : 40); ++k) {
    sim::Rng g = sim::data_rng("execution");
    cpu::Machine mc;
    mc.rng = &g;
    mc.start(mode);
    for (size_t i = 0; i < lines.size(); ++i) {
      auto& d = code[i];
      auto& p = lines[i];
      if (d.name == "txs" || d.name == "tcs") break;  // the stack elsewhere is not followed
      bool branch = d.mode == cpu::kRel8 || (d.mode == cpu::kRel16 && d.name != "per");
      if ((d.mode == cpu::kImmM && 1 + cpu::operand_bytes(d.mode, mc.m, mc.x) != d.bytes) ||
          (d.mode == cpu::kImmX && 1 + cpu::operand_bytes(d.mode, mc.m, mc.x) != d.bytes)) {
        sim::violation("T03.width", "%06x `%s' is printed with %d bytes, but the processor gets there with m%d x%d", p.at, p.text.c_str(),
                       d.bytes, mc.m, mc.x);
      }
      auto next = mc.step(d.name, d.mode, d.operand);
      if (next == cpu::Machine::kCall) mc.after_call(nullptr);
      bool always = d.name == "bra" || d.name == "brl";
      bool carry = d.name == "bcc" || d.name == "bcs";
      bool can_branch = branch && (!carry || next == cpu::Machine::kBranch);
      bool can_fall = !always && (!carry || next == cpu::Machine::kFall) && next != cpu::Machine::kEnd && next != cpu::Machine::kJump;
      auto agrees = [&](const cpu::Machine& x, const Flags& fl) { return x.matches(fl); };
      bool exits = always || next == cpu::Machine::kEnd || next == cpu::Machine::kJump;
      if (can_branch && (!can_fall || g.below(3) == 0)) {
        // The listing goes on from this branch if it is the latest to the place after an exit instruction.
        auto to = continues.find(i);
        if (to != continues.end()) {
          i = to->second - 1;
          continue;
        }
      }
      if (exits || !can_fall) break;
      sim::evaluated();
      if (!mc.matches(p.flags) || (p.c >= 0 && bool(p.c) != mc.c)) {
        sim::violation("T03.state", "%06x `%s': the processor has e%d m%d x%d c%d afterwards, printed is `%s'", p.at, p.text.c_str(),
                       mc.e, mc.m, mc.x, mc.c, p.state.c_str());
      }
    }
  }
}

}  // namespace

// A routine with several exits, and branches across them.
void routine_with_exits(RomFile* rom, uint32_t at) {
  sim::Rng g = sim::data_rng("exits");
  struct Ins {
    std::vector<uint8_t> b;
    int to = -1;
  };
  std::vector<Ins> v;
  int n = 4 + 2 * sim::size_class();
  for (int i = 0; i < n; ++i) {
    Ins x;
    switch (g.below(10)) {
      case 9: {  // out of the way, and on in the state of the branch
        static const uint8_t kOver[] = {0x90, 0xb0, 0xd0, 0x70};
        x.b = {kOver[g.below(4)], 0};
        x.to = i + 2;
        v.push_back(x);
        v.push_back({{0x60}});
        ++i;
        x = Ins();
        ++i;
        static const uint8_t kThen[] = {0xfb, 0xfb, 0x08, 0x28, 0xea};
        x.b = {kThen[g.below(5)]};
        break;
      }
      case 0: x.b = {uint8_t(g.below(2) ? 0x18 : 0x38)}; break;
      case 1: x.b = {0xfb}; break;
      case 2: x.b = {uint8_t(g.below(2) ? 0xc2 : 0xe2), uint8_t(g.below(4) << 4 | g.below(4) / 3)}; break;
      case 3: x.b = {uint8_t(g.below(2) ? 0x08 : 0x28)}; break;
      case 4: {
        static const uint8_t kImm[] = {0xa9, 0xa2, 0xa0, 0x69, 0xc9, 0xe0, 0x89};
        x.b = {kImm[g.below(7)], uint8_t(g.next())};
        if (g.below(2)) x.b.push_back(0xea);
        break;
      }
      case 5: {
        static const uint8_t kExit[] = {0x60, 0x6b, 0x40, 0xdb, 0x80, 0x4c, 0x82};
        x.b = {kExit[g.below(7)]};
        if (x.b[0] == 0x80) x.b.push_back(0), x.to = i + 1 + int(g.below(4));
        else if (x.b[0] == 0x82) x.b.push_back(0), x.b.push_back(0), x.to = i + 1 + int(g.below(4));
        else if (x.b[0] == 0x4c) x.b.push_back(uint8_t(g.next())), x.b.push_back(0x80);
        break;
      }
      default: {
        static const uint8_t kBranch[] = {0x90, 0xb0, 0x90, 0xb0, 0xd0, 0xf0, 0x10, 0x50};
        x.b = {kBranch[g.below(8)], 0};
        x.to = g.below(5) ? i + 1 + int(g.below(5)) : int(g.below(uint32_t(i) + 1));
      }
    }
    v.push_back(x);
  }
  v.push_back({{0x60}});
  std::vector<int> off;
  int o = 0;
  for (auto& x : v) off.push_back(o), o += int(x.b.size());
  for (size_t i = 0; i < v.size(); ++i) {
    auto& x = v[i];
    if (x.to >= 0) {
      int d = off[std::min(size_t(x.to), v.size() - 1)] - off[i] - int(x.b.size());
      if (x.b.size() == 2 && (d < -128 || d > 127)) d = 0;
      x.b[1] = uint8_t(d);
      if (x.b.size() == 3) x.b[2] = uint8_t(d >> 8);
    }
    for (size_t k = 0; k < x.b.size(); ++k) {
      auto where = rom->offset(cpu::wrap(at, off[i] + int(k)));
      if (where && (*where & 0x7fff) < 0x7fb0) rom->image[*where] = x.b[k];
    }
  }
}

SIM_SCENARIO(T03, dumb_disassemble, 1) {
  Image im = disrun::make_image(true);
  RomFile rom = rom_with(im);
  if (sim::flip(1, 30, "bank-without-end")) {
    sim::Rng g = sim::data_rng("endless");
    for (size_t i = 0; i < rom.image.size(); ++i) {
      static const uint8_t kOps[] = {0xea, 0xe8, 0x18, 0x38, 0x1a, 0xaa};
      if ((i & 0x7fff) < 0x7fb0 || rom.image.size() > 0x10000) {
        if (i < 0x7fb0 || i >= 0x10000) rom.image[i] = kOps[g.below(6)];
      }
    }
  }
  std::string malformed;
  uint32_t at;
  Flags flags = disrun::entry_flags();
  switch (sim::pick({6, 2, 2, 2}, "start")) {
    case 0: {
      auto& e = im.entries[sim::choose(uint32_t(im.entries.size()), "entry")];
      at = e.at;
      if (!sim::flip(1, 4, "other-mode")) flags = e.flags;
      break;
    }
    case 1: {
      auto it = im.bytes.begin();
      std::advance(it, long(sim::choose(uint32_t(im.bytes.size()), "inside")));
      at = it->first;
      break;
    }
    case 2: at = model::pick_address(rom); break;
    default: at = rom.mode == model::kLo ? 0x8000 + sim::choose(0x10000, "low") % 0x8000 : 0xc00000 + sim::choose(0x20000, "high");
  }
  if (flags.e < 0 && (flags.m >= 0 || flags.x >= 0)) flags = Flags();
  if (sim::flip(1, 2, "several-exits")) routine_with_exits(&rom, at);
  Bytes file = rom.file();
  auto reloaded = model::load(file);
  if (!reloaded || reloaded->mode != rom.mode) return;
  bool damaged = sim::flip(1, 15, "damaged-rom");
  if (damaged) file.resize(file.size() - 1 - sim::choose(0x1ff, "cut"));
  fs::put(kRom, file);
  std::string address = hex(at), mode = asmgen::flags_name(flags);
  if (sim::flip(1, 12, "odd-address")) {
    static const char* kOdd[] = {"", "@", "xyz", "1000000", "1000001", "ffffffff", "@8000", "-1",
                                 "99999999999", "100008000", "8000zz", "80 00", "8000,", "ffffffff00008000"};
    address = kOdd[sim::choose(14, "odd")];
    malformed = "the address `" + address + "' is malformed";
  }
  if (sim::flip(1, 20, "odd-mode")) {
    static const char* kOdd[] = {"", "m", "m9", "nativ", "m8x8x8"};
    mode = kOdd[sim::choose(5, "mode")];
    malformed = "there is no mode `" + mode + "'";
  }
  std::vector<std::string> args = {"dumb_disassemble", kRom, address, mode};
  uint64_t budget = 3'000'000'000ull;
  Ran clean = run_tool(dumb_disassemble_main, args, budget);
  sim::evaluated();
  sim::nontrivial();
  if (damaged) malformed = "the ROM is malformed";
  if (!malformed.empty()) {
    if (clean.code == 0) sim::violation("T03.false-success", "exit 0 although %s", malformed.c_str());
    if (clean.said.empty()) sim::violation("T03.silent", "exit %d without a diagnostic", clean.code);
    SIM_PROBE("malformed request");
  } else {
    check_dumb(rom, at, flags, clean);
  }
  faulty_runs(dumb_disassemble_main, args, clean, budget, 8, "T03");
}
