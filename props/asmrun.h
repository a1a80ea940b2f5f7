// Running the assembler on generated programs, and executing the result.
#ifndef VERIF_ASMRUN_H
#define VERIF_ASMRUN_H

#include <cstdint>
#include <map>
#include <memory>
#include <optional>
#include <string>
#include <utility>
#include <vector>

#include "asmgen.h"
#include "nsasm/assembler.h"
#include "nsasm/file.h"
#include "nsasm/memory.h"
#include "sim/sim.h"

namespace asmrun {

using asmgen::Flags;
using asmgen::Line;
using asmgen::Meaning;
using asmgen::Program;
using asmgen::Ref;

inline uint32_t num(nsasm::Address a) { return uint32_t(a.Bank()) << 16 | a.BankAddress(); }

inline int bit(nsasm::BitState b) { return b == nsasm::B_on ? 1 : b == nsasm::B_off ? 0 : -1; }
inline Flags flags(const nsasm::StatusFlags& f) {
  return {bit(f.EBit()), bit(f.MBit()), bit(f.XBit())};
}

struct Written {
  uint32_t at;
  std::vector<uint8_t> data;
  bool operator==(const Written& o) const { return at == o.at && data == o.data; }
};

// Records what it is given; the fail_at-th write is refused.
class Sink : public nsasm::OutputSink {
 public:
  std::vector<Written> accepted;
  int calls = 0, fail_at = -1, calls_after_failure = 0;
  std::string message = "disk full at sector 77";

  nsasm::ErrorOr<void> Write(nsasm::Address a, absl::Span<const std::uint8_t> d) override {
    int n = calls++;
    if (fail_at >= 0 && n > fail_at) ++calls_after_failure;
    if (n == fail_at) {
      SIM_FAULT("output sink write refused");
      return nsasm::Error("%s", message);
    }
    accepted.push_back({num(a), std::vector<uint8_t>(d.begin(), d.end())});
    return {};
  }
};

struct Text {
  std::string path, text;
};

inline std::vector<Text> render(const Program& p, sim::Rng g) {
  std::vector<Text> v;
  for (auto& f : p.files) {
    sim::Rng h(g.next());
    v.push_back({f.path, asmgen::render(f, h)});
  }
  return v;
}

// Where the sources of a tool lie on the disk.
inline void place_sources(std::vector<Text>* v) {
  int names = sim::pick({4, 2, 1, 1}, "source-names");
  for (size_t i = 0; i < v->size(); ++i) {
    std::string n = std::to_string(i);
    auto& t = (*v)[i];
    switch (names) {
      case 0: t.path = "/sim/src/" + t.path; break;
      case 1: t.path = "/sim/part" + n + "/main.asm"; break;
      case 2: t.path = "/sim/my sources/" + std::string(i, ' ') + "-x"; break;
      default: t.path = "/sim/main.asm" + std::string(i, '~');
    }
  }
  if (v->size() > 1 && sim::flip(1, 20, "source-given-twice")) {
    (*v)[1 + sim::choose(uint32_t(v->size() - 1), "which")] = (*v)[0];
  }
}

inline uint64_t text_hash(const std::vector<Text>& t) {
  uint64_t h = 0xcbf29ce484222325ull;
  for (auto& f : t) h = sim::hash_bytes(f.text.data(), f.text.size(), h);
  return h;
}

// What is known of how the code at an address returns.
struct Convention {
  int kind = 0;  // as in asmgen::Line
  Flags flags;
  bool operator==(const Convention& o) const {
    return kind == o.kind && flags.e == o.flags.e && flags.m == o.flags.m && flags.x == o.flags.x;
  }
};

struct Outcome {
  bool ok = false;
  std::string error;
  std::vector<Written> writes;
  std::map<uint32_t, uint8_t> memory;
  int double_writes = 0;
  int calls_after_failure = 0;
  bool unread = false;  // a source file could not be read
  std::map<uint32_t, Flags> targets;
  std::map<uint32_t, Convention> conventions;
  std::unique_ptr<nsasm::Assembler> assembler;
  uint64_t steps = 0;
};

inline uint64_t budget_for(size_t bytes) {
  // Far above what a cubic algorithm with small constants needs on small inputs.
  return 4'000'000ull + 40'000ull * bytes + 300ull * bytes * bytes;
}

inline void log_text(const std::vector<Text>& texts) {
  for (auto& t : texts) {
    sim::log("--- %s", t.path.c_str());
    size_t b = 0;
    for (int n = 0; b < t.text.size() && n < 400; ++n) {
      size_t e = t.text.find('\n', b);
      if (e == std::string::npos) e = t.text.size();
      sim::log("    %.*s", int(std::min<size_t>(e - b, 200)), t.text.c_str() + b);
      b = e + 1;
    }
  }
}

inline Outcome assemble(const std::vector<Text>& texts, int fail_at = -1, uint64_t budget = 0, bool on_disk = false) {
  static uint64_t shown = 0;  // one process runs one simulation
  if (shown != text_hash(texts)) {
    shown = text_hash(texts);
    log_text(texts);
  }
  Outcome o;
  Sink sink;
  sink.fail_at = fail_at;
  size_t bytes = 0;
  for (auto& t : texts) bytes += t.text.size();
  auto r = sim::run_sut("assembling", [&] {
    std::vector<nsasm::File> files;
    for (auto& t : texts) {
      if (!on_disk) {
        files.push_back(nsasm::MakeFakeFile(t.path, t.text));
        continue;
      }
      auto f = nsasm::OpenFile(t.path);
      if (!f.ok()) {
        o.unread = true;
        o.error = f.error().ToString();
        return;
      }
      files.push_back(*std::move(f));
    }
    auto a = nsasm::Assemble(files, &sink);
    o.ok = a.ok();
    if (!a.ok()) {
      o.error = a.error().ToString();
      return;
    }
    for (auto& n : a->JumpTargets()) o.targets[num(n.first)] = flags(n.second);
    for (auto& n : a->JumpTargetReturnConventions()) {
      auto y = n.second.YieldFlags();
      Convention& c = o.conventions[num(n.first)];
      c.kind = y ? 1 : n.second.IsExitCall() ? 2 : 0;
      if (y) c.flags = flags(*y);
    }
    o.assembler = std::make_unique<nsasm::Assembler>(*std::move(a));
  }, budget ? budget : budget_for(bytes));
  o.steps = r.steps;
  o.writes = std::move(sink.accepted);
  o.calls_after_failure = sink.calls_after_failure;
  for (auto& w : o.writes) {
    for (size_t i = 0; i < w.data.size(); ++i) {
      if (!o.memory.emplace(cpu::wrap(w.at, int(i)), w.data[i]).second) ++o.double_writes;
    }
  }
  sim::log("assemble %016llx: %s, %zu writes", (unsigned long long)text_hash(texts),
           o.ok ? "ok" : o.error.c_str(), o.writes.size());
  return o;
}

inline std::string where(const Meaning& m, Ref r) {
  char b[40];
  snprintf(b, sizeof b, " (statement %d of file %d)", r.line, r.file);
  sim::Rng g(0);
  return "`" + asmgen::statement_text(m.line(r), g) + "'" + b;
}

inline std::vector<Ref> entries(const Program& p) {
  std::vector<Ref> v;
  for (size_t f = 0; f < p.files.size(); ++f) {
    for (size_t i = 0; i < p.files[f].lines.size(); ++i) {
      if (p.files[f].lines[i].kind == asmgen::kEntry) v.push_back({int(f), int(i)});
    }
  }
  return v;
}

// One execution of the source program from an entry point.  `visit` is called
// for each instruction with the machine state before it; returning false ends
// the execution.  Flowing where no instruction is, in an accepted program, is a
// violation of `prop`.
template <typename Visit>
void execute_source(Meaning& m, Ref entry, sim::Rng& rng, int max_steps, const char* prop, Visit visit) {
  cpu::Machine mac;
  mac.rng = &rng;
  mac.start(m.line(entry).flags);
  Ref at = entry;
  ++at.line;
  std::string cls = std::string(prop);
  for (int steps = 0; steps < max_steps; ++steps) {
    if (at.line >= int(m.p->files[size_t(at.file)].lines.size())) {
      sim::violation((cls + ".past-end").c_str(), "execution from %s leaves the file",
                     where(m, entry).c_str());
    }
    const Line& l = m.line(at);
    switch (l.kind) {
      case asmgen::kOrg: case asmgen::kData:
        sim::violation((cls + ".into-data").c_str(), "execution from %s reaches %s",
                       where(m, entry).c_str(), where(m, at).c_str());
      case asmgen::kHalt: return;
      case asmgen::kModeDir:
        if (!mac.matches(l.flags)) return;
        ++at.line;
        continue;
      case asmgen::kInstr: break;
      default: ++at.line; continue;
    }
    if (!visit(at, mac)) return;
    std::string op = l.op;
    if (op == "add" || op == "sub") {
      mac.step(op == "add" ? "clc" : "sec", cpu::kImp, 0);
      op = op == "add" ? "adc" : "sbc";
    }
    uint32_t operand = 0;
    if (l.mode == cpu::kImm8 || l.mode == cpu::kImm16 || l.mode == cpu::kImmM || l.mode == cpu::kImmX) {
      auto v = m.evaluate(at, l.a);
      if (v) {
        operand = uint32_t(*v);
      } else if (op == "rep" || op == "sep") {
        return;  // addresses not laid out yet
      } else {
        operand = uint32_t(rng.next());
      }
      int n = cpu::operand_bytes(l.mode, mac.m, mac.x);
      operand &= n == 1 ? 0xff : 0xffff;
    }
    auto next = mac.step(op, l.mode, operand);
    switch (next) {
      case cpu::Machine::kFall: ++at.line; break;
      case cpu::Machine::kBranch: {
        Ref t = m.local(at, l.a.name);
        if (!t.ok()) return;
        if (m.line(t).kind == asmgen::kEqu) return;  // a value, not a place
        at = t;
        break;
      }
      case cpu::Machine::kCall:
        if (l.ret == 2) return;
        mac.after_call(l.ret == 1 ? &l.ret_flags : nullptr);
        ++at.line;
        break;
      default: return;
    }
  }
}

// Establishes the width of every immediate the program can execute, and the
// flags every far jump is made with.
struct Uses {
  bool e[2] = {false, false}, m[2] = {false, false}, x[2] = {false, false};
  void add(const cpu::Machine& c) { e[c.e] = m[c.m] = x[c.x] = true; }
  void add(const Flags& f) {
    if (f.e != 0) e[1] = true;
    if (f.e != 1) e[0] = true;
    if (f.m != 0) m[1] = true;
    if (f.m != 1) m[0] = true;
    if (f.x != 0) x[1] = true;
    if (f.x != 1) x[0] = true;
  }
  bool covered(const Flags& f) const {
    auto ok = [](const bool* u, int b) { return b < 0 || !u[!b]; };
    return ok(e, f.e) && ok(m, f.m) && ok(x, f.x);
  }
};

inline bool sized_immediate(const Line& l) {
  return l.kind == asmgen::kInstr && (l.mode == cpu::kImmM || l.mode == cpu::kImmX);
}

inline void learn_widths(Meaning& m, sim::Rng& rng, int rounds, const char* prop,
                         std::map<Ref, Uses>* uses = nullptr) {
  auto es = entries(*m.p);
  for (int k = 0; k < rounds; ++k) {
    for (auto& e : es) {
      execute_source(m, e, rng, 300, prop, [&](Ref at, const cpu::Machine& mac) {
        const Line& l = m.line(at);
        if (uses && (l.op == "jsr" || l.op == "jsl" || l.op == "jmp")) (*uses)[at].add(mac);
        if (!sized_immediate(l)) return true;
        bool is_m = l.mode == cpu::kImmM, narrow = is_m ? mac.m : mac.x;
        int& w = m.width[at];
        w |= (narrow ? 1 : 2) << (is_m ? 0 : 2);
        int seen = w >> (is_m ? 0 : 2) & 3;
        if (seen == 3) {
          sim::violation((std::string(prop) + ".ambiguous-width").c_str(),
                         "%s executes with both operand widths", where(m, at).c_str());
        }
        if (l.suffix && (l.suffix == 'b') != narrow) {
          sim::violation((std::string(prop) + ".suffix").c_str(), "%s executes with a %s operand",
                         where(m, at).c_str(), narrow ? "8-bit" : "16-bit");
        }
        return true;
      });
    }
  }
}

}  // namespace asmrun
#endif
