// A01-A05: the assembler.
#include <algorithm>
#include <map>
#include <set>
#include <string>
#include <vector>

#include "asmrun.h"
#include "sim/sim.h"

namespace {

using namespace asmrun;

Program make_program(bool clean, int max_files) {
  auto o = asmgen::choose_options(clean, max_files);
  asmgen::Generator g(o, sim::data_rng("program"));
  return g.make();
}

bool mostly_clean() { return !sim::flip(1, 3, "sloppy-program"); }

// Layout of an accepted program, if executions determine it.
bool lay_out(Meaning& m, sim::Rng& rng, const char* prop, std::map<Ref, Uses>* uses = nullptr) {
  learn_widths(m, rng, 6, prop, uses);
  auto missing = [&] {
    for (size_t f = 0; f < m.p->files.size(); ++f) {
      for (size_t i = 0; i < m.p->files[f].lines.size(); ++i) {
        Ref r{int(f), int(i)};
        if (m.size(r) < 0) return true;
      }
    }
    return false;
  };
  for (int k = 0; k < 6 && missing(); ++k) learn_widths(m, rng, 10, prop, uses);
  if (missing()) {
    // Statements no execution was seen to reach: as intended.
    for (size_t f = 0; f < m.p->files.size(); ++f) {
      for (size_t i = 0; i < m.p->files[f].lines.size(); ++i) {
        Ref r{int(f), int(i)};
        const Line& l = m.line(r);
        if (m.size(r) >= 0) continue;
        int w = l.mode == cpu::kImmM ? l.want_m : l.want_x;
        if (w < 0) {
          SIM_PROBE("width of an unreached statement not known");
          return false;
        }
        m.width[r] |= (w ? 1 : 2) << (l.mode == cpu::kImmM ? 0 : 2);
      }
    }
    SIM_PROBE("some statements never reached by an execution");
    if (!m.layout()) return false;
    return false;
  }
  if (!m.layout()) sim::violation((std::string(prop) + ".no-address").c_str(), "accepted, but a statement has no address");
  return true;
}

// ---- A03 -----------------------------------------------------------------------
SIM_SCENARIO(A03, lockstep, 4) {
  Program p = make_program(mostly_clean(), 3);
  auto texts = render(p, sim::data_rng("spelling"));
  auto o = assemble(texts);
  if (!o.ok) {
    SIM_PROBE("program refused");
    return;
  }
  SIM_PROBE("program accepted");
  Meaning m(p);
  sim::Rng rng = sim::data_rng("executions");
  bool all = lay_out(m, rng, "A03");
  if (!all && m.address.empty()) return;
  // Addresses are only certain if every size is; otherwise only run what is
  // up to the first doubtful statement of each block: skip.
  if (!all) return;
  sim::nontrivial();
  auto fetch = [&](uint32_t a) -> std::optional<uint8_t> {
    auto it = o.memory.find(a & 0xffffff);
    if (it == o.memory.end()) return {};
    return it->second;
  };
  static const int kSteps = sim::register_counter("instructions executed in lockstep", false);
  for (int k = 0; k < 4; ++k) {
    for (auto& e : entries(p)) {
      execute_source(m, e, rng, 300, "A03", [&](Ref at, const cpu::Machine& mac) {
        const Line& l = m.line(at);
        uint32_t pc = m.address.at(at);
        std::string op = l.op;
        sim::evaluated();
        sim::bump(kSteps);
        if (op == "add" || op == "sub") {
          auto d = cpu::decode(pc, mac.m, mac.x, fetch);
          const char* want = op == "add" ? "clc" : "sec";
          if (!d || d->name != want) {
            sim::violation("A03.pseudo", "at %06x: %s decodes as %s instead of %s first", pc,
                           where(m, at).c_str(), d ? d->name.c_str() : "nothing", want);
          }
          pc = cpu::wrap(pc, 1);
          op = op == "add" ? "adc" : "sbc";
        }
        auto d = cpu::decode(pc, mac.m, mac.x, fetch);
        if (!d) sim::violation("A03.missing", "at %06x: nothing was written for %s", pc, where(m, at).c_str());
        if (d->name != op || d->mode != l.mode) {
          sim::violation("A03.operation", "at %06x: %s executes as %s, mode %d (wanted mode %d)", pc,
                         where(m, at).c_str(), d->name.c_str(), int(d->mode), int(l.mode));
        }
        int n = d->bytes - 1;
        if (n == 0) return true;
        auto v = m.evaluate(at, l.a);
        if (!v) sim::violation("A03.no-value", "%s was accepted, but its operand has no value", where(m, at).c_str());
        uint32_t want = uint32_t(*v);
        if (l.mode == cpu::kMove) {
          auto w = m.evaluate(at, l.b);
          want = (w ? uint32_t(*w) & 0xff : 0) | (want & 0xff) << 8;
        } else if (l.mode == cpu::kRel8 || l.mode == cpu::kRel16) {
          if (d->target != want) {
            sim::violation("A03.branch-target", "at %06x: %s goes to %06x instead of %06x", pc,
                           where(m, at).c_str(), d->target, want);
          }
          return true;
        }
        uint32_t mask = n == 1 ? 0xff : n == 2 ? 0xffff : 0xffffff;
        if ((want & mask) != d->operand) {
          sim::violation("A03.operand", "at %06x: %s executes with operand %x instead of %x", pc,
                         where(m, at).c_str(), d->operand, want & mask);
        }
        return true;
      });
    }
  }
}

// ---- A05 ----------------------------------------------------------------------
SIM_SCENARIO(A05, exact_writes, 4) {
  Program p = make_program(mostly_clean(), 3);
  auto texts = render(p, sim::data_rng("spelling"));
  auto o = assemble(texts);
  if (o.ok && o.double_writes) {
    sim::violation("A05.twice", "%d bytes were written more than once by a successful assembly", o.double_writes);
  }
  if (!o.ok) {
    SIM_PROBE("program refused");
    return;
  }
  Meaning m(p);
  sim::Rng rng = sim::data_rng("executions");
  std::map<Ref, Uses> uses;
  if (!lay_out(m, rng, "A05", &uses)) return;
  SIM_PROBE("program accepted");
  sim::nontrivial();
  std::map<uint32_t, uint8_t> expect;
  for (size_t f = 0; f < p.files.size(); ++f) {
    for (size_t i = 0; i < p.files[f].lines.size(); ++i) {
      Ref r{int(f), int(i)};
      if (m.size(r) == 0) continue;
      auto b = m.bytes(r);
      if (!b) sim::violation("A05.no-value", "%s was accepted, but has no value", where(m, r).c_str());
      for (size_t k = 0; k < b->size(); ++k) {
        uint32_t a = cpu::wrap(m.address[r], int(k));
        sim::evaluated();
        if (!expect.emplace(a, (*b)[k]).second) {
          sim::violation("A05.overlap-accepted", "two statements claim %06x, one of them %s", a, where(m, r).c_str());
        }
        auto it = o.memory.find(a);
        if (it == o.memory.end()) sim::violation("A05.lost-byte", "byte %zu of %s was not written to %06x", k, where(m, r).c_str(), a);
        if (it->second != (*b)[k]) {
          sim::violation("A05.wrong-byte", "byte %zu of %s at %06x is %02x instead of %02x", k,
                         where(m, r).c_str(), a, it->second, (*b)[k]);
        }
      }
    }
  }
  for (auto& n : o.memory) {
    if (!expect.count(n.first)) sim::violation("A05.stray-byte", "%06x was written, but belongs to no statement", n.first);
  }
  // Questions afterwards.
  std::set<uint32_t> ask;
  for (auto& n : expect) {
    ask.insert(n.first);
    ask.insert((n.first + 1) & 0xffffff);
    ask.insert((n.first - 1) & 0xffffff);
  }
  std::map<uint32_t, std::set<std::pair<std::string, std::string>>> names;
  for (auto& x : m.exports) {
    auto v = m.value_of(x.second);
    if (!v) continue;
    if (*v >= 0 && *v <= 0xffffff) {
      ask.insert(uint32_t(*v));
      if (!x.first.first.empty()) names[uint32_t(*v)].insert(x.first);
    }
  }
  for (int k = 0; k < 20; ++k) ask.insert(uint32_t(rng.next()) & 0xffffff);
  std::map<uint32_t, std::pair<bool, std::optional<std::pair<std::string, std::string>>>> answer;
  sim::run_sut("queries", [&] {
    for (uint32_t a : ask) {
      auto& r = answer[a];
      r.first = o.assembler->Contains(nsasm::Address(a));
      auto n = o.assembler->NameForAddress(nsasm::Address(a));
      if (n.has_value()) r.second = std::make_pair(n->Qualified() ? n->Module() : "", n->Identifier());
    }
  });
  for (auto& q : answer) {
    sim::evaluated(2);
    if (q.second.first != (expect.count(q.first) > 0)) {
      sim::violation("A05.contains", "%06x is reported as %sassembled", q.first, q.second.first ? "" : "not ");
    }
    auto it = names.find(q.first);
    auto& n = q.second.second;
    if (n && (it == names.end() || !it->second.count(*n))) {
      sim::violation("A05.name", "%06x is named %s::%s, which is not exported there", q.first,
                     n->first.c_str(), n->second.c_str());
    }
    if (!n && it != names.end()) {
      sim::violation("A05.no-name", "%06x has no name, but %s::%s is exported there", q.first,
                     it->second.begin()->first.c_str(), it->second.begin()->second.c_str());
    }
  }
  // Jump targets.
  std::map<uint32_t, Uses> want;
  for (size_t f = 0; f < p.files.size(); ++f) {
    for (size_t i = 0; i < p.files[f].lines.size(); ++i) {
      Ref r{int(f), int(i)};
      const Line& l = m.line(r);
      std::optional<uint32_t> t;
      if (l.kind == asmgen::kRemote) {
        auto v = m.evaluate(r, l.a);
        if (!v) sim::violation("A05.no-value", "%s was accepted, but has no value", where(m, r).c_str());
        t = uint32_t(*v) & 0xffffff;
      } else if (l.kind == asmgen::kInstr && asmgen::constant(l.a) &&
                 (l.op == "jsr" || l.op == "jsl" || l.op == "jmp") &&
                 (l.mode == cpu::kAbs || l.mode == cpu::kLong)) {
        uint32_t v = uint32_t(*m.evaluate(r, l.a));
        t = l.mode == cpu::kLong ? v & 0xffffff : (m.address[r] & 0xff0000) | (v & 0xffff);
      }
      if (!t || expect.count(*t)) continue;
      if (l.kind == asmgen::kRemote) {
        want[*t].add(l.flags);
      } else {
        auto it = uses.find(r);
        auto& u = want[*t];
        if (it != uses.end()) {
          for (int k = 0; k < 2; ++k) {
            u.e[k] |= it->second.e[k];
            u.m[k] |= it->second.m[k];
            u.x[k] |= it->second.x[k];
          }
        }
      }
    }
  }
  for (auto& w : want) {
    sim::evaluated();
    auto it = o.targets.find(w.first);
    if (it == o.targets.end()) sim::violation("A05.target-missing", "%06x is a jump target, but not listed", w.first);
    if (!w.second.covered(it->second)) {
      sim::violation("A05.target-flags", "%06x is listed with flags %s, which does not cover its uses", w.first,
                     asmgen::flags_name(it->second).c_str());
    }
    SIM_PROBE("jump target listed");
  }
  for (auto& t : o.targets) {
    if (!want.count(t.first)) sim::violation("A05.target-stray", "%06x is listed as jump target without reason", t.first);
  }
  // Declared ways to return: one of those declared for the address.
  std::map<uint32_t, std::vector<Convention>> declared;
  for (size_t f = 0; f < p.files.size(); ++f) {
    for (size_t i = 0; i < p.files[f].lines.size(); ++i) {
      Ref r{int(f), int(i)};
      const Line& l = m.line(r);
      if (!l.ret || (l.kind != asmgen::kRemote && l.kind != asmgen::kEntry)) continue;
      uint32_t at = l.kind == asmgen::kEntry ? m.address[r] : uint32_t(*m.evaluate(r, l.a)) & 0xffffff;
      declared[at].push_back({l.ret, l.ret == 1 ? l.ret_flags : Flags()});
    }
  }
  for (auto& d : declared) {
    sim::evaluated();
    SIM_PROBE("return convention declared");
    auto it = o.conventions.find(d.first);
    if (it == o.conventions.end()) {
      sim::violation("A05.convention-missing", "how %06x returns is declared, but not listed", d.first);
    }
    if (std::find(d.second.begin(), d.second.end(), it->second) == d.second.end()) {
      sim::violation("A05.convention", "%06x is listed to return in another way (%d, %s) than declared", d.first,
                     it->second.kind, asmgen::flags_name(it->second.flags).c_str());
    }
  }
  for (auto& t : o.conventions) {
    if (!declared.count(t.first)) {
      sim::violation("A05.convention-stray", "how %06x returns is listed without reason", t.first);
    }
  }
}

// ---- A01 -----------------------------------------------------------------------
SIM_SCENARIO(A01, failing_sink, 4) {
  Program p = make_program(!sim::flip(1, 6, "sloppy-program"), 3);
  auto texts = render(p, sim::data_rng("spelling"));
  auto base = assemble(texts);
  if (!base.ok) SIM_PROBE("program refused");
  int n = int(base.writes.size());
  if (n == 0) return;
  sim::nontrivial();
  int tries = 1 + int(sim::choose(4, "tries"));
  for (int t = 0; t < tries; ++t) {
    int k = int(sim::choose(uint32_t(n), "failing-write"));
    auto o = assemble(texts, k);
    sim::evaluated();
    if (o.ok) sim::violation("A01.success", "write %d of %d was refused, but assembling reports success", k, n);
    if (o.calls_after_failure) {
      sim::violation("A01.write-after-failure", "%d writes after the refused write %d", o.calls_after_failure, k);
    }
    if (o.error.find("disk full at sector 77") == std::string::npos) {
      sim::violation("A01.error-text", "write %d was refused, but the error is `%s'", k, o.error.c_str());
    }
    if (int(o.writes.size()) != k || !std::equal(o.writes.begin(), o.writes.end(), base.writes.begin())) {
      sim::violation("A01.prefix", "%zu writes before the refused write %d, not the first ones of the clean run",
                     o.writes.size(), k);
    }
  }
}

// ---- A02 -----------------------------------------------------------------------
void compare(const Outcome& a, const Outcome& b, bool same_order, const char* what) {
  sim::evaluated();
  if (a.ok != b.ok) {
    sim::violation("A02.outcome", "%s: `%s' became `%s'", what, a.ok ? "ok" : a.error.c_str(),
                   b.ok ? "ok" : b.error.c_str());
  }
  if (same_order) {
    if (a.error != b.error) sim::violation("A02.error-text", "%s: `%s' became `%s'", what, a.error.c_str(), b.error.c_str());
    if (!(a.writes == b.writes)) sim::violation("A02.write-sequence", "%s: other writes", what);
  }
  if (!a.ok) return;
  if (a.memory != b.memory) {
    for (auto& n : a.memory) {
      auto it = b.memory.find(n.first);
      if (it == b.memory.end() || it->second != n.second) {
        sim::violation("A02.bytes", "%s: byte at %06x differs", what, n.first);
      }
    }
    sim::violation("A02.bytes", "%s: more bytes", what);
  }
  if (a.targets.size() != b.targets.size()) sim::violation("A02.targets", "%s: other jump targets", what);
  for (auto& t : a.targets) {
    auto it = b.targets.find(t.first);
    if (it == b.targets.end() || it->second.e != t.second.e || it->second.m != t.second.m || it->second.x != t.second.x) {
      sim::violation("A02.targets", "%s: jump target %06x differs", what, t.first);
    }
  }
}

std::map<uint32_t, std::string> names_at(const Outcome& o, const std::set<uint32_t>& ask) {
  std::map<uint32_t, std::string> r;
  if (!o.ok) return r;
  sim::run_sut("queries", [&] {
    for (uint32_t a : ask) {
      auto n = o.assembler->NameForAddress(nsasm::Address(a));
      if (n.has_value()) r[a] = n->ToString();
    }
  });
  return r;
}

SIM_SCENARIO(A02, permuted, 4) {
  Program p = make_program(mostly_clean(), 4);
  // Aliases, duplicates across files and unresolved names, sometimes.
  if (sim::flip(1, 3, "aliases")) {
    auto& f = p.files[sim::choose(uint32_t(p.files.size()), "alias-file")];
    sim::Rng g = sim::data_rng("alias");
    for (auto& l : f.lines) {
      if (l.kind == asmgen::kEntry || l.kind == asmgen::kData) {
        int n = 1 + int(g.below(3));
        for (int i = 0; i < n; ++i) {
          l.labels.push_back({"alias" + std::to_string(g.below(1000000)), g.below(2) == 0});
        }
      }
    }
  }
  if (sim::flip(1, 6, "trailing-labels")) {
    // Names whose value can never be known: which one is reported?
    auto& f = p.files[sim::choose(uint32_t(p.files.size()), "trailing-file")];
    sim::Rng g = sim::data_rng("trailing");
    for (int i = 0; i < 3; ++i) {
      Line l;
      l.kind = asmgen::kRemote;
      l.a = asmgen::num(0x123456, 6);
      l.flags = asmgen::flags_of("m8x8");
      l.labels.push_back({"early" + std::to_string(g.below(1000000)), false});
      size_t at = f.module.empty() ? 0 : 1;
      f.lines.insert(f.lines.begin() + long(std::min(at, f.lines.size())), l);
    }
  }
  if (p.files.size() > 1 && sim::flip(1, 8, "duplicate")) {
    auto& f = p.files[0];
    auto& g = p.files[1];
    g.module = f.module;
    if (!g.lines.empty() && g.lines[0].kind == asmgen::kModule) g.lines[0].op = f.module.empty() ? "modx" : f.module;
    if (!f.lines.empty() && !g.lines.empty() && sim::flip(1, 2, "same-name")) {
      f.lines.back().labels.push_back({"twice", true});
      g.lines.back().labels.push_back({"twice", true});
    }
  }
  auto texts = render(p, sim::data_rng("spelling"));
  auto base = assemble(texts);
  sim::nontrivial();
  if (base.ok) {
    SIM_PROBE("program accepted");
  } else {
    SIM_PROBE("program refused");
  }
  std::set<uint32_t> ask;
  for (auto& n : base.memory) ask.insert(n.first);
  auto base_names = names_at(base, ask);
  int tries = 1 + int(sim::choose(5, "tries"));
  for (int t = 0; t < tries; ++t) {
    bool shuffled = false;
    auto now = texts;
    if (sim::flip(1, 2, "permute")) {
      for (size_t i = now.size(); i > 1; --i) {
        size_t j = sim::choose(uint32_t(i), "permutation");
        if (j != i - 1) shuffled = true;
        std::swap(now[i - 1], now[j]);
      }
    }
    if (sim::flip(1, 2, "salt")) sim::set_hash_salt(sim::choose(1u << 20, "hash-salt"));
    if (sim::flip(1, 3, "layout")) sim::set_heap_layout(int(sim::choose(8, "heap-layout")));
    if (!base.writes.empty() && sim::flip(1, 3, "failed-attempt-before")) {
      assemble(now, int(sim::choose(uint32_t(base.writes.size()), "failing-write")));
    }
    if (shuffled) SIM_FAULT("source files permuted");
    auto o = assemble(now);
    compare(base, o, !shuffled, shuffled ? "files in another order" : "same files again");
    if (!shuffled && base.ok) {
      sim::evaluated();
      if (names_at(o, ask) != base_names) sim::violation("A02.names", "same files again: another name for an address");
    }
  }
}

// ---- A04 -----------------------------------------------------------------------
const char* const kFragments[] = {
    "lda", "sta.b", "LDX.w", "jsr", "jsl", "jmp", "bra", "brl", "bne", "per", "pea", "pei", "mvn", "mvp", "php", "plp",
    "pha", "pla", "phx", "plx", "xce", "rep", "sep", "#$30", "#", "$", "$12", "$1234", "$123456", "$1234567", "$ffffffff",
    "$fffffffff", "4294967296", "99999999999999999999", "-1", "%", "%101", "%2", "(", ")", "[", "]", "((", "))", ",", ", X",
    ", Y", ", S", "A", "X", "Y", "S", ".org", ".entry", ".equ", ".db", ".dw", ".dl", ".module", ".begin", ".end", "{", "}",
    ".halt", ".mode", ".remote", "m8x8", "m16x16", "emu", "unk", "native", "m8", "m9", "yields", "noreturn", "export",
    "label", "label:", "foo", "foo:", "foo::bar", "::bar", "@foo", "@", "+", "-", "++", "--", "+++", "---", "+:", "--:", "*", "/",
    "<foo", ">foo", "^foo", "<", ">", "^", ":", ";", "; comment", "add", "sub", "brk", "cop", "wdm", "stp", "rts", "rti",
    "\t", "0x10", "0x", "2147483648", "-2147483648 / -1", "1/0", "$7fffffff * $7fffffff", "\"str\"", "'c'", "\xff", "\x01", "_", "a_b"};

std::string mutate(std::string s, sim::Rng& g, int n) {
  for (int i = 0; i < n; ++i) {
    size_t at = s.empty() ? 0 : g.below(uint32_t(s.size() + 1));
    switch (sim::choose(8, "mutation")) {
      case 0: s.insert(at, std::string(" ") + kFragments[g.below(sizeof kFragments / sizeof *kFragments)] + " "); break;
      case 1: {  // remove a token-sized piece
        size_t k = 1 + g.below(8);
        if (at < s.size()) s.erase(at, k);
        break;
      }
      case 2: {  // remove a line
        size_t b = s.rfind('\n', at ? at - 1 : 0), e = s.find('\n', at);
        if (b == std::string::npos) b = 0;
        if (e == std::string::npos) e = s.size();
        if (e > b) s.erase(b, e - b);
        break;
      }
      case 3: {  // repeat a line
        size_t b = s.rfind('\n', at ? at - 1 : 0), e = s.find('\n', at);
        if (b == std::string::npos) b = 0;
        if (e == std::string::npos) e = s.size();
        if (e > b) s.insert(e, s.substr(b, e - b));
        break;
      }
      case 4: if (at < s.size()) s[at] = char(g.below(256)); break;
      case 5: s.resize(at); break;  // truncated
      case 6: {  // move a line elsewhere
        size_t b = s.rfind('\n', at ? at - 1 : 0), e = s.find('\n', at);
        if (b == std::string::npos) b = 0;
        if (e == std::string::npos) e = s.size();
        if (e > b) {
          std::string l = s.substr(b, e - b);
          s.erase(b, e - b);
          size_t to = s.empty() ? 0 : s.find('\n', g.below(uint32_t(s.size())));
          s.insert(to == std::string::npos ? s.size() : to, l);
        }
        break;
      }
      default: {  // another number in place of one
        static const char* n2[] = {"$ffffff", "$1000000", "-1", "0", "$ffffffff", "2147483647", "-2147483647", "$8000", "16777216"};
        size_t b = s.find_first_of("$0123456789", at);
        if (b == std::string::npos) break;
        size_t e = s.find_first_not_of("$0123456789abcdefABCDEF", b);
        s.replace(b, (e == std::string::npos ? s.size() : e) - b, n2[g.below(9)]);
      }
    }
  }
  return s;
}

void check_terminates(const std::vector<Text>& t) {
  auto o = assemble(t);
  sim::evaluated();
  sim::nontrivial();
  if (o.ok) {
    SIM_PROBE("hostile source accepted");
  } else {
    SIM_PROBE("hostile source refused");
    if (o.error.empty()) sim::violation("A04.no-error-text", "assembling fails without an error text");
  }
  if (o.ok) {
    sim::run_sut("queries", [&] {
      for (auto& w : o.writes) {
        (void)o.assembler->NameForAddress(nsasm::Address(w.at));
        (void)o.assembler->Contains(nsasm::Address(w.at));
      }
      (void)o.assembler->JumpTargetReturnConventions();
    });
  }
}

SIM_SCENARIO(A04, mutated_source, 4) {
  Program p = make_program(sim::flip(1, 2, "clean"), 2);
  auto texts = render(p, sim::data_rng("spelling"));
  sim::Rng g = sim::data_rng("mutation-data");
  int n = int(sim::choose(6, "mutations"));
  for (auto& t : texts) t.text = mutate(t.text, g, n);
  check_terminates(texts);
}

SIM_SCENARIO(A04, sloppy_program, 3) {
  Program p = make_program(false, 3);
  check_terminates(render(p, sim::data_rng("spelling")));
}

SIM_SCENARIO(A04, token_soup, 2) {
  sim::Rng g = sim::data_rng("soup");
  std::string s;
  if (sim::flip(1, 2, "preamble")) s = ".org $8000\nfoo: .entry m8x8\n";
  int lines = 1 + int(sim::choose(12, "soup-lines"));
  for (int i = 0; i < lines; ++i) {
    int n = 1 + int(sim::choose(7, "soup-tokens"));
    for (int k = 0; k < n; ++k) {
      s += kFragments[g.below(sizeof kFragments / sizeof *kFragments)];
      s += g.below(4) ? " " : "";
    }
    s += "\n";
  }
  if (sim::flip(1, 2, "postamble")) s += "rts\n";
  check_terminates({{"soup.asm", s}});
}

// Loops and nests whose processor state keeps changing.
SIM_SCENARIO(A04, changing_state, 3) {
  sim::Rng g = sim::data_rng("code");
  static const char* kOps[] = {"php", "plp", "pha", "pla", "phx", "plx", "phy", "ply", "phb", "plb", "phd", "pld", "phk", "sep #$30",
                               "rep #$30", "sep #$20", "rep #$20", "rep #$10", "xce", "clc", "sec", "inx", "dex", "iny", "inc", "dec",
                               "pea $1234", "pei ($12)", "txs", "tcs", "tsx", "jsr $1234", "jsr $8000 yields m8", "jsl $123456 yields unk",
                               "adc $12", "cmp $12", "nop", "mvn #1, #2", "xba", "brk #1", "cop #2"};
  std::string s = ".org $8000\n";
  int n = 2 + int(sim::choose(uint32_t(4 + 12 * sim::size_class()), "length"));
  static const char* kModes[] = {"m8x8", "m16x16", "native", "emu", "unk", "m8", "x16"};
  s += std::string(" .entry ") + kModes[sim::choose(7, "entry-mode")] + "\n";
  for (int i = 0; i < n; ++i) {
    s += "l" + std::to_string(i) + ": ";
    switch (sim::pick({8, 2, 1, 1}, "line")) {
      case 0: s += kOps[sim::choose(sizeof kOps / sizeof *kOps, "op")]; break;
      case 1: {
        static const char* kBr[] = {"bne", "beq", "bcc", "bcs", "bmi", "bvs"};
        s += std::string(kBr[g.below(6)]) + " l" + std::to_string(sim::choose(uint32_t(n), "target"));
        break;
      }
      case 2: s += std::string("nop\n .entry ") + kModes[g.below(7)]; break;
      default: s += std::string(".mode ") + kModes[g.below(7)];
    }
    s += "\n";
  }
  s += "rts\n";
  check_terminates({{"loop.asm", s}});
}

SIM_SCENARIO(A04, deep_nesting, 1) {
  sim::Rng g = sim::data_rng("nesting");
  static const int kDepth[] = {10, 100, 900, 1100, 3000};
  int d = kDepth[sim::choose(5, "depth")];
  if (sim::flip(1, 10, "enormous")) d = 60000;
  std::string s = ".org $8000\n", e;
  uint64_t kind = sim::choose(7, "nest-kind");
  // The assembler keeps the enclosing scopes of every line, which is fine but
  // quadratic in the depth of the nesting.
  if (kind == 5 && d > 3000) d = 3000;
  switch (kind) {
    case 0: e = std::string(size_t(d), '(') + "1" + std::string(size_t(d), ')'); break;
    case 1: for (int i = 0; i < d; ++i) e += "- "; e += "1"; break;
    case 2: e = "1"; for (int i = 0; i < d; ++i) e += g.below(2) ? "+1" : "*3"; break;
    case 3: for (int i = 0; i < d; ++i) e += "<"; e += "1"; break;
    case 4: e = "1"; for (int i = 0; i < d; ++i) e += ", 2"; break;
    case 5: for (int i = 0; i < d; ++i) s += ".begin\n"; for (int i = 0; i < d; ++i) s += ".end\n"; e = "1"; break;
    default: for (int i = 0; i < d; ++i) s += ".begin : x: .db 1 : .end\n"; e = "1";
  }
  s += ".dw " + e + "\n";
  std::string name = std::string(sim::flip(1, 3, "equ") ? "v: .equ " + e + "\n" : "");
  s += name;
  // Sources this large run long; the bound is per byte squared.
  check_terminates({{"deep.asm", s}});
}

}  // namespace
