// D01-D03: the disassembler, its input failing, and the way back to source.
#include <set>
#include <string>
#include <vector>

#include "disrun.h"
#include "nsasm/decode.h"
#include "sim/fs.h"

namespace {

using namespace disrun;

std::string describe(const Listed& l) {
  char b[120];
  auto f = [](int v) { return v < 0 ? '?' : char('0' + v); };
  snprintf(b, sizeof b, " [e%c m%c x%c c%c -> e%c m%c x%c c%c]", f(l.before.e), f(l.before.m), f(l.before.x),
           f(l.c_before), f(l.after.e), f(l.after.m), f(l.after.x), f(l.c_after));
  return (l.label.empty() ? "" : l.label + ": ") + l.text + (l.entry ? " (entry)" : "") + b;
}

void same_listing(const char* cls, const char* what, const Listing& a, const Listing& b) {
  for (auto& n : a) {
    auto it = b.find(n.first);
    if (it == b.end()) sim::violation(cls, "%s: %06x `%s' is not there otherwise", what, n.first, describe(n.second).c_str());
    if (!(it->second == n.second)) {
      sim::violation(cls, "%s: %06x is `%s', otherwise `%s'", what, n.first, describe(n.second).c_str(),
                     describe(it->second).c_str());
    }
  }
  for (auto& n : b) {
    if (!a.count(n.first)) sim::violation(cls, "%s: %06x `%s' is missing", what, n.first, describe(n.second).c_str());
  }
}

std::map<nsasm::Address, nsasm::ReturnConvention> choose_conventions(const Image& im, std::map<uint32_t, int>* kind,
                                                                    std::map<uint32_t, Flags>* yields) {
  std::map<nsasm::Address, nsasm::ReturnConvention> v;
  for (auto a : im.callees) {
    if (kind->count(a) || !sim::flip(1, 4, "convention")) continue;
    if (sim::flip(1, 3, "noreturn")) {
      v.emplace(nsasm::Address(a), nsasm::ReturnConvention(nsasm::NoReturn()));
      (*kind)[a] = 2;
    } else {
      Flags f = entry_flags();
      v.emplace(nsasm::Address(a), nsasm::ReturnConvention(to_flags(f)));
      (*kind)[a] = 1;
      (*yields)[a] = f;
    }
  }
  return v;
}

}  // namespace

// ---- D01 -----------------------------------------------------------------------
SIM_SCENARIO(D01, failed_calls, 4) {
  Image im = make_image();
  log_image(im);
  Session a(&im), b(&im);
  std::map<uint32_t, int> kind;
  std::map<uint32_t, Flags> yields;
  auto conv = choose_conventions(im, &kind, &yields);
  a.d->AddTargetReturnConventions(conv);
  b.d->AddTargetReturnConventions(conv);
  std::vector<std::pair<uint32_t, nsasm::StatusFlags>> pool;
  for (auto& e : im.entries) pool.push_back({e.at, to_flags(e.flags)});
  int calls = 2 + int(sim::choose(6 + uint32_t(sim::size_class()), "calls"));
  Listing la;
  std::vector<std::pair<uint32_t, nsasm::StatusFlags>> done;  // the calls that succeeded
  sim::Rng g = sim::data_rng("bad-addresses");
  for (int k = 0; k < calls && !pool.empty(); ++k) {
    // Recent targets are the most interesting ones.
    size_t at = sim::choose(uint32_t(pool.size()), "which");
    auto want = pool[at];
    if (sim::flip(1, 5, "other-state")) want.second = to_flags(entry_flags());
    if (sim::flip(1, 10, "other-place")) {
      auto it = im.bytes.begin();
      std::advance(it, long(g.below(uint32_t(im.bytes.size()))));
      want.first = it->first;
    }
    switch (sim::pick({4, 4, 2}, "fault")) {
      case 0: break;
      case 1: {
        a.source.fail_at = {int(sim::choose(10, "fail-read"))};
        break;
      }
      default: {
        auto it = im.bytes.begin();
        std::advance(it, long(g.below(uint32_t(im.bytes.size()))));
        for (uint32_t q = 0; q < 1 + g.below(6); ++q) a.source.bad.insert(cpu::wrap(it->first, int(q)));
      }
    }
    auto ra = a.disassemble(want.first, want.second);
    a.source.bad.clear();
    Listing now = a.listing();
    sim::evaluated();
    if (ra.failed_reads) sim::nontrivial();
    if (ra.ok && ra.failed_reads) {
      sim::violation("D01.swallowed", "%06x: a read failed, but disassembling reported success", want.first);
    }
    if (!ra.ok) {
      SIM_PROBE("call failed");
      if (ra.failed_reads && ra.error.find(a.source.message) == std::string::npos) {
        sim::violation("D01.message", "a read failed, but the error is `%s'", ra.error.c_str());
      }
      same_listing("D01.partial", "after a failed call", now, la);
      if (!ra.failed_reads && sim::flip(2, 3, "without-failures")) {
        // Nothing failed this time: so it fails without the failed calls too.
        SIM_PROBE("call failed on its own");
        Session c(&im);
        c.d->AddTargetReturnConventions(conv);
        for (auto& d : done) c.disassemble(d.first, d.second);
        auto rc = c.disassemble(want.first, want.second);
        if (rc.ok) {
          sim::violation("D01.other-outcome", "%06x fails after failed calls, but succeeds without them: %s", want.first,
                         ra.error.c_str());
        }
        if (rc.error != ra.error) {
          sim::violation("D01.other-outcome", "%06x fails with `%s' after failed calls, with `%s' without them", want.first,
                         ra.error.c_str(), rc.error.c_str());
        }
      }
      if (sim::flip(1, 2, "retry")) {
        pool.push_back(want);
        if (sim::flip(1, 2, "at-once")) pool.assign(1, want);
      }
      continue;
    }
    SIM_PROBE("call succeeded");
    sim::set_hash_salt(sim::choose(4, "hash-salt"));
    auto rb = b.disassemble(want.first, want.second);
    Listing lb = b.listing();
    if (!rb.ok) {
      sim::violation("D01.other-outcome", "%06x succeeds after failed calls, but fails without them: %s", want.first,
                     rb.error.c_str());
    }
    same_listing("D01.trace", "with failed calls before", now, lb);
    if (ra.target_names != rb.target_names) sim::violation("D01.targets", "%06x: other jump targets are reported", want.first);
    la = now;
    done.push_back(want);
    for (auto& t : ra.targets) pool.push_back({t.first, t.second});
  }
  a.cleanup();
  b.cleanup();
  sim::evaluated();
  same_listing("D01.trace", "after clean-up, with failed calls before", a.listing(), b.listing());
  sim::check_heap();
}

// ---- D02 -----------------------------------------------------------------------
namespace {

bool mode_matches(int mode, cpu::Mode want) {
  using namespace nsasm;
  switch (want) {
    case cpu::kImp: return mode == A_imp;
    case cpu::kAcc: return mode == A_acc;
    case cpu::kImm8: return mode == A_imm_b;
    case cpu::kImm16: return mode == A_imm_w;
    case cpu::kImmM: case cpu::kImmX: return mode == A_imm_b || mode == A_imm_w;
    case cpu::kDp: return mode == A_dir_b;
    case cpu::kDpX: return mode == A_dir_bx;
    case cpu::kDpY: return mode == A_dir_by;
    case cpu::kAbs: return mode == A_dir_w;
    case cpu::kAbsX: return mode == A_dir_wx;
    case cpu::kAbsY: return mode == A_dir_wy;
    case cpu::kLong: return mode == A_dir_l;
    case cpu::kLongX: return mode == A_dir_lx;
    case cpu::kInd: return mode == A_ind_b;
    case cpu::kIndX: return mode == A_ind_bx;
    case cpu::kIndY: return mode == A_ind_by;
    case cpu::kIndL: return mode == A_lng_b;
    case cpu::kIndLY: return mode == A_lng_by;
    case cpu::kSr: return mode == A_stk;
    case cpu::kSrIY: return mode == A_stk_y;
    case cpu::kRel8: return mode == A_rel8;
    case cpu::kRel16: return mode == A_rel16;
    case cpu::kAbsInd: return mode == A_ind_w;
    case cpu::kAbsIndX: return mode == A_ind_wx;
    case cpu::kAbsIndL: return mode == A_lng_w;
    case cpu::kMove: return mode == A_mov;
    default: return false;
  }
}

void check_flags(const char* cls, uint32_t pc, const Listed& l, const Flags& f, int c, const cpu::Machine& mac) {
  if (!mac.matches(f) || (c >= 0 && bool(c) != mac.c)) {
    sim::violation(cls, "%06x `%s': the processor has e%d m%d x%d c%d", pc, describe(l).c_str(), mac.e, mac.m, mac.x, mac.c);
  }
}

}  // namespace

namespace {
// The bytes of an instruction are enough to decode it, and fewer are refused.
void check_decode(uint32_t pc, const cpu::Decoded& d, const cpu::Machine& mac, const Image& im) {
  std::vector<uint8_t> raw;
  for (int i = 0; i < d.bytes; ++i) raw.push_back(*im.at(cpu::wrap(pc, i)));
  nsasm::StatusFlags flags(mac.e ? nsasm::B_on : nsasm::B_off, mac.m ? nsasm::B_on : nsasm::B_off,
                           mac.x ? nsasm::B_on : nsasm::B_off);
  for (int n = 0; n <= d.bytes; ++n) {
    std::vector<uint8_t> part(raw.begin(), raw.begin() + n);
    bool ok = false, same = false;
    sim::run_sut("Decode", [&] {
      auto got = nsasm::Decode(part, flags);
      ok = got.ok();
      same = ok && nsasm::ToString(got->mnemonic) == d.name && got->SerializedSize() == d.bytes;
    });
    if (ok != (n == d.bytes) || (ok && !same)) {
      sim::violation("D02.decode", "%d of the %d bytes of the %s at %06x are decoded as %s", n, d.bytes, d.name.c_str(), pc,
                     !ok ? "nothing" : same ? "it" : "something else");
    }
  }
}
}  // namespace

SIM_SCENARIO(D02, lockstep, 4) {
  Image im = make_image();
  log_image(im);
  Session s(&im);
  std::map<uint32_t, int> kind;
  std::map<uint32_t, Flags> yields;
  if (sim::flip(1, 2, "conventions")) s.d->AddTargetReturnConventions(choose_conventions(im, &kind, &yields));
  bool faults = sim::flip(1, 3, "faults");
  Closure c = close_over(&s, im.entries, faults, sim::flip(1, 2, "merge-first"));
  if (!c.complete) return;
  if (c.roots_ok.empty()) {
    SIM_PROBE("nothing disassembled");
    return;
  }
  Listing l = s.listing();
  sim::nontrivial();
  static const int kSteps = sim::register_counter("instructions executed in lockstep", false);
  sim::Rng rng = sim::data_rng("executions");
  std::set<uint32_t> decoded;
  auto fetch = [&](uint32_t a) { return im.at(a & 0xffffff); };
  for (auto& root : im.entries) {
    if (!c.roots_ok.count(root.at)) continue;
    for (int k = 0; k < 12; ++k) {
      cpu::Machine mac;
      mac.rng = &rng;
      mac.start(root.flags);
      uint32_t pc = root.at;
      for (int steps = 0; steps < 300; ++steps) {
        auto it = l.find(pc);
        auto d = cpu::decode(pc, mac.m, mac.x, fetch);
        if (!d) break;
        if (it == l.end()) sim::violation("D02.missing", "%06x is executed (%s) but not listed", pc, d->name.c_str());
        const Listed& x = it->second;
        sim::evaluated();
        sim::bump(kSteps);
        check_flags("D02.flags", pc, x, x.before, x.c_before, mac);
        if (x.mnemonic != d->name || !mode_matches(x.mode, d->mode)) {
          sim::violation("D02.operation", "%06x `%s' executes as %s (mode %d)", pc, x.text.c_str(), d->name.c_str(), int(d->mode));
        }
        if (x.size != d->bytes) {
          sim::violation("D02.length", "%06x `%s' is listed with %d bytes and executes with %d", pc, describe(x).c_str(), x.size, d->bytes);
        }
        if (decoded.insert(pc << 3 | uint32_t(mac.e) << 2 | uint32_t(mac.m) << 1 | uint32_t(mac.x)).second) check_decode(pc, *d, mac, im);
        if (x.suffix) {
          auto used = nsasm::FlagControllingInstructionSize(*nsasm::ToMnemonic(x.mnemonic));
          bool narrow = used == nsasm::kUsesMFlag ? mac.m : mac.x;
          if (used == nsasm::kNotVariable || (x.suffix == nsasm::S_b) != narrow) {
            sim::violation("D02.suffix", "%06x `%s' executes with m%d x%d", pc, describe(x).c_str(), mac.m, mac.x);
          }
        }
        if (d->mode == cpu::kRel8 || d->mode == cpu::kRel16) {
          if (!x.arg || cpu::wrap(pc, d->bytes + *x.arg) != d->target) {
            sim::violation("D02.branch", "%06x `%s' goes to %06x", pc, x.text.c_str(), d->target);
          }
          if (d->name != "per") {
            auto t = l.find(d->target);
            if (t == l.end()) sim::violation("D02.missing", "%06x `%s': %06x is not listed", pc, x.text.c_str(), d->target);
            if (t->second.label.empty() || x.text.find(t->second.label) == std::string::npos) {
              sim::violation("D02.label", "%06x `%s', but %06x is labelled `%s'", pc, x.text.c_str(), d->target, t->second.label.c_str());
            }
          }
        } else if (d->bytes > 1 && d->mode != cpu::kMove) {
          uint32_t mask = d->bytes == 2 ? 0xff : d->bytes == 3 ? 0xffff : 0xffffff;
          if (!x.arg || (uint32_t(*x.arg) & mask) != d->operand) {
            sim::violation("D02.operand", "%06x `%s' executes with operand %x", pc, x.text.c_str(), d->operand);
          }
        }
        if (d->name == "txs" || d->name == "tcs") break;
        auto next = mac.step(d->name, d->mode, d->operand);
        bool after = true;
        if (next == cpu::Machine::kFall) {
          pc = cpu::wrap(pc, d->bytes);
        } else if (next == cpu::Machine::kBranch) {
          pc = d->target;
          after = false;
        } else if (next == cpu::Machine::kJump || next == cpu::Machine::kCall) {
          std::optional<uint32_t> t;
          if (d->mode == cpu::kAbs) t = (pc & 0xff0000) | d->operand;
          if (d->mode == cpu::kLong) t = d->operand;
          bool call = next == cpu::Machine::kCall;
          int how = t && call && kind.count(*t) ? kind[*t] : 0;
          if (!call || (t && rng.below(3) == 0)) {
            if (!t || c.failed.count(*t)) break;
            SIM_PROBE("followed a far target");
            if (call) {
              mac.push8(0xfe);  // return address
              mac.push8(0xfe);
              if (d->mode == cpu::kLong) mac.push8(0xfe);
              mac.stack.clear();  // not the callee's to pull
            } else {
              // The frame of a routine jumped to starts afresh in the analysis.
              mac.stack.clear();
            }
            pc = *t;
            after = false;
          } else {
            if (how == 2) break;
            mac.after_call(how == 1 ? &yields[*t] : nullptr);
            pc = cpu::wrap(pc, d->bytes);
          }
        } else {
          break;
        }
        if (after) check_flags("D02.flags-after", pc, x, x.after, x.c_after, mac);
      }
    }
  }
}

// ---- D03 -----------------------------------------------------------------------
namespace {

// Clean-up gives names and merges CLC/ADC and SEC/SBC that follow each other;
// every byte stays listed as the same instruction.
void check_cleanup(const Listing& pre, const Listing& post) {
  std::set<std::string> names;
  for (auto& n : post) {
    auto it = pre.find(n.first);
    if (it == pre.end()) sim::violation("D03.cleanup", "clean-up added %06x `%s'", n.first, n.second.text.c_str());
    if (n.second.label.empty() != it->second.label.empty()) {
      sim::violation("D03.cleanup", "%06x is labelled `%s', after clean-up `%s'", n.first, it->second.label.c_str(), n.second.label.c_str());
    }
    if (!n.second.label.empty() && !names.insert(n.second.label).second) {
      sim::violation("D03.cleanup", "%06x has the same label `%s' as another instruction", n.first, n.second.label.c_str());
    }
  }
  std::set<uint32_t> folded;
  for (auto& n : pre) {
    auto it = post.find(n.first);
    if (it == post.end()) {
      if (!folded.count(n.first)) sim::violation("D03.cleanup", "clean-up lost %06x `%s'", n.first, n.second.text.c_str());
      continue;
    }
    auto& o = it->second;
    auto states = [](const Flags& a, const Flags& b) { return a.e == b.e && a.m == b.m && a.x == b.x; };
    if (!states(o.before, n.second.before) || o.c_before != n.second.c_before) {
      sim::violation("D03.cleanup", "clean-up changed the state before %06x `%s'", n.first, n.second.text.c_str());
    }
    if (o.mnemonic == n.second.mnemonic) {
      if (!states(o.after, n.second.after) || o.c_after != n.second.c_after) {
        sim::violation("D03.cleanup", "clean-up changed the state after %06x `%s'", n.first, n.second.text.c_str());
      }
      const std::string& op = o.mnemonic;
      auto dest = post.end();
      if (n.second.arg && (op == "jsr" || op == "jsl" || op == "jmp") &&
          (o.mode == nsasm::A_dir_w || o.mode == nsasm::A_dir_l)) {
        dest = post.find(o.mode == nsasm::A_dir_w ? (n.first & 0xff0000) | (uint32_t(*n.second.arg) & 0xffff)
                                                  : uint32_t(*n.second.arg) & 0xffffff);
      }
      if (dest != post.end() && dest->second.entry && !dest->second.label.empty()) {
        SIM_PROBE("far target named");
        auto at = o.text.find(dest->second.label);
        if (at == std::string::npos || isalnum(o.text[at + dest->second.label.size()])) {
          sim::violation("D03.cleanup", "%06x `%s' leads to `%s'", n.first, o.text.c_str(), dest->second.label.c_str());
        }
      } else if (o.arg != n.second.arg) {
        sim::violation("D03.cleanup", "clean-up changed the operand of %06x `%s' to `%s'", n.first, n.second.text.c_str(), o.text.c_str());
      }
      if (o.mode != n.second.mode || o.size != n.second.size || o.suffix != n.second.suffix) {
        sim::violation("D03.cleanup", "clean-up changed %06x `%s' to `%s'", n.first, n.second.text.c_str(), o.text.c_str());
      }
      continue;
    }
    uint32_t next = cpu::wrap(n.first, 1);
    auto second = pre.find(next);
    bool add = n.second.mnemonic == "clc" && o.mnemonic == "add", sub = n.second.mnemonic == "sec" && o.mnemonic == "sub";
    if ((!add && !sub) || second == pre.end() || second->second.mnemonic != (add ? "adc" : "sbc") || post.count(next) ||
        !second->second.label.empty() || o.mode != second->second.mode || o.size != 1 + second->second.size ||
        o.suffix != second->second.suffix || o.arg != second->second.arg || !states(o.after, second->second.after) ||
        o.c_after != second->second.c_after) {
      sim::violation("D03.cleanup", "clean-up changed %06x `%s' to `%s'", n.first, n.second.text.c_str(), o.text.c_str());
    }
    SIM_PROBE("add or sub folded");
    folded.insert(next);
  }
}

}  // namespace

SIM_SCENARIO(D03, round_trip, 4) {
  Image im = make_image();
  log_image(im);
  Session s(&im);
  std::map<uint32_t, int> kind;
  std::map<uint32_t, Flags> yields;
  if (sim::flip(1, 3, "conventions")) s.d->AddTargetReturnConventions(choose_conventions(im, &kind, &yields));
  close_over(&s, im.entries, sim::flip(1, 3, "faults"), sim::flip(1, 2, "merge-first"));
  Listing before = s.listing();
  s.cleanup();
  Listing l = s.listing();
  if (l.empty()) return;
  check_cleanup(before, l);
  std::string text = s.print();
  asmrun::Outcome out;
  if (sim::flip(1, 3, "stored")) {
    // Stored, and read back by another process.
    const char* path = "/sim/listing.asm";
    sim::fs::put(path, std::vector<uint8_t>(text.begin(), text.end()));
    sim::fs::set_policy(sim::fs::choose_policy(true, false, false, 3 + int(text.size() / 8191)));
    out = asmrun::assemble({{path, text}}, -1, 0, true);
    sim::fs::set_policy(sim::fs::Policy());
    if (out.unread) {
      SIM_PROBE("stored listing unreadable");
      if (!sim::fs::errors_injected()) sim::violation("D03.unread", "the stored listing was not read: %s", out.error.c_str());
      return;
    }
    SIM_PROBE("stored listing read");
  } else {
    out = asmrun::assemble({{"listing.asm", text}});
  }
  sim::evaluated();
  sim::nontrivial();
  if (!out.ok) {
    SIM_PROBE("listing refused");
    sim::log("refused: %s", out.error.c_str());
    if (expressible(l)) sim::violation("D03.refused", "the listing does not assemble: %s", out.error.c_str());
    return;
  }
  SIM_PROBE("listing assembled");
  for (auto& b : out.memory) {
    auto want = im.at(b.first);
    if (!want || *want != b.second) {
      auto it = l.upper_bound(b.first);
      if (it != l.begin()) --it;
      sim::violation("D03.bytes", "%06x is %02x in the image and %02x when the listing is assembled (near `%s')", b.first,
                     want ? *want : 0, b.second, describe(it->second).c_str());
    }
  }
  std::set<uint32_t> covered;
  for (auto& n : l) {
    for (int i = 0; i < n.second.size; ++i) covered.insert(cpu::wrap(n.first, i));
  }
  for (auto a : covered) {
    if (!out.memory.count(a)) sim::violation("D03.lost", "%06x belongs to the listing, but was not assembled", a);
  }
  for (auto& b : out.memory) {
    if (!covered.count(b.first)) sim::violation("D03.stray", "%06x was assembled, but is not in the listing", b.first);
  }
}

// ---- A04 -----------------------------------------------------------------------
// Disassembling anything ends, within a number of steps bounded by the size of
// what is readable (an instruction is revisited only when its state grows).
SIM_SCENARIO(A04, disassemble_anything, 2) {
  Image im;
  sim::Rng g = sim::data_rng("image");
  uint32_t base = uint32_t(g.next()) & 0xffffff;
  int n = 1 + int(sim::choose(40u << (sim::size_class() / 2), "bytes"));
  static const uint8_t kNasty[] = {0x08, 0x28, 0xfb, 0xc2, 0xe2, 0x48, 0x68, 0xda, 0xfa, 0x5a, 0x7a, 0x18, 0x38,
                                   0x90, 0xb0, 0x80, 0xd0, 0x10, 0x20, 0x22, 0x60, 0x8b, 0xab, 0x44, 0x54, 0xf4,
                                   0x00, 0x02, 0x42, 0x9a, 0x1b, 0xba, 0x3b, 0xd4, 0x62, 0x82, 0x0b, 0x2b, 0x4b};
  int style = int(sim::choose(4, "style"));
  uint8_t same = uint8_t(g.next());
  for (int i = 0; i < n; ++i) {
    uint8_t b = style == 0   ? uint8_t(g.next())
                : style == 1 ? kNasty[g.below(sizeof kNasty)]
                : style == 2 ? (g.below(4) ? kNasty[g.below(sizeof kNasty)] : uint8_t(g.below(2) ? g.below(8) : 256 - g.below(12)))
                             : (g.below(10) ? same : uint8_t(g.next()));
    im.bytes[cpu::wrap(base, i)] = b;
  }
  im.salt = g.next();
  im.everywhere = !sim::flip(1, 4, "nothing-around");
  log_image(im);
  Session s(&im);
  int calls = 1 + int(sim::choose(5, "calls"));
  std::vector<std::pair<uint32_t, nsasm::StatusFlags>> pool;
  for (int k = 0; k < calls; ++k) {
    uint32_t a = cpu::wrap(base, int(g.below(uint32_t(n))));
    auto f = to_flags(entry_flags());
    if (!pool.empty() && sim::flip(1, 2, "follow")) {
      auto& q = pool[g.below(uint32_t(pool.size()))];
      a = q.first;
      f = q.second;
    }
    if (sim::flip(1, 6, "fault")) s.source.fail_at = {int(sim::choose(30, "fail-read"))};
    auto r = s.disassemble(a, f);
    sim::evaluated();
    sim::nontrivial();
    if (!r.ok && r.error.empty()) sim::violation("A04.no-message", "an error without a message");
    if (r.ok) SIM_PROBE("anything disassembled"); else SIM_PROBE("anything refused");
    for (auto& t : r.targets) pool.push_back({t.first, t.second});
  }
  if (sim::flip(1, 2, "clean-up")) {
    s.cleanup();
    asmrun::assemble({{"listing.asm", s.print()}});
  }
  sim::check_heap();
}

// ---- D04 -----------------------------------------------------------------------
// The order in which entry points and far targets are visited does not decide what is
// found: the same instructions, labels and jump targets, and no contradicting states.
// (How precise a state is may depend on the order: joining states of a register pushed
// in two sizes makes the stack unknown.)
namespace {

void no_contradiction(const char* what, uint32_t at, const Flags& a, const Flags& b) {
  auto f = [](int p, int q) { return p >= 0 && q >= 0 && p != q; };
  if (f(a.e, b.e) || f(a.m, b.m) || f(a.x, b.x)) {
    sim::violation("D04.states", "%06x: %s e%d m%d x%d, in another order e%d m%d x%d", at, what, a.e, a.m, a.x, b.e, b.m, b.x);
  }
}

}  // namespace

SIM_SCENARIO(D04, any_order, 4) {
  Image im = make_image();
  log_image(im);
  std::map<uint32_t, int> kind;
  std::map<uint32_t, Flags> yields;
  std::map<nsasm::Address, nsasm::ReturnConvention> conv;
  if (sim::flip(1, 3, "conventions")) conv = choose_conventions(im, &kind, &yields);
  auto roots = im.entries;
  std::optional<Listing> first;
  Closure c0;
  int n = 2 + int(sim::choose(2, "orders"));
  for (int k = 0; k < n; ++k) {
    Session s(&im);
    s.d->AddTargetReturnConventions(conv);
    sim::set_hash_salt(sim::choose(4, "hash-salt"));
    Closure c = close_over(&s, roots, sim::flip(1, 3, "faults"), sim::flip(1, 2, "merge-first"));
    if (!c.complete) return;
    // What fails depends on which state arrives first; so does then the rest.
    // A place that cannot be read fails in every state.
    for (uint32_t a : c.failed) {
      if (!im.at(a)) continue;
      SIM_PROBE("something not decodable");
      return;
    }
    s.cleanup();
    Listing l = s.listing();
    if (k == 0) {
      first = l;
      c0 = c;
    } else {
      sim::evaluated();
      sim::nontrivial();
      SIM_PROBE("orders compared");
      for (auto& t : c.asked) {
        auto it = c0.asked.find(t.first);
        if (it == c0.asked.end()) sim::violation("D04.targets", "%06x is a jump target only in one order", t.first);
        no_contradiction("jump target with", t.first, asmrun::flags(t.second), asmrun::flags(it->second));
      }
      for (auto& t : c0.asked) {
        if (!c.asked.count(t.first)) sim::violation("D04.targets", "%06x is a jump target only in one order", t.first);
      }
      for (auto& x : *first) {
        if (!l.count(x.first)) {
          sim::violation("D04.missing", "%06x `%s' is missing in another order", x.first, x.second.text.c_str());
        }
      }
      for (auto& x : l) {
        auto it = first->find(x.first);
        if (it == first->end()) {
          sim::violation("D04.missing", "%06x `%s' is missing in another order", x.first, x.second.text.c_str());
        }
        if (x.second.label != it->second.label || shape(x.second) != shape(it->second) || x.second.size != it->second.size || x.second.mode != it->second.mode ||
            x.second.entry != it->second.entry) {
          sim::violation("D04.order", "%06x is `%s', in another order `%s'", x.first, describe(x.second).c_str(),
                         describe(it->second).c_str());
        }
        no_contradiction("entered with", x.first, x.second.before, it->second.before);
        no_contradiction("left with", x.first, x.second.after, it->second.after);
      }
    }
    // Another order next time.
    for (size_t i = roots.size(); i > 1; --i) std::swap(roots[i - 1], roots[sim::choose(uint32_t(i), "swap")]);
  }
}
