// A06: correct programs are accepted; in the others the error names the place.
#include <algorithm>
#include <map>
#include <set>
#include <string>
#include <vector>

#include "asmrun.h"
#include "malformed.h"
#include "sim/fs.h"
#include "sim/sim.h"

namespace {

using namespace asmrun;
using asmgen::File;
using asmgen::kData;

// Paths are absolute, as on the simulated disk.
Program strict_program(int max_files, bool small) {
  asmgen::Options o;
  o.files = 1 + int(sim::choose(uint32_t(max_files), "files"));
  o.routines = 1 + int(sim::choose(small ? 2 : 3, "max-routines"));
  o.body = small ? 3 : 3 + sim::size_class();
  o.strict = true;
  asmgen::Generator g(o, sim::data_rng("program"));
  Program p = g.make();
  for (auto& f : p.files) f.path = "/sim/" + f.path;
  return p;
}

// Layout by the widths the generator had in mind (exact in strict programs).
bool intended_layout(Meaning& m) {
  for (size_t f = 0; f < m.p->files.size(); ++f) {
    for (size_t i = 0; i < m.p->files[f].lines.size(); ++i) {
      const Line& l = m.p->files[f].lines[i];
      if (!sized_immediate(l)) continue;
      bool is_m = l.mode == cpu::kImmM;
      int w = is_m ? l.want_m : l.want_x;
      if (w < 0) return false;
      m.width[Ref{int(f), int(i)}] = (w ? 1 : 2) << (is_m ? 0 : 2);
    }
  }
  return m.layout();
}

// A rule of the language the program breaks after all, or "".
std::string broken_rule(const Program& p) {
  Meaning m(p);
  if (!intended_layout(m)) return "layout";
  std::set<uint32_t> used;
  for (auto& n : m.address) {
    const Line& l = m.line(n.first);
    int size = m.size(n.first);
    for (int i = 0; i < size; ++i) {
      if (!used.insert(cpu::wrap(n.second, i)).second) return "overlap";
    }
    if (l.kind != asmgen::kInstr && l.kind != kData) continue;
    if (!m.bytes(n.first)) {
      return l.mode == cpu::kRel8 || l.mode == cpu::kRel16 ? "branch too far" : "no value";
    }
  }
  return "";
}

// The files as another tool may have stored them: only line ends differ.
std::vector<Text> store(const std::vector<Text>& texts) {
  bool crlf = sim::flip(1, 3, "crlf"), unfinished = sim::flip(1, 3, "no-final-newline");
  for (auto& t : texts) {
    std::string s;
    for (char c : t.text) {
      if (c == '\n' && crlf) s += '\r';
      s += c;
    }
    if (unfinished && !s.empty() && s.back() == '\n') s.pop_back();
    sim::fs::put(t.path, sim::fs::Bytes(s.begin(), s.end()));
  }
  return texts;
}

Outcome assemble_somehow(const std::vector<Text>& texts) {
  if (!sim::flip(1, 4, "on-disk")) return assemble(texts);
  SIM_PROBE("sources read from disk");
  sim::fs::reset();
  store(texts);
  sim::fs::Policy pol;
  pol.mode = sim::fs::Policy::kRate;
  pol.rate_den = 3;
  pol.errors = false;
  pol.short_io = true;
  sim::fs::set_policy(pol);
  auto o = assemble(texts, -1, 0, true);
  sim::fs::set_policy({});
  return o;
}

SIM_SCENARIO(A06, accepted, 2) {
  Program p = strict_program(3, false);
  std::string rule = broken_rule(p);
  auto texts = render(p, sim::data_rng("spelling"));
  if (texts.size() > 1 && sim::flip(1, 2, "other-order")) {
    auto g = sim::data_rng("order");
    for (size_t i = texts.size(); i > 1; --i) std::swap(texts[i - 1], texts[g.below(uint32_t(i))]);
  }
  auto o = assemble_somehow(texts);
  if (!rule.empty()) {
    SIM_PROBE("program breaks a rule after all");
    if (rule == "overlap" || rule == "branch too far") {
      sim::evaluated();
      if (o.ok) sim::violation("A06.wrong-accepted", "accepted in spite of %s", rule.c_str());
    }
    return;
  }
  sim::nontrivial();
  sim::evaluated();
  if (!o.ok) sim::violation("A06.refused", "a correct program is refused: %s", o.error.c_str());
  SIM_PROBE("correct program accepted");
}

// ---- one mistake -----------------------------------------------------------------
struct Mistake {
  const char* what = "";
  std::vector<Ref> places;  // the error has to name one of these
};

Line raw(const std::string& text, std::vector<std::string> labels = {}) {
  Line l;
  l.kind = asmgen::kHalt;
  l.raw = text;
  for (auto& n : labels) {
    bool e = n[0] == '!';
    l.labels.push_back({e ? n.substr(1) : n, e});
  }
  return l;
}

// A number of lines from the text that stand together, starting with .org.
uint32_t free_place(uint32_t k) { return 0x420000 + k * 0x1000; }
std::string hex6(uint32_t a) {
  char b[16];
  snprintf(b, sizeof b, "$%06x", a);
  return b;
}

// Places for whole blocks: before an .org (or at the end), outside all scopes.
std::vector<int> gaps(const Program& p, int f) {
  std::vector<int> v;
  int depth = 0;
  auto& lines = p.files[size_t(f)].lines;
  bool seen = false;
  for (size_t i = 0; i < lines.size(); ++i) {
    if (lines[i].kind == asmgen::kOrg && depth == 0) {
      v.push_back(int(i));
      seen = true;
    }
    if (lines[i].kind == asmgen::kBegin) ++depth;
    if (lines[i].kind == asmgen::kEnd) --depth;
  }
  if (seen) v.push_back(int(lines.size()));
  return v;
}

Mistake insert_block(Program& p, const char* what, std::vector<Line> block, std::vector<int> wrong) {
  Mistake m;
  m.what = what;
  int f = int(sim::choose(uint32_t(p.files.size()), "file"));
  auto g = gaps(p, f);
  int at = g[sim::choose(uint32_t(g.size()), "gap")];
  auto& lines = p.files[size_t(f)].lines;
  lines.insert(lines.begin() + at, block.begin(), block.end());
  for (int w : wrong) m.places.push_back({f, at + w});
  return m;
}

Mistake make_mistake(Program& p) {
  auto block = [&](const char* what, std::vector<Line> lines, std::vector<int> wrong) {
    return insert_block(p, what, std::move(lines), std::move(wrong));
  };
  auto org = [](uint32_t a) { return raw(".org " + hex6(a)); };
  auto some_line = [&](int* f) {
    *f = int(sim::choose(uint32_t(p.files.size()), "file"));
    return int(sim::choose(uint32_t(p.files[size_t(*f)].lines.size()), "line"));
  };
  auto insert = [&](const char* what, int f, int at, Line l) {
    Mistake m;
    m.what = what;
    auto& lines = p.files[size_t(f)].lines;
    lines.insert(lines.begin() + at, std::move(l));
    m.places = {{f, at}};
    return m;
  };
  uint32_t base = free_place(sim::choose(8, "place"));
  auto rng = sim::data_rng("mistake");
  static const char* conditional[] = {"bne", "beq", "bcc", "bcs", "bmi", "bpl", "bvc", "bvs"};
  std::string b = conditional[rng.below(8)];
  std::string entry = std::string(".entry ") + (rng.below(2) ? "m8x8" : "m16x16");
  std::string exit = rng.below(2) ? "rts" : "rtl";
  auto pad = [&](int n) {
    std::string s = ".db 0";
    for (int i = 1; i < n; ++i) s += ", 0";
    return raw(s);
  };
  switch (sim::pick({16, 3, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2}, "mistake")) {
    case 0: {  // something malformed, anywhere
      int f;
      int at = some_line(&f);
      auto& all = asmgen::malformed();
      Line l = raw(all[sim::choose(uint32_t(all.size()), "malformed")]);
      if (sim::flip(1, 3, "labelled")) l.labels.push_back({"wrong", false});
      return insert("malformed statement", f, at, l);
    }
    case 1: {  // a name defined twice in one scope
      int f = int(sim::choose(uint32_t(p.files.size()), "file"));
      Meaning m(p);
      std::vector<std::pair<int, std::string>> c;
      auto& lines = p.files[size_t(f)].lines;
      for (size_t i = 0; i < lines.size(); ++i) {
        for (auto& l : lines[i].labels) c.push_back({int(i), l.name});
      }
      if (c.empty()) return {};
      auto pick = c[sim::choose(uint32_t(c.size()), "name")];
      // A later line of the same scope.
      auto& scopes = m.scopes[size_t(f)];
      bool global = m.globals[size_t(f)].count(pick.second) && m.globals[size_t(f)][pick.second] == pick.first;
      std::vector<int> later;
      for (size_t i = size_t(pick.first) + 1; i < lines.size(); ++i) {
        if (global ? scopes[i].empty() : scopes[i] == scopes[size_t(pick.first)]) later.push_back(int(i));
      }
      if (later.empty()) return {};
      int at = later[sim::choose(uint32_t(later.size()), "later")];
      lines[size_t(at)].labels.push_back({pick.second, global && rng.below(2) == 0});
      Mistake mk;
      mk.what = "name defined twice";
      mk.places = {{f, at}};
      return mk;
    }
    case 2: {  // an unknown name
      static const char* s[] = {"lda nosuch", "lda #<nosuch", "lda @nosuch", "jsr nosuch", "jsl @nosuch",
                                "sta nosuch, x", "lda mod0::nosuch", "lda nomod::fn0", "lda ::nosuch", "pea #nosuch",
                                "lda [<nosuch], y", "lda $12 + <nosuch", "per nosuch"};
      return block("unknown name", {org(base), raw(entry, {"um"}), raw(s[sim::choose(13, "use")]), raw(exit)}, {2});
    }
    case 3: {
      static const char* s[] = {".db nosuch", ".dw 1, 2, nosuch", ".dl @nosuch", ".db <nomod::fn0", ".dw 1 + ::nosuch",
                                ".remote nosuch m8x8", ".remote @nomod::fn0 emu"};
      return block("unknown name", {org(base), raw(s[sim::choose(7, "use")])}, {1});
    }
    case 4:  // branches that lead nowhere
      if (sim::flip(1, 2, "to-equ")) {
        return block("branch to a value", {org(base), raw(".equ 5", {"fivevalue"}), raw(entry), raw(b + " fivevalue"), raw(exit)}, {3});
      }
      return block("branch to an unknown name", {org(base), raw(entry), raw((rng.below(3) ? b : "brl") + " nosuch"), raw(exit)}, {2});
    case 5: {  // branch out of a scope's reach: the name exists elsewhere
      std::string use[] = {b + " inner", "lda inner", "jsr inner", ".dw inner", ".db <inner"};
      Line u = raw(use[sim::choose(5, "use")]);
      bool data = u.raw[0] == '.';  // behind the exit, not in its way
      std::vector<Line> v = {org(base), raw(entry)};
      auto add = [&](std::initializer_list<Line> l) { v.insert(v.end(), l); };
      int wrong = 0;
      auto fault = [&] {
        if (data) v.push_back(raw(exit));
        wrong = int(v.size());
        v.push_back(u);
        if (!data) v.push_back(raw(exit));
      };
      switch (sim::choose(4, "scopes")) {
        case 0:  // from outside
          add({raw("{"), raw("nop", {"inner"}), raw("}")});
          fault();
          break;
        case 1:  // from the scope around
          add({raw("{"), raw("nop"), raw("{"), raw("nop", {"inner"}), raw("}")});
          fault();
          add({raw("}")});
          break;
        case 2:  // from a scope beside it
          add({raw("{"), raw("{"), raw("nop", {"inner"}), raw("}"), raw("{")});
          fault();
          add({raw("}"), raw("}")});
          break;
        default:  // before it
          v = {org(base), raw("{"), data ? u : raw(entry), data ? raw(entry) : u,
               raw("{"), raw("nop", {"inner"}), raw("}"), raw(exit), raw("}")};
          wrong = data ? 2 : 3;
      }
      return block("name of another scope", v, {wrong});
    }
    case 6: {  // too far by a little or a lot
      int over = 1 + int(sim::choose(4, "over"));
      if (over == 4) over = 1 + int(rng.below(60));
      if (sim::flip(1, 2, "backward")) {
        // target ... branch at +n: offset = -(n + 2)
        int n = 126 + over;  // -(n+2) < -128
        std::vector<Line> v = {org(base), raw(entry), raw("brl longway"), pad(n - 4), raw(b + " targ", {"longway"}), raw(exit)};
        v.insert(v.begin() + 2, raw("nop", {"targ"}));
        // targ at 0: nop(1) brl(3) pad(n-4) branch at n
        return block("branch too far", v, {5});
      }
      // branch, exit(1), pad, target: offset = 1 + pad
      return block("branch too far", {org(base), raw(entry), raw(b + " targ"), raw(exit), pad(127 + over - 1), raw(exit, {"targ"})}, {2});
    }
    case 7: {
      static const char* s[] = {".org 16777217", ".org -1", ".org -$8000", ".org $ffffff + 1", ".org 16777216", ".org 2147483647"};
      return block("address out of range", {raw(s[sim::choose(6, "address")]), raw(".db 1")}, {0});
    }
    case 8: {
      static const char* s[] = {".remote 16777216 m8x8", ".remote -1 emu", ".remote $ffffff + 1 native"};
      return block("address out of range", {org(base), raw(".db 1"), raw(s[sim::choose(3, "address")])}, {2});
    }
    case 9: {  // a file without .org
      File f;
      f.path = "/sim/extra.asm";
      int wrong = 0;
      switch (sim::choose(3, "sized")) {
        case 0:
          f.lines = {raw(entry, {"noorg"}), raw(exit)};
          wrong = 1;
          break;
        case 1: f.lines = {raw(".db 1, 2", {"noorg"})}; break;
        default:
          f.lines = {raw(".equ 5", {"noorgvalue"}), raw("{"), raw(".dw noorgvalue"), raw("}"), raw(".org " + hex6(base)), raw(".db 1")};
          wrong = 2;
      }
      size_t at = sim::choose(uint32_t(p.files.size() + 1), "file-at");
      p.files.insert(p.files.begin() + long(at), f);
      Mistake m;
      m.what = "no address";
      m.places = {{int(at), wrong}};
      return m;
    }
    case 10:  // code nothing leads to
      switch (sim::choose(4, "unreachable")) {
        case 0: return block("unreachable code", {org(base), raw(entry), raw(exit), raw("nop"), raw(exit)}, {3});
        case 1: return block("unreachable code", {org(base), raw("nop"), raw("rts")}, {1});
        case 2:
          return block("unreachable code", {org(base), raw(entry), raw("bra past"), raw("lda $12", {"skipped"}), raw(exit, {"past"})}, {3});
        default:
          return block("unreachable code",
                       {org(base), raw(entry), raw("jsr $1234 noreturn"), raw("inx"), raw(".halt")}, {3});
      }
    case 11:  // running into what is not code
      switch (sim::choose(4, "into")) {
        case 0: return block("running into data", {org(base), raw(entry), raw("nop"), raw(".db 1"), raw(".db 2")}, {3});
        case 1: return block("running into data", {org(base), raw(entry), raw(b + " dat"), raw(exit), raw(".dw 1", {"dat"})}, {4});
        case 2: return block("running past .org", {org(base), raw(entry), raw("nop"), org(base + 0x800), raw(".db 1")}, {3});
        default: return block("running into data", {org(base), raw(entry), raw(".dl 1")}, {2});
      }
    case 12: {  // two statements at one place
      uint32_t k = rng.below(3);
      if (sim::flip(1, 2, "wrapping")) {
        return block("overlap", {org((base & 0xff0000) | 0xfffe), raw(".db 1, 2, 3, 4"), org((base & 0xff0000) + rng.below(2)), raw(".db 5")}, {3});
      }
      return block("overlap", {org(base + 10), raw(".db 1, 2, 3"), org(base + 10 + k), raw(".dw 4")}, {3});
    }
    case 13: {  // operand width not known
      std::string imm = rng.below(2) ? "lda #1" : rng.below(2) ? "adc #$12" : "cmp #$1234";
      std::string ximm = rng.below(2) ? "ldx #1" : rng.below(2) ? "cpy #$12" : "ldy #$1234";
      switch (sim::choose(7, "unknown-width")) {
        case 0: return block("ambiguous operand", {org(base), raw(".entry native"), raw(imm), raw(exit)}, {2});
        case 1: return block("ambiguous operand", {org(base), raw(".entry m8"), raw(ximm), raw(exit)}, {2});
        case 2:
          return block("ambiguous operand",
                       {org(base), raw(".entry m8x8"), raw(b + " j"), raw("rep #$30"), raw(imm, {"j"}), raw(exit)}, {4});
        case 3:
          return block("ambiguous operand",
                       {org(base), raw(".entry m16x16"), raw(ximm, {"j"}), raw("sep #$10"), raw(b + " j"), raw(exit)}, {2});
        case 4: return block("ambiguous operand", {org(base), raw(".entry m8x8"), raw("plp"), raw(imm), raw(exit)}, {3});
        case 5: return block("ambiguous operand", {org(base), raw(".entry m8x8"), raw("jsr $1234 yields m8"), raw(ximm), raw(exit)}, {3});
        default: return block("ambiguous operand", {org(base), raw(".entry m8x8"), raw("sep #<nosuchyet"), raw("rep #<val"), raw(imm), raw(exit), raw(".equ $20", {"val"}), raw(".equ 0", {"nosuchyet"})}, {4});
      }
    }
    case 14: {  // a suffix that is not so
      static const char* s[] = {"lda.w #1", "lda.w $12", "sta.w $1234", "inc.w $12", "cmp.w #2", "stz.w $1234", "bit.w $12"};
      static const char* t[] = {"ldx.b #1", "ldy.b $12", "stx.b $1234", "cpx.b #2", "cpy.b $12", "sty.b $12"};
      if (sim::flip(1, 2, "index")) {
        return block("wrong suffix", {org(base), raw(".entry m8x16"), raw(t[sim::choose(6, "use")]), raw(exit)}, {2});
      }
      return block("wrong suffix", {org(base), raw(".entry m16x8"), raw("sep #$20"), raw(s[sim::choose(7, "use")]), raw(exit)}, {3});
    }
    case 15: {
      static const char* s[] = {".db 1/0", ".dw 5, 6/(3-3)", ".dl $123456/$00", ".dw 7/zerovalue", ".db 1/(2/3)"};
      return block("division by zero", {raw(".equ 0", {"zerovalue"}), org(base), raw(s[sim::choose(5, "division")])}, {2});
    }
    case 16: {
      if (sim::flip(1, 2, "equ")) return block("division by zero", {org(base), raw(".equ 5/0", sim::flip(1, 2, "labelled") ? std::vector<std::string>{"infinity"} : std::vector<std::string>{})}, {1});
      return block("division by zero", {org(base), raw(entry), raw("ldx $10 + 1/(1-1)"), raw(exit)}, {2});
    }
    case 17: {  // .module twice
      int f = int(sim::choose(uint32_t(p.files.size()), "file"));
      if (p.files[size_t(f)].module.empty()) return {};
      int at = 1 + int(sim::choose(uint32_t(p.files[size_t(f)].lines.size() - 1), "line"));
      return insert("module named twice", f, at, raw(".module " + (rng.below(2) ? p.files[size_t(f)].module : std::string("other"))));
    }
    case 18: {  // two files define the same name
      File f[2];
      std::string module = rng.below(2) ? "" : "shared";
      Mistake m;
      m.what = "name defined in two files";
      size_t at[2];
      for (int k = 0; k < 2; ++k) {
        f[k].path = k ? "/sim/extra1.asm" : "/sim/extra0.asm";
        if (!module.empty()) f[k].lines.push_back(raw(".module " + module));
        for (uint32_t i = rng.below(3); i; --i) f[k].lines.push_back(raw(".equ " + std::to_string(i), {"only" + std::to_string(k) + std::to_string(i)}));
        if (rng.below(2)) {
          f[k].lines.push_back(raw(".equ 1", {"both"}));
        } else {
          f[k].lines.push_back(org(base + uint32_t(k)));
          f[k].lines.push_back(raw("{"));
          f[k].lines.push_back(raw(".db 1", {"!both"}));
          f[k].lines.push_back(raw("}"));
        }
      }
      at[0] = sim::choose(uint32_t(p.files.size() + 1), "file-at");
      p.files.insert(p.files.begin() + long(at[0]), f[0]);
      at[1] = at[0] + 1 + sim::choose(uint32_t(p.files.size() - at[0]), "file-at");
      p.files.insert(p.files.begin() + long(at[1]), f[1]);
      for (int k = 0; k < 2; ++k) {
        auto& lines = p.files[at[k]].lines;
        for (size_t i = 0; i < lines.size(); ++i) {
          if (!lines[i].labels.empty() && lines[i].labels[0].name == "both") m.places.push_back({int(at[k]), int(i)});
        }
      }
      return m;
    }
    case 19: {  // values that need each other
      if (sim::flip(1, 3, "itself")) return block("circular value", {org(base), raw(".equ circ0 + 1", {"circ0"})}, {1});
      return block("circular value", {org(base), raw(".equ circ1 + 1", {"circ0"}), raw(".db 1"), raw(".equ circ0 * 2", {"circ1"})}, {1, 3});
    }
    case 20: {  // brackets
      int f = int(sim::choose(uint32_t(p.files.size()), "file"));
      auto g = gaps(p, f);
      int at = g[sim::choose(uint32_t(g.size()), "gap")];
      bool open = sim::flip(1, 2, "open");
      if (open) {
        // At the end, so that no name changes its scope.
        at = int(p.files[size_t(f)].lines.size());
        return insert("scope never closed", f, at, raw(rng.below(2) ? "{" : ".begin"));
      }
      return insert("scope closed twice", f, at, raw(rng.below(2) ? "}" : ".end"));
    }
    default: {  // running out of the file
      int f = int(sim::choose(uint32_t(p.files.size()), "file"));
      auto& lines = p.files[size_t(f)].lines;
      Mistake m;
      m.what = "running past the end of the file";
      lines.push_back(org(base));
      lines.push_back(raw(entry));
      lines.push_back(raw("nop"));
      m.places = {{f, int(lines.size()) - 1}};
      if (sim::flip(1, 3, "more")) {
        lines.push_back(raw(".equ 5", {"trailing"}));
        m.places.push_back({f, int(lines.size()) - 1});
      }
      return m;
    }
  }
}

SIM_SCENARIO(A06, one_mistake, 3) {
  Program p = strict_program(3, true);
  if (!broken_rule(p).empty()) return;
  Mistake mistake = make_mistake(p);
  if (mistake.places.empty()) {
    SIM_PROBE("no place for the mistake");
    return;
  }
  auto g = sim::data_rng("spelling");
  std::vector<Text> texts;
  std::vector<asmgen::TextLines> lines(p.files.size());
  for (size_t f = 0; f < p.files.size(); ++f) {
    sim::Rng h(g.next());
    texts.push_back({p.files[f].path, asmgen::render(p.files[f], h, &lines[f])});
  }
  auto o = assemble_somehow(texts);
  sim::nontrivial();
  sim::evaluated();
  std::string first = where(Meaning(p), mistake.places[0]);
  if (o.ok) {
    sim::violation("A06.wrong-accepted", "accepted in spite of: %s, %s", mistake.what, first.c_str());
  }
  for (auto& r : mistake.places) {
    auto span = lines[size_t(r.file)][size_t(r.line)];
    for (int n = span.first; n <= span.second; ++n) {
      std::string prefix = p.files[size_t(r.file)].path + ":" + std::to_string(n) + ":";
      if (o.error.compare(0, prefix.size(), prefix) == 0) {
        SIM_PROBE("mistake located");
        return;
      }
    }
  }
  auto span = lines[size_t(mistake.places[0].file)][size_t(mistake.places[0].line)];
  sim::violation("A06.not-located", "%s, %s in %s:%d: the error is `%s'", mistake.what, first.c_str(),
                 p.files[size_t(mistake.places[0].file)].path.c_str(), span.second, o.error.c_str());
}

}  // namespace
