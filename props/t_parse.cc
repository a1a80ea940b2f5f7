// T04: interactive_parse on simulated standard input and output.
#include <errno.h>
#include <stdio.h>
#include <string.h>

#include <cctype>
#include <functional>
#include <iostream>
#include <streambuf>
#include <string>
#include <vector>

#include "asmgen.h"
#include "cpu.h"
#include "malformed.h"
#include "sim/fs.h"
#include "sim/sim.h"

extern "C" int interactive_parse_main(int argc, char** argv);

namespace {

// A terminal, as std::cin and std::cout, stdin and stdout, and descriptors 0 to 2
// see it.  What the user types arrives in pieces; it ends or fails at some point.
class Terminal {
 public:
  Terminal(std::string in, std::vector<size_t> pieces, bool fail)
      : in_(std::move(in)), pieces_(std::move(pieces)), fail_(fail) {}
  bool asked_too_early = false;
  std::string shown;
  size_t unflushed = 0;  // written to std::cout, which may hold it back
  FILE* out = nullptr;

  // Waits for input: the number of bytes, 0 at the end, -1 for an error.
  ssize_t take(char* b, size_t room) {
    ++waits_;
    if (out) fflush(out);  // what a read from a terminal does
    if (unflushed) asked_too_early = true;
    if (at_ >= in_.size()) {
      if (!fail_) return 0;
      SIM_FAULT("terminal:read-error");
      errno = EIO;
      return -1;
    }
    size_t n = pieces_.empty() ? in_.size() : pieces_[waits_ % pieces_.size()];
    n = std::min({std::max<size_t>(n, 1), in_.size() - at_, room});
    if (at_ + n < in_.size() && in_[at_ + n - 1] != '\n') SIM_FAULT("terminal:partial-line");
    memcpy(b, &in_[at_], n);
    at_ += n;
    return ssize_t(n);
  }

 private:
  std::string in_;
  std::vector<size_t> pieces_;
  bool fail_;
  size_t waits_ = 0, at_ = 0;
};

class Keyboard : public std::streambuf {
 public:
  explicit Keyboard(Terminal* t) : t_(t) {}

 protected:
  int_type underflow() override {
    ssize_t n = t_->take(buf_, sizeof buf_);
    if (n < 0) throw std::ios_base::failure("read error");
    if (n == 0) return traits_type::eof();
    setg(buf_, buf_, buf_ + n);
    return traits_type::to_int_type(*gptr());
  }

 private:
  Terminal* t_;
  char buf_[4096];
};

class Screen : public std::streambuf {
 public:
  explicit Screen(Terminal* t) : t_(t) {}

 protected:
  int_type overflow(int_type c) override {
    char b = char(c);
    if (c != traits_type::eof()) xsputn(&b, 1);
    return c;
  }
  std::streamsize xsputn(const char* s, std::streamsize n) override {
    fflush(t_->out);
    t_->shown.append(s, size_t(n));
    t_->unflushed += size_t(n);
    return n;
  }
  int sync() override {
    fflush(t_->out);
    t_->unflushed = 0;
    return 0;
  }

 private:
  Terminal* t_;
};

ssize_t file_read(void* t, char* b, size_t n) { return static_cast<Terminal*>(t)->take(b, n); }
ssize_t file_write(void* t, const char* b, size_t n) {
  static_cast<Terminal*>(t)->shown.append(b, n);
  return ssize_t(n);
}

struct Talk {
  std::string shown;
  int code = 0;
  bool hidden = false;  // waited for input with unshown output
};

Talk talk(const std::string& input, const std::vector<size_t>& pieces, bool fail) {
  Terminal term(input, pieces, fail);
  Screen screen(&term);
  Keyboard keyboard(&term);
  FILE *was_in = stdin, *was_out = stdout;
  stdin = fopencookie(&term, "r", {file_read, nullptr, nullptr, nullptr});
  stdout = term.out = fopencookie(&term, "w", {nullptr, file_write, nullptr, nullptr});
  setvbuf(stdin, nullptr, _IOLBF, 0);
  setvbuf(stdout, nullptr, _IOLBF, 0);
  sim::fs::set_terminal([&](char* b, size_t n) { return term.take(b, n); },
                        [&](const char* b, size_t n) { return file_write(&term, b, n); });
  auto* in = std::cin.rdbuf(&keyboard);
  auto* out = std::cout.rdbuf(&screen);
  std::cin.clear();
  std::cout.clear();
  char name[] = "interactive_parse";
  char* argv[] = {name, nullptr};
  Talk t;
  auto r = sim::run_sut("interactive_parse", [&] { t.code = interactive_parse_main(1, argv); },
                        2'000'000 + 20'000 * input.size());
  if (r.end == sim::End::kExited) t.code = r.exit_code;
  std::cin.rdbuf(in);
  std::cout.rdbuf(out);
  std::cin.clear();
  sim::fs::set_terminal(nullptr, nullptr);
  fclose(stdout);
  fclose(stdin);
  stdin = was_in;
  stdout = was_out;
  t.shown = term.shown;
  t.hidden = term.asked_too_early;
  sim::log("talked: %zu bytes in, %zu out, hash %016llx, exit %d", input.size(), t.shown.size(),
           static_cast<unsigned long long>(sim::hash_bytes(t.shown.data(), t.shown.size())), t.code);
  return t;
}

bool ends_with(const std::string& s, const char* t) {
  std::string e = t;
  return s.size() >= e.size() && s.compare(s.size() - e.size(), e.size(), e) == 0;
}

// The answer to a line, given alone.
std::string answer(const std::string& line) {
  Talk t = talk(line + "\n", {}, false);
  if (t.code) sim::violation("T04.exit", "exit code %d after `%s'", t.code, line.c_str());
  if (t.shown.compare(0, 2, "> ") != 0) {
    sim::violation("T04.prompt", "the session for `%s' is `%s'", line.c_str(), t.shown.c_str());
  }
  std::string a = t.shown.substr(2);
  if (a == "> " || ends_with(a, "\n> ")) a.resize(a.size() - 2);  // for the line that never comes
  if (!a.empty() && a.back() != '\n') sim::violation("T04.prompt", "the answer to `%s' is `%s'", line.c_str(), a.c_str());
  return a;
}

// The lines of an answer; directives in lower case.
std::vector<std::string> split(const std::string& s) {
  std::vector<std::string> v;
  size_t b = 0;
  while (b < s.size()) {
    size_t e = s.find('\n', b);
    v.push_back(s.substr(b, e - b));
    auto& l = v.back();
    if (l.compare(0, 5, "    .") == 0) {
      for (size_t i = 5; i < l.size() && isalpha(l[i]); ++i) l[i] = char(tolower(l[i]));
    }
    b = e + 1;
  }
  return v;
}

// ---- lines that are right -----------------------------------------------------
std::string some_name(sim::Rng& g) {
  static const char* stems[] = {"loop", "Main_1", "_x", "data", "aa", "xs", "ldax", "fn", "org", "db", "b", "w", "nativ", "m8", "yield",
                                "exports", "Z", "entry", "label_with_a_long_name", "e0", "d12", "begin"};
  return stems[g.below(22)] + (g.below(3) ? "" : std::to_string(g.below(100)));
}

struct Num {
  std::string typed, shown;
};

Num hex_num(int size, sim::Rng& g) {
  uint32_t v = uint32_t(g.next());
  char b[40];
  Num n;
  if (g.below(3) == 0) v = g.below(3) ? g.below(3) : ~0u;
  v &= size == 1 ? 0xffu : size == 2 ? 0xffffu : 0xffffffu;
  int digits = size * 2 - int(g.below(2));
  if (digits == 2 * size - 1) v &= (1u << (4 * digits)) - 1;
  snprintf(b, sizeof b, size == 1 ? "$%02x" : size == 2 ? "$%04x" : "$%06x", v);
  n.shown = b;
  if (g.below(8) == 0) {
    int bits = size * 8 - int(g.below(7));
    v &= bits == 32 ? ~0u : (1u << bits) - 1;
    snprintf(b, sizeof b, size == 1 ? "$%02x" : size == 2 ? "$%04x" : "$%06x", v);
    n.shown = b;
    n.typed = "%";
    for (int i = bits - 1; i >= 0; --i) n.typed += char('0' + (v >> i & 1));
    return n;
  }
  snprintf(b, sizeof b, g.below(2) ? "%s%0*x" : "%s%0*X", g.below(5) ? "$" : g.below(2) ? "0x" : "0X", digits, v);
  n.typed = b;
  return n;
}

Num decimal(uint32_t bound, sim::Rng& g) {
  uint32_t v = g.below(4) ? g.below(bound) : g.below(2) ? bound - 1 : 0;
  std::string s = std::to_string(v);
  return {(g.below(6) ? "" : "0") + s, s};
}

Num symbol(bool at, sim::Rng& g) {
  std::string s = at ? "@" : "";
  switch (g.below(4)) {
    case 0: s += some_name(g) + "::" + some_name(g); break;
    case 1: s += "::" + some_name(g); break;
    default: s += some_name(g);
  }
  return {s, s};
}

// An operand of this many bytes; 0: any size will do.
Num operand(int size, uint32_t decimal_bound, sim::Rng& g) {
  if (!size) size = 1 + int(g.below(3)), decimal_bound = 1u << 30;
  if (decimal_bound && g.below(3) == 0) return decimal(decimal_bound, g);
  if (size > 1 && g.below(3) == 0) return symbol(size == 3, g);
  return hex_num(size, g);
}

// Spaces where they may be.
std::string gap(sim::Rng& g) {
  static const char* s[] = {"", "", " ", "  ", "\t", " \t "};
  return s[g.below(6)];
}

std::string cased(std::string s, sim::Rng& g) { return asmgen::cased(std::move(s), g); }

std::string mode_name(sim::Rng& g) {
  static const char* s[] = {"unk", "emu", "native", "m8", "m16", "x8", "x16", "m8x8", "m8x16", "m16x8", "m16x16"};
  return s[g.below(11)];
}

Num convention(sim::Rng& g) {
  if (g.below(2)) return {};
  if (g.below(3) == 0) return {" " + cased("noreturn", g), " noreturn"};
  std::string m = mode_name(g);
  return {" " + cased("yields", g) + " " + cased(m, g), " yields " + m};
}

Num instruction(sim::Rng& g) {
  auto op = cpu::opcodes()[g.below(256)];
  std::string name = op.name, shown = name;
  if (name == "adc" && g.below(3) == 0) name = shown = "add";
  if (name == "sbc" && g.below(3) == 0) name = shown = "sub";
  static const std::string sized = " adc add and asl bit cmp cpx cpy dec eor inc lda ldx ldy lsr ora rol ror sbc sta stx sty stz sub trb tsb ";
  std::string typed = cased(name, g);
  if (sized.find(" " + shown + " ") != std::string::npos && g.below(3) == 0) {
    std::string s = g.below(2) ? ".b" : ".w";
    shown += s;
    typed += gap(g) + cased(s, g);
  }
  Num a, b;
  auto y = [&](const char* r) { return gap(g) + "," + gap(g) + cased(r, g); };
  auto set = [&](const std::string& t, const std::string& s) {
    typed += (isalnum(t[0]) || t[0] == '_' ? " " : gap(g)) + t;
    shown += " " + s;
  };
  switch (op.mode) {
    case cpu::kImp: case cpu::kModes: break;
    case cpu::kAcc:
      if (g.below(2)) typed += " " + cased("a", g);
      break;
    case cpu::kImm8: a = operand(1, 256, g); set("#" + gap(g) + a.typed, "#" + a.shown); break;
    case cpu::kImmM: case cpu::kImmX: a = operand(0, 0, g); set("#" + gap(g) + a.typed, "#" + a.shown); break;
    case cpu::kImm16: a = operand(2, 65536, g); set("#" + gap(g) + a.typed, "#" + a.shown); break;
    case cpu::kDp: a = operand(1, 0, g); set(a.typed, a.shown); break;
    case cpu::kAbs: a = operand(2, 0, g); set(a.typed, a.shown); break;
    case cpu::kLong: a = operand(3, 0, g); set(a.typed, a.shown); break;
    case cpu::kDpX: a = operand(1, 0, g); set(a.typed + y("x"), a.shown + ", X"); break;
    case cpu::kAbsX: a = operand(2, 0, g); set(a.typed + y("x"), a.shown + ", X"); break;
    case cpu::kLongX: a = operand(3, 0, g); set(a.typed + y("x"), a.shown + ", X"); break;
    case cpu::kDpY: a = operand(1, 0, g); set(a.typed + y("y"), a.shown + ", Y"); break;
    case cpu::kAbsY: a = operand(2, 0, g); set(a.typed + y("y"), a.shown + ", Y"); break;
    case cpu::kInd: a = operand(1, 0, g); set("(" + gap(g) + a.typed + gap(g) + ")", "(" + a.shown + ")"); break;
    case cpu::kAbsInd: a = operand(2, 0, g); set("(" + gap(g) + a.typed + gap(g) + ")", "(" + a.shown + ")"); break;
    case cpu::kIndX: a = operand(1, 0, g); set("(" + a.typed + y("x") + gap(g) + ")", "(" + a.shown + ", X)"); break;
    case cpu::kAbsIndX: a = operand(2, 0, g); set("(" + a.typed + y("x") + gap(g) + ")", "(" + a.shown + ", X)"); break;
    case cpu::kIndY: a = operand(1, 0, g); set("(" + a.typed + gap(g) + ")" + y("y"), "(" + a.shown + "), Y"); break;
    case cpu::kIndL: a = operand(1, 0, g); set("[" + gap(g) + a.typed + gap(g) + "]", "[" + a.shown + "]"); break;
    case cpu::kAbsIndL: a = operand(2, 0, g); set("[" + gap(g) + a.typed + gap(g) + "]", "[" + a.shown + "]"); break;
    case cpu::kIndLY: a = operand(1, 0, g); set("[" + a.typed + gap(g) + "]" + y("y"), "[" + a.shown + "], Y"); break;
    case cpu::kSr: a = operand(1, 256, g); set(a.typed + y("s"), a.shown + ", S"); break;
    case cpu::kSrIY: a = operand(1, 256, g); set("(" + a.typed + y("s") + gap(g) + ")" + y("y"), "(" + a.shown + ", S), Y"); break;
    case cpu::kRel8: case cpu::kRel16: a.typed = some_name(g); set(a.typed, a.typed); break;
    case cpu::kMove:
      a = operand(1, 256, g);
      b = operand(1, 256, g);
      set("#" + a.typed + gap(g) + "," + gap(g) + "#" + b.typed, "#" + a.shown + ", #" + b.shown);
      break;
  }
  if (name == "jsr" || name == "jsl") {
    Num c = convention(g);
    typed += c.typed;
    shown += c.shown;
  }
  return {typed, shown};
}

// Something said with operators.
std::string computed_expr(int depth, bool outer, sim::Rng& g, std::vector<std::string>* parts) {
  if (depth == 0 || (!outer && g.below(3) == 0)) {
    Num n = g.below(2) ? operand(0, 0, g) : decimal(1000, g);
    parts->push_back(n.shown);
    return n.typed;
  }
  if (g.below(3) == 0) {
    static const char* u[] = {"-", "<", ">", "^"};
    std::string o = u[g.below(4)];
    return o + " (" + computed_expr(depth - 1, true, g, parts) + gap(g) + ")";
  }
  static const char* b[] = {" + ", " - ", " * ", "/", " /", "+ ", "*", " -  "};
  std::string l = computed_expr(depth - 1, false, g, parts);
  std::string r = computed_expr(depth - 1, false, g, parts);
  if (g.below(2)) return "(" + l + ")" + b[g.below(8)] + "(" + r + ")";
  return l + b[g.below(8)] + r;
}

Num directive(sim::Rng& g) {
  auto with = [&](const char* d, const std::string& t, const std::string& s) -> Num {
    return {cased(d, g) + " " + gap(g) + t, std::string(d) + " " + s};
  };
  switch (g.below(12)) {
    case 0: return {g.below(2) ? "{" : cased(".begin", g), ".begin"};
    case 1: return {g.below(2) ? "}" : cased(".end", g), ".end"};
    case 2: case 3: {
      static const char* d[] = {".db", ".dw", ".dl"};
      std::string t, s;
      for (int i = int(1 + g.below(g.below(8) ? 6 : 60)); i; --i) {
        Num n = g.below(2) ? operand(0, 0, g) : decimal(256, g);
        t += n.typed + (i > 1 ? gap(g) + "," + gap(g) : "");
        s += n.shown + (i > 1 ? ", " : "");
      }
      return with(d[g.below(3)], t, s);
    }
    case 4: case 5: {
      std::string m = mode_name(g);
      Num c = convention(g);
      return with(".entry", cased(m, g) + c.typed, m + c.shown);
    }
    case 6: {
      Num n = operand(0, 0, g);
      return with(".equ", n.typed, n.shown);
    }
    case 7: return {cased(".halt", g), ".halt"};
    case 8: {
      std::string m = mode_name(g);
      return with(".mode", cased(m, g), m);
    }
    case 9: {
      std::string n = some_name(g);
      return with(".module", n, n);
    }
    case 10: {
      Num n = g.below(2) ? hex_num(3, g) : decimal(1u << 24, g);
      return with(".org", n.typed, n.shown);
    }
    default: {
      Num n = operand(0, 0, g);
      std::string m = mode_name(g);
      Num c = convention(g);
      return with(".remote", n.typed + " " + cased(m, g) + c.typed, n.shown + " " + m + c.shown);
    }
  }
}

struct Typed {
  std::string text;
  enum { kRight, kWrong, kBlank, kComputed, kNoise } kind = kRight;
  std::vector<std::string> answer;  // kRight
  std::string begins;               // kComputed
  std::vector<std::string> parts;
};

Typed right_line(sim::Rng& g) {
  Typed t;
  t.text = gap(g);
  auto label = [&](bool last) {
    std::string n = some_name(g);
    bool exported = g.below(4) == 0;
    t.text += (exported ? cased("export", g) + " " : "") + n;
    bool colon = !last || g.below(2);
    t.text += colon ? gap(g) + ":" + gap(g) : " ";
    t.answer.push_back((exported ? "export " : "") + n + ":");
  };
  int statements = 1 + int(g.below(4) ? 0 : g.below(4));
  for (int i = 0; i < statements; ++i) {
    int labels = g.below(2) ? 0 : int(1 + g.below(3));
    for (int k = 0; k < labels; ++k) label(k + 1 == labels);
    if (labels && g.below(6) == 0) {
      if (i + 1 < statements && t.text.back() != ':' && t.text.find_last_not_of(" \t") != std::string::npos &&
          t.text[t.text.find_last_not_of(" \t")] != ':') {
        t.text += ":";
      }
      continue;
    }
    Num s = g.below(3) ? instruction(g) : directive(g);
    t.text += s.typed;
    t.answer.push_back("    " + s.shown);
    if (i + 1 < statements) t.text += " : ";
  }
  t.text += gap(g);
  if (g.below(6) == 0) t.text += g.below(2) ? ";" : "; nop : .org (";
  return t;
}

Typed computed_line(sim::Rng& g) {
  static const char* heads[] = {".equ ", ".db ", ".dw ", "lda #", "ldx #", "cmp #", "add #"};
  Typed t;
  t.kind = Typed::kComputed;
  std::string h = heads[g.below(7)];
  t.begins = "    " + h;
  t.text = cased(h, g) + computed_expr(1 + int(g.below(4)), true, g, &t.parts);
  return t;
}

Typed noise(sim::Rng& g) {
  Typed t;
  t.kind = Typed::kNoise;
  static const char* words[] = {"lda", "sta", "jsr", "#", "$12", "$1234", "$123456", "(", ")", "[", "]", ",", ":", "::", "@", "x", "y", "s", "a",
                                "+", "-", "*", "/", "<", ">", "^", "++", "---", "{", "}", ".db", ".org", ".entry", ".remote", "m8", "export",
                                "yields", "noreturn", "fn", "q", "nop", "rep", "mvn", "5", "%101", ";", ".w", ".b", "\r", "\v"};
  for (int i = int(g.below(14)); i >= 0; --i) {
    if (g.below(10) == 0) {
      char c = char(g.below(256));
      if (c != '\n') t.text += c;
    } else {
      t.text += words[g.below(50)];
      t.text += g.below(4) ? " " : "";
    }
  }
  if (g.below(30) == 0) {
    static const char* again[] = {"(", "-", "1+", "q:", "{", "nop:", "1,", "$ffff", "z"};
    std::string w = again[g.below(9)];
    for (int n = int(g.below(1500)); n; --n) t.text += w;
  }
  return t;
}

Typed a_line(sim::Rng& g) {
  uint32_t k = g.below(16);
  if (k < 8) return right_line(g);
  if (k < 10) return computed_line(g);
  if (k < 12) return noise(g);
  Typed t;
  if (k < 13) {
    t.kind = Typed::kBlank;
    static const char* blank[] = {"", " ", "\t", ";", "  ; lda ?", ":", " : : ", "\r", ": ; x"};
    t.text = blank[g.below(9)];
    return t;
  }
  t.kind = Typed::kWrong;
  auto& m = asmgen::malformed();
  std::string w;
  do {
    w = m[g.below(uint32_t(m.size()))];
  } while (w == "bra @fn");  // refused when assembled
  switch (g.below(4)) {
    case 0: t.text = "nop : " + w; break;
    case 1: t.text = some_name(g) + ": " + w; break;
    default: t.text = w;
  }
  return t;
}

void check_answer(const Typed& t, const std::string& a) {
  auto lines = split(a);
  sim::evaluated();
  switch (t.kind) {
    case Typed::kRight: {
      SIM_PROBE("well-formed line");
      if (lines != t.answer) {
        std::string want;
        for (auto& l : t.answer) want += l + "\n";
        sim::violation("T04.answer", "`%s' is answered\n%sinstead of\n%s", t.text.c_str(), a.c_str(), want.c_str());
      }
      // What is shown means the same when it is entered.
      for (auto& l : lines) {
        std::string again = answer(l);
        if (split(again) != std::vector<std::string>{l}) sim::violation("T04.again", "`%s', shown for `%s', is answered `%s'", l.c_str(), t.text.c_str(), again.c_str());
      }
      break;
    }
    case Typed::kComputed: {
      SIM_PROBE("line with operators");
      if (lines.size() != 1 || lines[0].compare(0, t.begins.size(), t.begins) != 0) {
        sim::violation("T04.answer", "`%s' is answered `%s'", t.text.c_str(), a.c_str());
      }
      size_t at = t.begins.size();
      for (auto& p : t.parts) {
        size_t k = lines[0].find(p, at);
        if (k == std::string::npos) {
          sim::violation("T04.answer", "`%s' is answered `%s', without `%s' in its place", t.text.c_str(), a.c_str(), p.c_str());
        }
        at = k + p.size();
      }
      break;
    }
    case Typed::kBlank:
      if (!a.empty()) sim::violation("T04.answer", "an empty line is answered `%s'", a.c_str());
      break;
    case Typed::kWrong:
      SIM_PROBE("malformed line");
      if (lines.size() != 1 || lines[0].empty() || lines[0].compare(0, 4, "    ") == 0 || lines[0].back() == ':') {
        sim::violation("T04.diagnostic", "`%s' is answered `%s'", t.text.c_str(), a.c_str());
      }
      break;
    default:
      SIM_PROBE("arbitrary line");
  }
}

SIM_SCENARIO(T04, session, 1) {
  sim::set_hash_salt(sim::choose(4, "hash-salt"));
  int n = 1 + sim::size_class() * (1 + int(sim::choose(3, "length")));
  std::vector<Typed> lines;
  std::string input;
  for (int i = 0; i < n; ++i) {
    auto g = sim::data_rng("line");
    lines.push_back(a_line(g));
    input += lines.back().text + "\n";
  }
  // The whole conversation: input comes as it comes and ends where it ends.
  size_t end = input.size();
  if (sim::flip(1, 3, "cut")) end = sim::choose(uint32_t(input.size() + 1), "end-of-input");
  bool fail = sim::flip(1, 4, "read-error");
  std::vector<size_t> pieces;
  if (sim::flip(1, 2, "pieces")) {
    for (int i = sim::range(1, 8, "pieces"); i; --i) pieces.push_back(1 + sim::choose(40, "piece"));
  }
  input.resize(end);
  Talk t = talk(input, pieces, fail);
  sim::nontrivial();
  if (t.code) sim::violation("T04.exit", "exit code %d at the end of input", t.code);
  if (t.hidden) sim::violation("T04.unshown", "waits for a line before showing its answers");

  // Each line is answered as if it were the only one.
  std::string want;
  size_t at = 0;
  int k = 0;
  while (at < input.size()) {
    size_t e = input.find('\n', at);
    bool whole = e != std::string::npos;
    std::string line = input.substr(at, whole ? e - at : std::string::npos);
    std::string a = answer(line);
    if (whole) check_answer(lines[size_t(k)], a);
    if (!whole) SIM_FAULT("terminal:input-ends-within-line");
    want += "> " + a;
    at = whole ? e + 1 : input.size();
    ++k;
  }
  sim::evaluated();
  // A last prompt is for the line that never comes.
  if (t.shown != want + "> " && t.shown != want) {
    size_t d = 0;
    while (d < t.shown.size() && d < want.size() && t.shown[d] == want[d]) ++d;
    sim::violation("T04.history", "in a session of %d lines the answers differ from those given to each line alone, from `%s' instead of `%s'", k,
                   t.shown.substr(d, 80).c_str(), want.substr(d, 80).c_str());
  }
  if (fail) SIM_PROBE("input ended by a read error");
  if (sim::flip(1, 8, "heap")) sim::check_heap();
}

}  // namespace
