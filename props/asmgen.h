// Source programs: an abstract form, a generator, a renderer, and what the
// source means (scopes, values, layout), independent of nsasm.
#ifndef VERIF_ASMGEN_H
#define VERIF_ASMGEN_H

#include <algorithm>
#include <cstdint>
#include <map>
#include <optional>
#include <set>
#include <string>
#include <vector>

#include "cpu.h"
#include "sim/sim.h"

namespace asmgen {

using cpu::Flags;
using cpu::Mode;

// ---- expressions -------------------------------------------------------------
enum Size { kAny, kByte, kWord, kLong };

struct Expr {
  enum Kind { kNum, kName, kUn, kBin } kind = kNum;
  int32_t value = 0;
  int digits = 0;  // > 0: hex, that many digits; 0: decimal
  bool qualified = false, at = false;
  std::string module, name;
  char op = 0;
  std::vector<Expr> k;
};

inline Size size_of(const Expr& e) {
  switch (e.kind) {
    case Expr::kNum: return e.digits == 0 ? kAny : e.digits <= 2 ? kByte : e.digits <= 4 ? kWord : kLong;
    case Expr::kName: return e.at ? kLong : kWord;
    case Expr::kUn: return e.op == '-' ? size_of(e.k[0]) : kByte;
    default: return std::max(size_of(e.k[0]), size_of(e.k[1]));
  }
}

template <typename Lookup>
std::optional<int32_t> eval(const Expr& e, Lookup&& lookup) {
  switch (e.kind) {
    case Expr::kNum: return e.value;
    case Expr::kName: return lookup(e);
    case Expr::kUn: {
      auto v = eval(e.k[0], lookup);
      if (!v) return {};
      uint32_t u = uint32_t(*v);
      switch (e.op) {
        case '-': return int32_t(0u - u);
        case '<': return int32_t(u & 0xff);
        case '>': return int32_t((u >> 8) & 0xff);
        default: return int32_t((u >> 16) & 0xff);
      }
    }
    default: {
      auto a = eval(e.k[0], lookup), b = eval(e.k[1], lookup);
      if (!a || !b) return {};
      uint32_t x = uint32_t(*a), y = uint32_t(*b);
      switch (e.op) {
        case '+': return int32_t(x + y);
        case '-': return int32_t(x - y);
        case '*': return int32_t(x * y);
        default:
          if (!y) return {};
          if (*a == INT32_MIN && *b == -1) return INT32_MIN;
          return *a / *b;
      }
    }
  }
}

inline bool constant(const Expr& e) {
  if (e.kind == Expr::kName) return false;
  for (auto& c : e.k) {
    if (!constant(c)) return false;
  }
  return true;
}

inline Expr num(int32_t v, int digits) {
  Expr e;
  e.value = v;
  e.digits = digits;
  return e;
}
inline Expr name(const std::string& n) {
  Expr e;
  e.kind = Expr::kName;
  e.name = n;
  return e;
}
inline Expr un(char op, Expr a) {
  Expr e;
  e.kind = Expr::kUn;
  e.op = op;
  e.k.push_back(std::move(a));
  return e;
}
inline Expr bin(char op, Expr a, Expr b) {
  Expr e;
  e.kind = Expr::kBin;
  e.op = op;
  e.k.push_back(std::move(a));
  e.k.push_back(std::move(b));
  return e;
}

inline int prec(const Expr& e) {
  if (e.kind == Expr::kBin) return e.op == '+' || e.op == '-' ? 1 : 2;
  return e.kind == Expr::kUn ? 3 : 4;
}

inline std::string text(const Expr& e, sim::Rng& g) {
  char b[40];
  switch (e.kind) {
    case Expr::kNum: {
      if (e.digits == 0) {
        snprintf(b, sizeof b, "%d", e.value);
        return b;
      }
      if (e.digits == 2 && g.below(8) == 0) {
        std::string s = "%";
        for (int i = 7; i >= 0; --i) s += char('0' + (e.value >> i & 1));
        return s;
      }
      snprintf(b, sizeof b, g.below(2) ? "%s%0*x" : "%s%0*X", g.below(6) ? "$" : "0x", e.digits,
               unsigned(e.value));
      return b;
    }
    case Expr::kName:
      return (e.at ? "@" : "") + (e.qualified ? e.module + "::" : "") + e.name;
    case Expr::kUn: {
      std::string a = text(e.k[0], g);
      if (prec(e.k[0]) < 3 || a[0] == e.op) a = "(" + a + ")";
      return e.op + a;
    }
    default: {
      std::string a = text(e.k[0], g), c = text(e.k[1], g);
      if (prec(e.k[0]) < prec(e)) a = "(" + a + ")";
      if (prec(e.k[1]) <= prec(e)) c = "(" + c + ")";
      bool tight = g.below(3) == 0 && c[0] != e.op;
      return a + (tight ? "" : " ") + e.op + (tight ? "" : " ") + c;
    }
  }
}

// ---- programs ------------------------------------------------------------------
enum Kind { kInstr, kOrg, kEntry, kEqu, kModule, kBegin, kEnd, kData, kHalt, kModeDir, kRemote };

struct LabelDef {
  std::string name;
  bool exported = false;
};

struct Line {
  Kind kind = kInstr;
  std::vector<LabelDef> labels;
  std::string op;           // lower case; "add" and "sub" too
  Mode mode = cpu::kImp;
  char suffix = 0;
  Expr a, b;
  Flags flags;              // entry, mode, remote
  int ret = 0;              // 1 yields, 2 noreturn
  Flags ret_flags;
  int unit = 1;
  std::vector<Expr> list;
  int want_m = -1, want_x = -1;  // widths the generator had in mind
  std::string raw;               // the statement's text, if not made from the above
};

struct File {
  std::string path, module;
  std::vector<Line> lines;
};

struct Program {
  std::vector<File> files;
};

inline Flags flags_of(const char* n) {
  std::string s = n;
  Flags f;
  if (s == "unk") return f;
  if (s == "emu") return {1, 1, 1};
  f.e = 0;
  if (s.find("m8") != std::string::npos) f.m = 1;
  if (s.find("m16") != std::string::npos) f.m = 0;
  if (s.find("x8") != std::string::npos) f.x = 1;
  if (s.find("x16") != std::string::npos) f.x = 0;
  return f;
}
inline std::string flags_name(const Flags& f) {
  if (f.e < 0) return "unk";
  if (f.e == 1) return "emu";
  std::string s;
  if (f.m >= 0) s += f.m ? "m8" : "m16";
  if (f.x >= 0) s += f.x ? "x8" : "x16";
  return s.empty() ? "native" : s;
}

inline std::string cased(std::string s, sim::Rng& g) {
  uint32_t r = g.below(4);
  for (auto& c : s) {
    if (r == 0 || (r == 1 && g.below(2))) c = char(toupper(c));
  }
  return s;
}

inline std::string operand_text(const Line& l, sim::Rng& g) {
  auto a = [&] { return text(l.a, g); };
  switch (l.mode) {
    case cpu::kImp: return "";
    case cpu::kAcc: return g.below(2) ? " A" : "";
    case cpu::kImm8: case cpu::kImmM: case cpu::kImmX: case cpu::kImm16: return " #" + a();
    case cpu::kDp: case cpu::kAbs: case cpu::kLong: case cpu::kRel8: case cpu::kRel16: return " " + a();
    case cpu::kDpX: case cpu::kAbsX: case cpu::kLongX: return " " + a() + (g.below(2) ? ",X" : ", x");
    case cpu::kDpY: case cpu::kAbsY: return " " + a() + (g.below(2) ? ",y" : ", Y");
    case cpu::kInd: case cpu::kAbsInd: return " (" + a() + ")";
    case cpu::kIndX: case cpu::kAbsIndX: return " (" + a() + ", X)";
    case cpu::kIndY: return " (" + a() + "), Y";
    case cpu::kIndL: case cpu::kAbsIndL: return " [" + a() + "]";
    case cpu::kIndLY: return " [" + a() + "], Y";
    case cpu::kSr: return " " + a() + ", S";
    case cpu::kSrIY: return " (" + a() + ", S), Y";
    default: return " #" + a() + ", #" + text(l.b, g);
  }
}

inline std::string statement_text(const Line& l, sim::Rng& g) {
  auto ret = [&]() -> std::string {
    if (l.ret == 1) return " yields " + flags_name(l.ret_flags);
    return l.ret == 2 ? " noreturn" : "";
  };
  if (!l.raw.empty()) return l.raw;
  switch (l.kind) {
    case kInstr: {
      std::string s = cased(l.op, g);
      if (l.suffix) s += std::string(".") + l.suffix;
      return s + operand_text(l, g) + ret();
    }
    case kOrg: return cased(".org", g) + " " + text(l.a, g);
    case kEntry: return cased(".entry", g) + " " + cased(flags_name(l.flags), g) + ret();
    case kEqu: return cased(".equ", g) + " " + text(l.a, g);
    case kModule: return ".module " + l.op;
    case kBegin: return g.below(2) ? ".begin" : "{";
    case kEnd: return g.below(2) ? ".end" : "}";
    case kHalt: return cased(".halt", g);
    case kModeDir: return ".mode " + flags_name(l.flags);
    case kRemote: return ".remote " + text(l.a, g) + " " + flags_name(l.flags) + ret();
    default: {
      std::string s = cased(l.unit == 1 ? ".db" : l.unit == 2 ? ".dw" : ".dl", g);
      for (size_t i = 0; i < l.list.size(); ++i) s += (i ? ", " : " ") + text(l.list[i], g);
      return s;
    }
  }
}

// Source text.  Spelling varies with `g`, meaning does not.
// `where`: for each statement the text lines of its first label and of itself.
using TextLines = std::vector<std::pair<int, int>>;
inline std::string render(const File& f, sim::Rng g, TextLines* where = nullptr) {
  std::string out;
  int at = 1;
  size_t counted = 0;
  auto text_line = [&] {
    for (; counted < out.size(); ++counted) at += out[counted] == '\n';
    return at;
  };
  bool open = false;  // a text line has been started
  auto newline = [&] {
    if (g.below(12) == 0) out += g.below(2) ? " ; lda #$12 : .org" : ";";
    out += "\n";
    if (g.below(10) == 0) out += g.below(2) ? "\n" : "   ; comment\n";
    open = false;
  };
  for (auto& l : f.lines) {
    if (open) {
      if (l.labels.empty() && g.below(6) == 0) {
        out += " : ";
      } else {
        newline();
      }
    }
    int first = text_line();
    for (size_t i = 0; i < l.labels.size(); ++i) {
      out += (l.labels[i].exported ? "export " : "") + l.labels[i].name;
      bool last = i + 1 == l.labels.size();
      if (!last || g.below(3)) out += ":";
      if (!last || g.below(3) == 0) {
        if (out.back() != ':' && !last) out += ":";
        out += "\n";
      } else {
        out += " ";
      }
    }
    if (l.labels.empty() && (out.empty() || out.back() == '\n')) out += g.below(3) ? "   " : "\t";
    if (where) where->push_back({first, text_line()});
    out += statement_text(l, g);
    open = true;
  }
  out += "\n";
  return out;
}

// ---- meaning ---------------------------------------------------------------------
struct Ref {
  int file = -1, line = -1;
  bool ok() const { return line >= 0; }
  bool operator<(const Ref& r) const { return file != r.file ? file < r.file : line < r.line; }
  bool operator==(const Ref& r) const { return file == r.file && line == r.line; }
};

struct Meaning {
  const Program* p = nullptr;
  std::vector<std::vector<std::vector<int>>> scopes;  // per file, line: lines of the enclosing .begin
  std::vector<std::map<std::string, int>> globals;    // per file
  std::map<std::pair<int, int>, std::map<std::string, int>> locals;
  std::map<std::pair<std::string, std::string>, Ref> exports;
  std::map<Ref, int> width;           // bits: 1 m8 seen, 2 m16 seen, 4 x8 seen, 8 x16 seen
  std::map<Ref, uint32_t> address;    // of every line after the first .org of its file
  std::map<Ref, std::optional<int32_t>> equ;
  std::set<Ref> busy;

  explicit Meaning(const Program& prog) : p(&prog) {
    for (size_t f = 0; f < prog.files.size(); ++f) {
      scopes.emplace_back();
      globals.emplace_back();
      std::vector<int> open;
      auto& lines = prog.files[f].lines;
      for (size_t i = 0; i < lines.size(); ++i) {
        scopes.back().push_back(open);
        for (auto& l : lines[i].labels) {
          if (open.empty() || l.exported) {
            globals[f].emplace(l.name, int(i));
            exports.emplace(std::make_pair(prog.files[f].module, l.name), Ref{int(f), int(i)});
          } else {
            locals[{int(f), open.back()}].emplace(l.name, int(i));
          }
        }
        if (lines[i].kind == kBegin) open.push_back(int(i));
        if (lines[i].kind == kEnd && !open.empty()) open.pop_back();
      }
    }
  }

  const Line& line(Ref r) const { return p->files[size_t(r.file)].lines[size_t(r.line)]; }

  // What a branch can go to: names of this file.
  Ref local(Ref at, const std::string& n) const {
    auto& sc = scopes[size_t(at.file)][size_t(at.line)];
    for (size_t k = sc.size(); k > 0; --k) {
      auto s = locals.find({at.file, sc[k - 1]});
      if (s == locals.end()) continue;
      auto it = s->second.find(n);
      if (it != s->second.end()) return {at.file, it->second};
    }
    auto it = globals[size_t(at.file)].find(n);
    if (it != globals[size_t(at.file)].end()) return {at.file, it->second};
    return {};
  }

  Ref find(Ref at, const Expr& e) const {
    if (!e.qualified) {
      Ref r = local(at, e.name);
      if (r.ok()) return r;
    } else if (e.module == p->files[size_t(at.file)].module) {
      auto it = globals[size_t(at.file)].find(e.name);
      if (it != globals[size_t(at.file)].end()) return {at.file, it->second};
    }
    auto it = exports.find({e.qualified ? e.module : "", e.name});
    return it == exports.end() ? Ref{} : it->second;
  }

  std::optional<int32_t> value_of(Ref r) {
    if (line(r).kind == kEqu) {
      auto it = equ.find(r);
      if (it != equ.end()) return it->second;
      if (!busy.insert(r).second) return {};
      auto v = evaluate(r, line(r).a);
      busy.erase(r);
      equ[r] = v;
      return v;
    }
    auto it = address.find(r);
    if (it == address.end()) return {};
    return int32_t(it->second);
  }

  std::optional<int32_t> evaluate(Ref at, const Expr& e) {
    return eval(e, [&](const Expr& n) -> std::optional<int32_t> {
      Ref r = find(at, n);
      if (!r.ok()) return {};
      return value_of(r);
    });
  }

  // Size in bytes, -1 if it depends on a width nobody has established.
  int size(Ref r) const {
    const Line& l = line(r);
    if (l.kind == kData) return l.unit * int(l.list.size());
    if (l.kind != kInstr) return 0;
    int extra = l.op == "add" || l.op == "sub" ? 2 : 1;
    if (l.mode == cpu::kImmM || l.mode == cpu::kImmX) {
      auto it = width.find(r);
      int w = it == width.end() ? 0 : it->second;
      if (l.mode == cpu::kImmX) w >>= 2;
      w &= 3;
      if (w == 0 || w == 3) return -1;
      return extra + (w == 1 ? 1 : 2);
    }
    return extra + cpu::operand_bytes(l.mode, true, true);
  }

  // Assigns addresses.  False if a size is unknown or something needs an
  // address before the first .org.
  bool layout() {
    address.clear();
    equ.clear();
    for (size_t f = 0; f < p->files.size(); ++f) {
      std::optional<uint32_t> pc;
      for (size_t i = 0; i < p->files[f].lines.size(); ++i) {
        Ref r{int(f), int(i)};
        const Line& l = line(r);
        if (l.kind == kOrg) {
          auto v = evaluate(r, l.a);
          if (!v || *v < 0 || *v > 0xffffff) return false;
          pc = uint32_t(*v);
        }
        int n = size(r);
        if (n < 0 || (n > 0 && !pc)) return false;
        if (pc) {
          address[r] = *pc;
          pc = cpu::wrap(*pc, n);
        }
      }
    }
    return true;
  }

  // The bytes of a statement, if its operands have values.
  std::optional<std::vector<uint8_t>> bytes(Ref r) {
    const Line& l = line(r);
    std::vector<uint8_t> v;
    auto put = [&](uint32_t x, int n) {
      for (int i = 0; i < n; ++i) v.push_back(uint8_t(x >> (8 * i)));
    };
    if (l.kind == kData) {
      for (auto& e : l.list) {
        auto x = evaluate(r, e);
        if (!x) return {};
        put(uint32_t(*x), l.unit);
      }
      return v;
    }
    if (l.kind != kInstr) return v;
    std::string op = l.op;
    if (op == "add" || op == "sub") {
      v.push_back(op == "add" ? 0x18 : 0x38);
      op = op == "add" ? "adc" : "sbc";
    }
    int code = -1;
    for (int i = 0; i < 256 && code < 0; ++i) {
      if (op == cpu::opcodes()[i].name && l.mode == cpu::opcodes()[i].mode) code = i;
    }
    if (code < 0) return {};
    v.push_back(uint8_t(code));
    int n = size(r) - int(v.size());
    if (n == 0) return v;
    auto x = evaluate(r, l.a);
    if (!x) return {};
    if (l.mode == cpu::kMove) {
      auto y = evaluate(r, l.b);
      if (!y) return {};
      put(uint32_t(*y), 1);
      put(uint32_t(*x), 1);
    } else if (l.mode == cpu::kRel8 || l.mode == cpu::kRel16) {
      uint32_t base = cpu::wrap(address[r], 1 + n);
      if ((uint32_t(*x) ^ base) & ~0xffffu) return {};
      int off = int16_t(uint32_t(*x) - base);
      if (n == 1 && (off < -128 || off > 127)) return {};
      put(uint32_t(off), n);
    } else {
      put(uint32_t(*x), n);
    }
    return v;
  }
};

// ---- generation -------------------------------------------------------------------
struct Options {
  int files = 1;
  int routines = 2;   // per file
  int body = 6;       // items per routine
  bool clean = true;  // meant to be accepted
  bool overlap = false;
  bool stack_games = false;    // TXS, TCS, PEA/PLP and the like
  bool no_pseudo = false;
  bool rom = false;            // place code where cartridges have ROM
  bool strict = false;         // obeys every rule: has to be accepted
};

class Generator {
 public:
  Generator(const Options& o, sim::Rng values) : o_(o), g_(values) {}

  Program make() {
    // Names first, so that everything can refer to everything.
    for (int f = 0; f < o_.files; ++f) {
      File file;
      file.path = "f" + std::to_string(f) + ".asm";
      if (sim::flip(1, 2, "module?")) file.module = "mod" + std::to_string(f);
      p_.files.push_back(file);
      routine_names_.emplace_back();
      data_names_.emplace_back();
      equ_names_.emplace_back();
      int nr = 1 + int(sim::choose(uint32_t(o_.routines), "routines"));
      for (int i = 0; i < nr; ++i) routine_names_[size_t(f)].push_back("fn" + std::to_string(uniq_++));
      int nd = int(sim::choose(3, "data-blocks"));
      for (int i = 0; i < nd; ++i) data_names_[size_t(f)].push_back("tab" + std::to_string(uniq_++));
      int ne = int(sim::choose(4, "equs"));
      for (int i = 0; i < ne; ++i) equ_names_[size_t(f)].push_back("val" + std::to_string(uniq_++));
    }
    for (int f = 0; f < o_.files; ++f) make_file(f);
    place();
    return p_;
  }

  // Where code and data went: start, upper bound of the size.
  std::vector<std::pair<uint32_t, int>> placed;

 private:
  struct St {
    int e = 0, m = 1, x = 1;
    bool operator==(const St& s) const { return e == s.e && m == s.m && x == s.x; }
  };
  struct Block {
    int file, first, bound;
  };

  Options o_;
  sim::Rng g_;
  Program p_;
  int uniq_ = 0;
  int f_ = 0;
  std::vector<std::vector<std::string>> routine_names_, data_names_, equ_names_;
  std::vector<std::string> local_labels_, shadowable_;
  std::vector<LabelDef> pending_;
  std::vector<Block> blocks_;
  int done_equs_ = 0;
  int depth_scopes_ = 0;

  File& file() { return p_.files[size_t(f_)]; }
  bool sloppy(uint32_t n = 12) { return !o_.clean && sim::flip(1, n, "sloppy"); }

  void emit(Line l) {
    l.labels.insert(l.labels.begin(), pending_.begin(), pending_.end());
    pending_.clear();
    file().lines.push_back(std::move(l));
  }
  void op(const std::string& n, Mode m = cpu::kImp, Expr a = Expr()) {
    Line l;
    l.op = n;
    l.mode = m;
    l.a = std::move(a);
    emit(l);
  }
  void dir(Kind k) {
    Line l;
    l.kind = k;
    emit(l);
  }
  std::string fresh(const char* stem) {
    std::string n = stem + std::to_string(uniq_++);
    return n;
  }
  std::string local() {
    std::string n;
    if (depth_scopes_ > 0 && !local_labels_.empty() && sloppy(4)) {
      n = local_labels_[sim::choose(uint32_t(local_labels_.size()), "shadow")];
    } else if (depth_scopes_ > 0 && !shadowable_.empty() && sim::flip(1, 4, "shadow-global")) {
      // A name that a global (of this file or another one) has as well; each
      // is used only once in a file.
      size_t i = sim::choose(uint32_t(shadowable_.size()), "shadowed");
      n = shadowable_[i];
      shadowable_.erase(shadowable_.begin() + long(i));
    } else {
      n = fresh("l");
    }
    local_labels_.push_back(n);
    return n;
  }
  void label(const std::string& n, bool exported = false) { pending_.push_back({n, exported}); }

  // A name that has a value at assembly time.
  Expr any_name(bool for_equ) {
    std::vector<Expr> c;
    for (int f = 0; f < o_.files; ++f) {
      if (for_equ && f > f_ && !sloppy(20)) continue;
      auto add = [&](const std::string& n) {
        Expr e = name(n);
        if (f != f_ || g_.below(depth_scopes_ ? 2 : 5) == 0) {
          e.qualified = true;
          e.module = p_.files[size_t(f)].module;
          if (e.module.empty() && g_.below(2)) e.qualified = false;
        }
        c.push_back(e);
      };
      for (auto& n : routine_names_[size_t(f)]) add(n);
      for (auto& n : data_names_[size_t(f)]) add(n);
      int ne = int(equ_names_[size_t(f)].size());
      if (for_equ && f == f_) ne = std::min(ne, done_equs_);
      for (int i = 0; i < ne; ++i) add(equ_names_[size_t(f)][size_t(i)]);
    }
    if (c.empty()) return num(int32_t(g_.below(256)), 2);
    return c[sim::choose(uint32_t(c.size()), "name")];
  }

  Expr expr(Size want, int depth, bool lookup, bool for_equ = false) {
    static const int kDigits[] = {0, 2, 4, 6};
    switch (sim::pick({8, lookup ? 4 : 0, depth ? 2 : 0, depth ? 2 : 0}, "expr")) {
      case 1: {
        Expr n = any_name(for_equ);
        if (n.kind != Expr::kName) break;
        if (want == kByte) return un("<>^"[g_.below(3)], n);
        n.at = want == kLong;
        return n;
      }
      case 2:
        if (want == kByte && g_.below(2)) return un("<>^"[g_.below(3)], expr(g_.below(2) ? kWord : kLong, depth - 1, lookup, for_equ));
        return un('-', expr(want, depth - 1, lookup, for_equ));
      case 3: {
        Size other = want == kAny ? kAny : Size(g_.below(uint32_t(want) + 1));
        Expr a = expr(want, depth - 1, lookup, for_equ), b = expr(other, depth - 1, lookup && (other != kAny || for_equ), for_equ);
        char o = "+-*/"[g_.below(4)];
        if (g_.below(2)) std::swap(a, b);
        if (o == '/' && constant(b)) {
          auto v = eval(b, [](const Expr&) -> std::optional<int32_t> { return {}; });
          if (!v || *v == 0) o = '+';
        } else if (o == '/') {
          o = '-';
        }
        return bin(o, a, b);
      }
      default: break;
    }
    int d = want == kAny ? 0 : kDigits[want];
    if (d == 6 && g_.below(4) == 0) d = 5;
    if (d == 4 && g_.below(6) == 0) d = 3;
    if (d == 2 && g_.below(8) == 0) d = 1;
    uint32_t v = uint32_t(g_.next());
    if (g_.below(6) == 0) v = g_.below(2) ? 0 : 0xffffffffu;
    if (d == 0) return num(int32_t(v & 0x7fff), 0);
    return num(int32_t(v & ((1u << (4 * d)) - 1)), d);
  }

  void setup_equs() {
    auto& names = equ_names_[size_t(f_)];
    for (size_t i = 0; i < names.size(); ++i) {
      Line l;
      l.kind = kEqu;
      l.a = expr(g_.below(4) ? kAny : kWord, 2, sim::flip(1, 2, "equ-lookup"), true);
      if (sloppy(8)) l.a = num(int32_t(g_.next() & 0x7fffffff), 0);
      if (f_ >= 2 && sim::flip(1, 3, "equ-of-two")) {
        // Values of two other files.
        Expr x, y;
        for (int k = 0; k < 4; ++k) {
          Expr e = any_name(true);
          if (e.kind == Expr::kName) (k % 2 ? x : y) = e;
        }
        l.a = bin("+-*"[g_.below(3)], x, y);
      }
      label(names[i], g_.below(4) == 0);
      emit(l);
      done_equs_ = int(i) + 1;
    }
  }

  static const char* branch_name(uint32_t k) {
    static const char* n[] = {"bne", "beq", "bcc", "bcs", "bmi", "bpl", "bvc", "bvs"};
    return n[k % 8];
  }

  void branch(const std::string& target) {
    op(branch_name(sim::choose(8, "branch")), cpu::kRel8, name(target));
  }

  static bool special(const std::string& n) {
    static const std::set<std::string> s = {
        "rep", "sep", "xce", "php", "plp", "pha", "pla", "phx", "plx", "phy", "ply", "phb", "plb",
        "phd", "pld", "phk", "pea", "pei", "per", "jmp", "jsr", "jsl", "rts", "rtl", "rti", "stp",
        "bra", "brl", "bcc", "bcs", "beq", "bne", "bmi", "bpl", "bvc", "bvs", "txs", "tcs"};
    return s.count(n) > 0;
  }

  Expr operand(Mode m) {
    switch (m) {
      case cpu::kImp: case cpu::kAcc: return Expr();
      case cpu::kImm8: return num(int32_t(g_.below(256)), g_.below(2) ? 2 : 0);
      case cpu::kImmM: case cpu::kImmX: return expr(Size(g_.below(4)), 2, true);
      case cpu::kImm16: return expr(kWord, 2, true);
      case cpu::kAbs: case cpu::kAbsX: case cpu::kAbsY: case cpu::kAbsInd: case cpu::kAbsIndX:
      case cpu::kAbsIndL: return expr(kWord, 2, true);
      case cpu::kLong: case cpu::kLongX: return expr(kLong, 2, true);
      case cpu::kMove: return num(int32_t(g_.below(256)), 2);
      default: return expr(kByte, 2, true);
    }
  }

  void plain(St& s) {
    for (int tries = 0; tries < 60; ++tries) {
      uint32_t k = tries == 0 ? sim::choose(256, "opcode") : g_.below(256);
      auto& o = cpu::opcodes()[k];
      if (special(o.name)) continue;
      bool needs_m = o.mode == cpu::kImmM, needs_x = o.mode == cpu::kImmX;
      if ((needs_m && s.m < 0) || (needs_x && s.x < 0)) {
        if (!sloppy(6)) continue;
      }
      Line l;
      l.op = o.name;
      l.mode = o.mode;
      if (l.op == "adc" && !o_.no_pseudo && g_.below(3) == 0) l.op = "add";
      if (l.op == "sbc" && !o_.no_pseudo && g_.below(3) == 0) l.op = "sub";
      l.a = operand(o.mode);
      if (o.mode == cpu::kMove) l.b = num(int32_t(g_.below(256)), 2);
      static const std::set<std::string> m_sized = {"lda", "sta", "adc", "and", "ora", "eor", "cmp", "sbc"};
      static const std::set<std::string> x_sized = {"ldx", "ldy", "cpx", "cpy", "stx", "sty"};
      int w = m_sized.count(l.op) ? s.m : x_sized.count(l.op) ? s.x : -1;
      if (w >= 0 && g_.below(5) == 0) l.suffix = (w == 1) != sloppy(30) ? 'b' : 'w';
      l.want_m = s.m;
      l.want_x = s.x;
      emit(l);
      return;
    }
    op("nop");
  }

  // Bring the processor from `s` to `to` where REP and SEP can do it.
  void match(St& s, const St& to) {
    if (s.e != 0 || to.e != 0) return;
    uint32_t rep = 0, sep = 0;
    if (to.m >= 0 && s.m != to.m) (to.m ? sep : rep) |= 0x20;
    if (to.x >= 0 && s.x != to.x) (to.x ? sep : rep) |= 0x10;
    if (rep) flags_op("rep", rep, s);
    if (sep) flags_op("sep", sep, s);
  }
  void flags_op(const char* n, uint32_t v, St& s) {
    op(n, cpu::kImm8, num(int32_t(v), g_.below(2) ? 2 : 0));
    int to = n[0] == 's';
    if (s.e == 1) return;
    if (s.e < 0 && !to) {
      if (v & 0x20 && s.m != 0) s.m = -1;
      if (v & 0x10 && s.x != 0) s.x = -1;
      return;
    }
    if (v & 0x20) s.m = to;
    if (v & 0x10) s.x = to;
  }
  // REP or SEP of a value that only later steps of the assembler know.
  void unknown_flags_op(St& s) {
    bool sep = sim::flip(1, 2, "sep");
    Expr n = any_name(false);
    if (n.kind != Expr::kName) return;
    op(sep ? "sep" : "rep", cpu::kImm8, un("<<<>"[g_.below(4)], n));
    if (s.e == 1) return;
    if (s.m != int(sep)) s.m = -1;
    if (s.x != int(sep)) s.x = -1;
    // Pushing a register of unknown width would end the analysis of the stack.
    if (o_.strict) flags_op(sim::flip(1, 2, "sep") ? "sep" : "rep", 0x30, s);
  }
  void exchange(St& s) {
    bool emu = s.e == 0 && sim::flip(1, 2, "to-emu");
    op(emu ? "sec" : "clc");
    if (!o_.clean && sim::flip(1, 3, "between")) {
      static const char* memory[] = {"lda", "cmp", "cpx", "cpy", "adc", "rol", "inc", "sta"};
      switch (sim::choose(5, "between-what")) {
        case 0: op("nop"); break;
        case 1: op(memory[g_.below(8)], cpu::kDp, num(1, 2)); break;
        case 2: op(memory[4 + g_.below(2)], cpu::kDp, num(1, 2)); break;
        case 3: flags_op(g_.below(2) ? "rep" : "sep", 1 + (g_.below(4) << 4), s); break;
        default: unknown_flags_op(s);
      }
    }
    op("xce");
    if (emu) {
      s = {1, 1, 1};
    } else {
      if (s.e < 0) {
        if (s.m == 0) s.m = -1;
        if (s.x == 0) s.x = -1;
      }
      s.e = 0;
    }
  }
  // After code that may have moved `t` away from `s`: come back or not.
  Flags definite_flags() {
    static const char* n[] = {"m8x8", "m16x16", "m8x16", "m16x8"};
    return flags_of(n[sim::choose(4, "flags")]);
  }
  void rejoin(St& t, const St& s) {
    if (!(t == s) && !sloppy(6)) match(t, s);
  }

  int max_depth() const { return 3; }

  void body(St& s, int n, int depth) {
    for (int i = 0; i < n; ++i) item(s, depth);
  }
  // Another way in, which the code above runs into.
  void second_entrance(St& s) {
    Line e;
    e.kind = kEntry;
    e.flags = {s.e, s.m, s.x};
    if (sloppy(3)) e.flags = some_flags();
    if (sim::flip(1, 3, "entry-returns")) {
      e.ret = 1 + int(sim::choose(8, "entry-noreturn") == 7);
      if (e.ret == 1) e.ret_flags = some_flags();
    }
    if (sim::flip(1, 2, "named")) label(fresh("in"), depth_scopes_ > 0 && g_.below(2));
    emit(e);
    if (e.flags.e != s.e) s.e = -1;
    if (e.flags.m != s.m) s.m = -1;
    if (e.flags.x != s.x) s.x = -1;
    SIM_PROBE("entry in the middle of code");
  }

  // A value defined between statements, of a label that may be visible here only.
  void equ_in_code() {
    std::string at = local(), v = o_.strict ? fresh("q") : local();
    label(at);
    op("nop");
    Line l;
    l.kind = kEqu;
    Expr a = name(at);
    a.at = g_.below(3) == 0;
    switch (sim::choose(3, "equ-of")) {
      case 0: l.a = a; break;
      case 1: l.a = bin(g_.below(2) ? '+' : '-', a, num(int32_t(g_.below(64)), 2)); break;
      default: l.a = bin("+-"[g_.below(2)], a, expr(kAny, 1, true, true));
    }
    label(v);
    emit(l);
    if (g_.below(2)) op("lda", cpu::kAbs, name(v));
    if (g_.below(2)) op("ldx", cpu::kDp, un("<>^"[g_.below(3)], name(v)));
    SIM_PROBE("value defined between statements");
  }

  int sub(int depth) { return depth >= max_depth() ? 1 : 1 + int(sim::choose(4, "sub-body")); }

  void item(St& s, int depth) {
    bool deep = depth < max_depth();
    int games = o_.stack_games ? 2 : 0;
    switch (sim::pick({10, 5, depth == 0 || !o_.clean ? 2 : 0, deep ? 3 : 0, deep ? 4 : 0, deep ? 4 : 0,
                       deep ? 3 : 0, deep ? 2 : 0, 3, 1, deep ? 2 : 0, 1, 2, games, 1, games,
                       s.e >= 0 && (depth == 0 || !o_.clean) ? 1 : 0, depth_scopes_ > 0 ? 2 : 1},
                      "item")) {
      case 16: second_entrance(s); break;
      case 17: equ_in_code(); break;
      case 0: plain(s); break;
      case 1: {
        if (sim::flip(1, 8, "flags-by-name")) {
          unknown_flags_op(s);
          break;
        }
        static const uint32_t v[] = {0x20, 0x10, 0x30, 0x31, 0x01, 0xcf, 0xff, 0x28};
        uint32_t c = v[sim::choose(8, "flag-bits")];
        flags_op(sim::flip(1, 2, "sep") ? "sep" : "rep", c, s);
        break;
      }
      case 2: exchange(s); break;
      case 3: {  // php ... plp
        St t = s;
        op("php");
        body(t, sub(depth), depth + 1);
        op("plp");
        if (t.e != s.e) {
          s.e = t.e;
          if (t.e == 1) s.m = s.x = 1;
        }
        break;
      }
      case 4: {  // push ... pull
        static const char* regs[] = {"a", "x", "y", "b", "d"};
        uint32_t r = sim::choose(5, "register");
        St t = s;
        op(std::string("ph") + regs[r]);
        body(t, sub(depth), depth + 1);
        rejoin(t, s);
        op(std::string("pl") + regs[r]);
        s = t;
        break;
      }
      case 5: {  // loop
        std::string l = local();
        label(l);
        St t = s;
        body(t, sub(depth), depth + 1);
        rejoin(t, s);
        branch(l);
        s = t;
        break;
      }
      case 6: {  // if
        std::string l = local();
        branch(l);
        St t = s;
        body(t, sub(depth), depth + 1);
        rejoin(t, s);
        label(l);
        op("nop");
        if (!(t == s)) {
          if (t.e != s.e) s.e = -1;
          if (t.m != s.m) s.m = -1;
          if (t.x != s.x) s.x = -1;
        }
        break;
      }
      case 7: {  // if-else, or early return
        std::string l = local();
        branch(l);
        St t = s;
        body(t, sub(depth), depth + 1);
        if (sim::flip(1, 2, "early-return")) {
          op(g_.below(2) ? "rts" : "rtl");
          label(l);
          op("nop");
          break;
        }
        rejoin(t, s);
        std::string end = local();
        if (sim::flip(1, 3, "brl")) {
          op("brl", cpu::kRel16, name(end));
        } else {
          op("bra", cpu::kRel8, name(end));
        }
        label(l);
        St u = s;
        body(u, sub(depth), depth + 1);
        rejoin(u, t);
        label(end);
        op("nop");
        s = u;
        if (!(t == u)) {
          if (t.e != u.e) s.e = -1;
          if (t.m != u.m) s.m = -1;
          if (t.x != u.x) s.x = -1;
        }
        break;
      }
      case 8: call(s); break;
      case 9: {  // .mode
        Line l;
        l.kind = kModeDir;
        if (sloppy(4)) {
          l.flags = some_flags();
          s = {l.flags.e, l.flags.m, l.flags.x};
        } else {
          l.flags.e = s.e;
          l.flags.m = s.e >= 0 ? s.m : -1;
          l.flags.x = s.e >= 0 ? s.x : -1;
          s = {l.flags.e, l.flags.m, l.flags.x};
        }
        emit(l);
        break;
      }
      case 10: {  // scope
        dir(kBegin);
        ++depth_scopes_;
        body(s, sub(depth), depth + 1);
        if (sim::flip(1, 4, "export-inner")) {
          std::string n = fresh("exp");
          if (sim::flip(1, 3, "local-too")) {  // a local of the same name
            label(n);
            op("nop");
          }
          label(n, true);
          op("nop");
          if (g_.below(2)) op("lda", cpu::kAbs, name(n));
        }
        --depth_scopes_;
        dir(kEnd);
        break;
      }
      case 11: {  // data in the code
        std::string l = local();
        op("bra", cpu::kRel8, name(l));
        data_line();
        label(l);
        op("nop");
        break;
      }
      case 12: {  // other balanced stack use
        switch (sim::choose(4, "stack-use")) {
          case 0: op("phk"); op("plb"); break;
          case 1:
            if (s.x == 0) {
              op("pea", cpu::kImm16, expr(kWord, 1, true));
              op(g_.below(2) ? "plx" : "ply");
            } else {
              op("pea", cpu::kImm16, expr(kWord, 1, true));
              op("pld");
            }
            break;
          case 2:
            op("php");
            op("pei", cpu::kDp, expr(kByte, 1, true));
            op("pld");
            op("plp");
            break;
          default:
            op("phd");
            op("phb");
            op("plb");
            op("pld");
        }
        break;
      }
      case 13: {  // unusual stack use: the analysis has to give up
        switch (sim::choose(8, "stack-game")) {
          case 0: op("plp"); s.m = s.x = s.e == 1 ? 1 : -1; break;
          case 1: op("pla"); break;
          case 2: op("plx"); break;
          case 3:
            op("phk");
            op("plp");
            s.m = s.x = s.e == 1 ? 1 : -1;
            break;
          case 4: op("pha"); op("plp"); s.m = s.x = s.e == 1 ? 1 : -1; break;
          case 5: op("php"); op("pla"); break;
          case 6: op("php"); op("phb"); op("plp"); op("plp"); s.m = s.x = s.e == 1 ? 1 : -1; break;
          default: op("pea", cpu::kImm16, num(int32_t(g_.below(65536)), 4)); op("plp"); op("plb");
            s.m = s.x = s.e == 1 ? 1 : -1;
        }
        break;
      }
      case 14: {  // remote declaration, or a forward definition of a name
        Line l;
        l.kind = kRemote;
        l.a = !o_.strict && sim::flip(1, 3, "remote-name") ? any_name(false) : num(int32_t(far_target()), 6);
        if (l.a.kind == Expr::kName) l.a.at = g_.below(2);
        l.flags = some_flags();
        switch (sim::pick({4, 2, 1}, "remote-returns")) {
          case 0: break;
          case 1: l.ret = 1; l.ret_flags = some_flags(); break;
          default: l.ret = 2;
        }
        emit(l);
        break;
      }
      default: {  // nests whose inside changes the widths the outside relies on
        St t = s;
        op("php");
        op(sim::flip(1, 2, "x") ? "phx" : "pha");
        bool a = file().lines.back().op == "pha";
        body(t, 1, depth + 1);
        if (sim::flip(1, 2, "sep") || s.e != 0) {
          flags_op("sep", 0x30, t);
        } else {
          flags_op("rep", 0x30, t);
        }
        op(a ? "pla" : "plx");
        op("plp");
        // The intended state only if the widths agreed.
        int before = a ? s.m : s.x, after = a ? t.m : t.x;
        if (before < 0 || before != after) {
          s.m = s.x = s.e == 1 ? 1 : -1;
        }
        break;
      }
    }
  }

  uint32_t far_target() {
    static const uint32_t banks[] = {0x00, 0x01, 0x80, 0xc0, 0xfe};
    return banks[g_.below(5)] << 16 | 0x8000 | g_.below(0x8000);
  }

  Flags some_flags() {
    if (o_.strict) return definite_flags();
    static const char* n[] = {"m8x8", "m16x16", "m8x16", "m16x8", "native", "emu", "unk", "m8", "x16"};
    return flags_of(n[sim::choose(9, "flags")]);
  }

  void call(St& s) {
    bool is_long = sim::flip(1, 2, "jsl");
    Line l;
    l.op = is_long ? "jsl" : "jsr";
    l.mode = is_long ? cpu::kLong : cpu::kAbs;
    if (sim::flip(1, 2, "call-name")) {
      l.a = any_name(false);
      if (l.a.kind == Expr::kName) {
        l.a.at = is_long;
      } else {
        l.a = num(int32_t(far_target() & (is_long ? 0xffffff : 0xffff)), is_long ? 6 : 4);
      }
    } else if (!is_long && sim::flip(1, 8, "jsr-indexed")) {
      l.mode = cpu::kAbsIndX;
      l.a = expr(kWord, 1, true);
    } else if (sim::flip(1, 4, "call-expr")) {
      l.a = expr(is_long ? kLong : kWord, 1, false);
    } else {
      l.a = num(int32_t(far_target() & (is_long ? 0xffffff : 0xffff)), is_long ? 6 : 4);
    }
    if (!(o_.strict && s.e != 0) && sim::flip(1, 3, "yields")) {
      l.ret = 1;
      l.ret_flags = o_.clean && s.e == 0 && !sim::flip(1, 3, "any-flags")
                        ? flags_of(g_.below(2) ? "m8x8" : "m16x8") : some_flags();
      s = {l.ret_flags.e, l.ret_flags.m, l.ret_flags.x};
      emit(l);
      return;
    }
    if (!o_.clean && sim::flip(1, 10, "noreturn")) {
      // Nothing may follow unless something branches there.
      std::string skip = local();
      branch(skip);
      l.ret = 2;
      emit(l);
      label(skip);
      op("nop");
      return;
    }
    emit(l);
  }

  void data_line() {
    Line l;
    l.kind = kData;
    l.unit = 1 + int(sim::choose(3, "data-unit"));
    int n = 1 + int(sim::choose(5, "data-count"));
    for (int i = 0; i < n; ++i) l.list.push_back(expr(Size(g_.below(4)), 2, true));
    emit(l);
  }

  void begin_block() {
    blocks_.push_back({f_, int(file().lines.size()), 0});
    dir(kOrg);
  }
  void end_block() {
    Block& b = blocks_.back();
    for (size_t i = size_t(b.first); i < file().lines.size(); ++i) {
      const Line& l = file().lines[i];
      if (l.kind == kData) b.bound += l.unit * int(l.list.size());
      if (l.kind == kInstr) b.bound += 5;
    }
  }

  void routine(const std::string& n) {
    Line e;
    e.kind = kEntry;
    e.flags = sim::flip(1, 3, "any-flags") ? some_flags() : flags_of(sim::flip(1, 2, "wide") ? "m16x16" : "m8x8");
    if (sim::flip(1, 5, "entry-returns")) {
      e.ret = 1 + int(sim::choose(8, "entry-noreturn") == 7);
      if (e.ret == 1) e.ret_flags = some_flags();
    }
    label(n, g_.below(4) == 0);
    emit(e);
    St s{e.flags.e, e.flags.m, e.flags.x};
    local_labels_.clear();
    bool scoped = sim::flip(1, 3, "scoped");
    if (scoped) {
      dir(kBegin);
      ++depth_scopes_;
    }
    int items = 1 + int(sim::choose(uint32_t(o_.body), "items"));
    body(s, items, 0);
    switch (sim::choose(6, "terminator")) {
      case 0: op("rts"); break;
      case 1: op("rtl"); break;
      case 2: {
        bool lng = g_.below(2);
        Expr t = num(int32_t(far_target() & (lng ? 0xffffff : 0xffff)), lng ? 6 : 4);
        if (sim::flip(1, 2, "jmp-name")) {
          t = any_name(false);
          if (t.kind != Expr::kName) t = num(int32_t(far_target() & 0xffff), 4);
          t.at = t.kind == Expr::kName && lng;
        }
        op("jmp", size_of(t) == kLong ? cpu::kLong : cpu::kAbs, t);
        break;
      }
      case 3: op("jmp", g_.below(2) ? cpu::kAbsInd : g_.below(2) ? cpu::kAbsIndX : cpu::kAbsIndL, expr(kWord, 1, true)); break;
      case 4:
        if (sim::flip(1, 2, "stp")) {
          op("stp");
        } else {
          op("rti");
        }
        break;
      default:
        op("nop");
        dir(kHalt);
    }
    if (scoped) {
      --depth_scopes_;
      dir(kEnd);
    }
  }

  void make_file(int f) {
    f_ = f;
    done_equs_ = 0;
    shadowable_.clear();
    for (auto* v : {&equ_names_, &data_names_}) {
      for (auto& n : *v) shadowable_.insert(shadowable_.end(), n.begin(), n.end());
    }
    if (!file().module.empty()) {
      Line l;
      l.kind = kModule;
      l.op = file().module;
      emit(l);
    }
    bool equs_last = sim::flip(1, 4, "equs-last");
    if (!equs_last) setup_equs();
    size_t nd = 0;
    for (size_t i = 0; i < routine_names_[size_t(f)].size(); ++i) {
      if (i == 0 || !sim::flip(1, 4, "continue-block")) {
        if (i) end_block();
        begin_block();
      }
      routine(routine_names_[size_t(f)][i]);
      if (nd < data_names_[size_t(f)].size() && sim::flip(1, 2, "data-here")) {
        label(data_names_[size_t(f)][nd++]);
        data_line();
      }
    }
    end_block();
    for (; nd < data_names_[size_t(f)].size(); ++nd) {
      begin_block();
      label(data_names_[size_t(f)][nd]);
      data_line();
      if (sim::flip(1, 3, "more-data")) data_line();
      end_block();
    }
    if (equs_last) setup_equs();
  }

  // Chooses an address for each block, mostly without overlap.
  void place() {
    auto free = [&](uint32_t a, int n) {
      for (auto& b : placed) {
        if ((b.first ^ a) >> 16) continue;
        // Both may wrap within the bank.
        for (int d = -0x10000; d <= 0x10000; d += 0x10000) {
          int s = int(a & 0xffff) + d, t = int(b.first & 0xffff);
          if (s < t + b.second && t < s + n) return false;
        }
      }
      return true;
    };
    static const uint32_t banks[] = {0x00, 0x80, 0x01, 0xc0, 0x7e, 0xff};
    for (auto& b : blocks_) {
      uint32_t a = 0;
      bool clash = o_.overlap && !placed.empty() && sim::flip(1, 3, "overlap");
      for (int tries = 0; tries < 200; ++tries) {
        uint32_t bank = banks[tries == 0 ? sim::choose(6, "bank") : g_.below(6)];
        uint32_t where = tries == 0 ? uint32_t(sim::pick({6, 2, 2}, "where")) : g_.below(3);
        uint32_t off = where == 0 ? 0x8000 + g_.below(0x7000) : where == 1 ? 0xffff - g_.below(uint32_t(b.bound) + 1)
                                                                           : g_.below(0x10000);
        if (o_.rom) {
          static const uint32_t rom_banks[] = {0x00, 0x80, 0x01, 0x81};
          bank = rom_banks[g_.below(g_.below(3) ? 2 : 4)];
          off = 0x8000 + g_.below(0x7fff - uint32_t(b.bound));
        }
        if (where == 0 && !placed.empty() && g_.below(2)) {
          auto& q = placed[g_.below(uint32_t(placed.size()))];
          bank = q.first >> 16;
          off = (q.first + uint32_t(q.second)) & 0xffff;
        }
        a = bank << 16 | off;
        if (clash) {
          auto& q = placed[g_.below(uint32_t(placed.size()))];
          a = (q.first & 0xff0000) | ((q.first + g_.below(uint32_t(q.second) + 2)) & 0xffff);
          break;
        }
        if (free(a, b.bound)) break;
      }
      placed.push_back({a, b.bound});
      Line& l = p_.files[size_t(b.file)].lines[size_t(b.first)];
      l.a = num(int32_t(a), 6);
      if (g_.below(8) == 0) l.a = bin('+', num(int32_t(a & 0xff0000), 6), num(int32_t(a & 0xffff), 4));
    }
  }
};

inline Options choose_options(bool clean, int max_files) {
  Options o;
  o.files = 1 + int(sim::choose(uint32_t(max_files), "files"));
  o.routines = 1 + int(sim::choose(3, "max-routines"));
  o.body = 3 + sim::size_class();
  o.clean = clean;
  o.overlap = !clean && sim::flip(1, 4, "allow-overlap");
  o.stack_games = sim::flip(1, 2, "stack-games");
  return o;
}

}  // namespace asmgen
#endif
