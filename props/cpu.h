// A 65816 as far as instruction decoding depends on it: opcode matrix written
// from the processor's documentation, and a machine that executes
// instructions with unknown memory contents.  Independent of nsasm's tables.
#ifndef VERIF_CPU_H
#define VERIF_CPU_H

#include <cstdint>
#include <cstring>
#include <functional>
#include <map>
#include <optional>
#include <string>
#include <vector>

#include "sim/sim.h"

namespace cpu {

enum Mode {
  kImp, kAcc, kImm8, kImmM, kImmX, kImm16, kDp, kDpX, kDpY, kAbs, kAbsX, kAbsY, kLong, kLongX,
  kInd, kIndX, kIndY, kIndL, kIndLY, kSr, kSrIY, kRel8, kRel16, kAbsInd, kAbsIndX, kAbsIndL, kMove,
  kModes
};

struct Op {
  const char* name;  // lower case
  Mode mode;
};

inline const Op* opcodes() {
  static const char* kText =
      "brk imm8,ora indx,cop imm8,ora sr,tsb dp,ora dp,asl dp,ora indl,php imp,ora immm,asl acc,phd imp,tsb abs,ora abs,asl abs,ora long,"
      "bpl rel8,ora indy,ora ind,ora sriy,trb dp,ora dpx,asl dpx,ora indly,clc imp,ora absy,inc acc,tcs imp,trb abs,ora absx,asl absx,ora longx,"
      "jsr abs,and indx,jsl long,and sr,bit dp,and dp,rol dp,and indl,plp imp,and immm,rol acc,pld imp,bit abs,and abs,rol abs,and long,"
      "bmi rel8,and indy,and ind,and sriy,bit dpx,and dpx,rol dpx,and indly,sec imp,and absy,dec acc,tsc imp,bit absx,and absx,rol absx,and longx,"
      "rti imp,eor indx,wdm imm8,eor sr,mvp move,eor dp,lsr dp,eor indl,pha imp,eor immm,lsr acc,phk imp,jmp abs,eor abs,lsr abs,eor long,"
      "bvc rel8,eor indy,eor ind,eor sriy,mvn move,eor dpx,lsr dpx,eor indly,cli imp,eor absy,phy imp,tcd imp,jmp long,eor absx,lsr absx,eor longx,"
      "rts imp,adc indx,per rel16,adc sr,stz dp,adc dp,ror dp,adc indl,pla imp,adc immm,ror acc,rtl imp,jmp aind,adc abs,ror abs,adc long,"
      "bvs rel8,adc indy,adc ind,adc sriy,stz dpx,adc dpx,ror dpx,adc indly,sei imp,adc absy,ply imp,tdc imp,jmp ainx,adc absx,ror absx,adc longx,"
      "bra rel8,sta indx,brl rel16,sta sr,sty dp,sta dp,stx dp,sta indl,dey imp,bit immm,txa imp,phb imp,sty abs,sta abs,stx abs,sta long,"
      "bcc rel8,sta indy,sta ind,sta sriy,sty dpx,sta dpx,stx dpy,sta indly,tya imp,sta absy,txs imp,txy imp,stz abs,sta absx,stz absx,sta longx,"
      "ldy immx,lda indx,ldx immx,lda sr,ldy dp,lda dp,ldx dp,lda indl,tay imp,lda immm,tax imp,plb imp,ldy abs,lda abs,ldx abs,lda long,"
      "bcs rel8,lda indy,lda ind,lda sriy,ldy dpx,lda dpx,ldx dpy,lda indly,clv imp,lda absy,tsx imp,tyx imp,ldy absx,lda absx,ldx absy,lda longx,"
      "cpy immx,cmp indx,rep imm8,cmp sr,cpy dp,cmp dp,dec dp,cmp indl,iny imp,cmp immm,dex imp,wai imp,cpy abs,cmp abs,dec abs,cmp long,"
      "bne rel8,cmp indy,cmp ind,cmp sriy,pei dp,cmp dpx,dec dpx,cmp indly,cld imp,cmp absy,phx imp,stp imp,jmp ainl,cmp absx,dec absx,cmp longx,"
      "cpx immx,sbc indx,sep imm8,sbc sr,cpx dp,sbc dp,inc dp,sbc indl,inx imp,sbc immm,nop imp,xba imp,cpx abs,sbc abs,inc abs,sbc long,"
      "beq rel8,sbc indy,sbc ind,sbc sriy,pea imm16,sbc dpx,inc dpx,sbc indly,sed imp,sbc absy,plx imp,xce imp,jsr ainx,sbc absx,inc absx,sbc longx,";
  static Op table[256];
  static bool ready = false;
  if (!ready) {
    static const char* kNames[kModes] = {"imp",  "acc",  "imm8", "immm", "immx", "imm16", "dp",
                                         "dpx",  "dpy",  "abs",  "absx", "absy", "long",  "longx",
                                         "ind",  "indx", "indy", "indl", "indly", "sr",   "sriy",
                                         "rel8", "rel16", "aind", "ainx", "ainl", "move"};
    static char names[256][4];
    const char* p = kText;
    for (int i = 0; i < 256; ++i) {
      memcpy(names[i], p, 3);
      names[i][3] = 0;
      const char* comma = strchr(p, ',');
      std::string m(p + 4, comma);
      int k = 0;
      while (k < kModes && m != kNames[k]) ++k;
      if (k == kModes) sim::harness_error("opcode table: %s", m.c_str());
      table[i] = {names[i], Mode(k)};
      p = comma + 1;
    }
    ready = true;
  }
  return table;
}

// Number of operand bytes with the given register widths (bits set = 8 bit).
inline int operand_bytes(Mode m, bool m8, bool x8) {
  switch (m) {
    case kImp: case kAcc: return 0;
    case kImmM: return m8 ? 1 : 2;
    case kImmX: return x8 ? 1 : 2;
    case kImm16: case kAbs: case kAbsX: case kAbsY: case kRel16: case kAbsInd: case kAbsIndX:
    case kAbsIndL: case kMove: return 2;
    case kLong: case kLongX: return 3;
    default: return 1;
  }
}

struct Decoded {
  std::string name;
  Mode mode = kImp;
  int bytes = 1;         // whole instruction
  uint32_t operand = 0;  // raw, little-endian
  uint32_t target = 0;   // of relative branches
};

inline uint32_t wrap(uint32_t a, int i) { return (a & 0xff0000u) | ((a + uint32_t(i)) & 0xffffu); }

// Fetches like the CPU: the program counter wraps within its bank.
template <typename Fetch>
std::optional<Decoded> decode(uint32_t pc, bool m8, bool x8, Fetch fetch) {
  auto op = fetch(pc);
  if (!op) return {};
  Decoded d;
  d.name = opcodes()[*op].name;
  d.mode = opcodes()[*op].mode;
  int n = operand_bytes(d.mode, m8, x8);
  d.bytes = 1 + n;
  for (int i = 0; i < n; ++i) {
    auto b = fetch(wrap(pc, 1 + i));
    if (!b) return {};
    d.operand |= uint32_t(*b) << (8 * i);
  }
  if (d.mode == kRel8) d.target = wrap(pc, d.bytes + int8_t(d.operand));
  if (d.mode == kRel16) d.target = wrap(pc, d.bytes + int16_t(d.operand));
  return d;
}

// Declared processor state: -1 unknown, else 0/1.
struct Flags {
  int e = -1, m = -1, x = -1;
};

struct Machine {
  bool e = true, m = true, x = true, c = false;
  uint16_t a = 0, xr = 0, yr = 0;
  uint8_t rest = 0;             // n v - - d i z, in their places
  std::vector<uint8_t> stack;   // what this code pushed
  sim::Rng* rng = nullptr;

  uint32_t rnd(uint32_t n) { return rng->below(n); }

  void start(const Flags& f) {
    e = f.e >= 0 ? f.e : rnd(2);
    set_m(f.m >= 0 ? f.m : rnd(2));
    set_x(f.x >= 0 ? f.x : rnd(2));
    c = rnd(2);
    a = uint16_t(rnd(65536));
    xr = uint16_t(rnd(65536));
    yr = uint16_t(rnd(65536));
    rest = uint8_t(rnd(256));
    narrow();
    stack.clear();
  }
  void set_m(bool v) { m = e || v; }
  void set_x(bool v) {
    x = e || v;
    narrow();
  }
  void narrow() {
    if (x) {
      xr &= 0xff;
      yr &= 0xff;
    }
  }
  bool matches(const Flags& f) const {
    return (f.e < 0 || bool(f.e) == e) && (f.m < 0 || bool(f.m) == m) && (f.x < 0 || bool(f.x) == x);
  }
  uint8_t p() const {
    return uint8_t((rest & 0xce) | (m ? 0x20 : 0) | (x ? 0x10 : 0) | (c ? 1 : 0));
  }
  void set_p(uint8_t v) {
    rest = v & 0xce;
    c = v & 1;
    set_m(v & 0x20);
    set_x(v & 0x10);
  }
  void push8(uint32_t v) { stack.push_back(uint8_t(v)); }
  void push(uint32_t v, bool narrow8) {
    if (!narrow8) push8(v >> 8);
    push8(v);
  }
  uint8_t pull8() {
    if (stack.empty()) return uint8_t(rnd(256));
    uint8_t v = stack.back();
    stack.pop_back();
    return v;
  }
  uint16_t pull(bool narrow8) {
    uint16_t v = pull8();
    if (!narrow8) v = uint16_t(v | pull8() << 8);
    return v;
  }
  void load(uint16_t* r, bool narrow8, uint32_t v) {
    if (narrow8) {
      *r = uint16_t((*r & 0xff00) | (v & 0xff));
    } else {
      *r = uint16_t(v);
    }
    narrow();
  }
  // A call that returns: m and x preserved, or as declared.
  void after_call(const Flags* yields) {
    if (yields) {
      e = yields->e >= 0 ? yields->e : rnd(2);
      set_m(yields->m >= 0 ? yields->m : rnd(2));
      set_x(yields->x >= 0 ? yields->x : rnd(2));
    }
    a = uint16_t(rnd(65536));
    xr = uint16_t(rnd(65536));
    yr = uint16_t(rnd(65536));
    c = rnd(2);
    rest = uint8_t(rnd(256));
    narrow();
  }

  enum Next { kFall, kBranch, kJump, kCall, kEnd };
  // Executes one instruction.  Memory contents are arbitrary; stores do not
  // hit code or the stack.
  Next step(const std::string& n, Mode mode, uint32_t operand) {
    bool imm = mode == kImmM || mode == kImmX || mode == kImm8 || mode == kImm16;
    auto value = [&]() -> uint32_t { return imm ? operand : rnd(65536); };
    auto is = [&](const char* s) { return n == s; };
    if (is("clc")) c = false;
    else if (is("sec")) c = true;
    else if (is("rep") || is("sep")) {
      uint8_t v = p();
      set_p(is("rep") ? uint8_t(v & ~operand) : uint8_t(v | operand));
    } else if (is("xce")) {
      bool t = e;
      e = c;
      c = t;
      set_m(m);
      set_x(x);
    } else if (is("php")) push8(p());
    else if (is("plp")) set_p(pull8());
    else if (is("pha")) push(a, m);
    else if (is("phx")) push(xr, x);
    else if (is("phy")) push(yr, x);
    else if (is("pla")) load(&a, m, pull(m));
    else if (is("plx")) load(&xr, x, pull(x));
    else if (is("ply")) load(&yr, x, pull(x));
    else if (is("phb") || is("phk")) push8(rnd(256));
    else if (is("phd")) push(rnd(65536), false);
    else if (is("plb")) pull8();
    else if (is("pld")) pull(false);
    else if (is("pea")) push(operand, false);
    else if (is("pei") || is("per")) push(rnd(65536), false);
    else if (is("txs") || is("tcs")) {
      stack.clear();  // somewhere else: contents unknown
    } else if (is("lda")) load(&a, m, value());
    else if (is("ldx")) load(&xr, x, value());
    else if (is("ldy")) load(&yr, x, value());
    else if (is("tax")) load(&xr, x, a);
    else if (is("tay")) load(&yr, x, a);
    else if (is("txa")) load(&a, m, xr);
    else if (is("tya")) load(&a, m, yr);
    else if (is("txy")) load(&yr, x, xr);
    else if (is("tyx")) load(&xr, x, yr);
    else if (is("tsx")) load(&xr, x, rnd(65536));
    else if (is("tsc") || is("tdc")) a = uint16_t(rnd(65536));
    else if (is("xba")) a = uint16_t(a >> 8 | a << 8);
    else if (is("inx")) load(&xr, x, xr + 1u);
    else if (is("dex")) load(&xr, x, xr - 1u);
    else if (is("iny")) load(&yr, x, yr + 1u);
    else if (is("dey")) load(&yr, x, yr - 1u);
    else if ((is("inc") || is("dec")) && mode == kAcc) load(&a, m, is("inc") ? a + 1u : a - 1u);
    else if (is("adc") || is("sbc")) {
      load(&a, m, rnd(65536));
      c = rnd(2);
    } else if (is("and") || is("ora") || is("eor")) load(&a, m, rnd(65536));
    else if (is("asl") || is("lsr") || is("rol") || is("ror")) {
      if (mode == kAcc) load(&a, m, rnd(65536));
      c = rnd(2);
    } else if (is("cmp") || is("cpx") || is("cpy")) c = rnd(2);
    else if (is("mvn") || is("mvp")) {
      a = 0xffff;
      load(&xr, x, rnd(65536));
      load(&yr, x, rnd(65536));
    } else if (is("brk") || is("cop")) c = rnd(2);  // handler returns
    else if (is("bcc")) return !c ? kBranch : kFall;
    else if (is("bcs")) return c ? kBranch : kFall;
    else if (is("beq") || is("bne") || is("bmi") || is("bpl") || is("bvc") || is("bvs"))
      return rnd(2) ? kBranch : kFall;
    else if (is("bra") || is("brl")) return kBranch;
    else if (is("jmp")) return kJump;
    else if (is("jsr") || is("jsl")) return kCall;
    else if (is("rts") || is("rtl") || is("rti") || is("stp")) return kEnd;
    return kFall;
  }
};

}  // namespace cpu
#endif
