// Statements that break the rules of the language.
#ifndef VERIF_MALFORMED_H
#define VERIF_MALFORMED_H

#include <vector>

namespace asmgen {

// Statements that are wrong wherever they stand, whatever surrounds them.
inline const std::vector<const char*>& malformed() {
  static const std::vector<const char*> v = {
      // characters and words
      "lda ?", "nop !", "lda $", "lda #$", "lda %2", "lda \"a\"", "'", "lda =1", "nop ~", "lda $12 | $13", "\\",
      "lda #1 & 2", ".", ".foo", ".orgg $8000", "lda.q #$12", ".d", "nop .x", "lda . b $12",
      // operand forms an instruction does not have
      "sta #$12", "stx #1", "sty #$1234", "inc #1", "dec #$12", "asl #1", "jmp #$1234", "jsr #$12", "rts $12", "rts 5",
      "nop $12", "clc #1", "tax $12", "php A", "pha A", "lda A", "sta A", "xce A", "nop A", "ldx A",
      "ldx ($12), y", "ldy ($12)", "ldx [$12]", "cpx ($12, x)", "stx [$12], y", "bit ($12), y", "stz ($12)",
      "ldx $12, x", "stx $12, x", "sty $12, y", "cpx $12, x", "lda $12, y", "ldy $12, y", "stz $12, y", "jmp $1234, x",
      "jsr $1234, x", "inc $12, y", "asl $1234, y", "ldx $12, s", "stx $12, s", "jmp $12, s", "ldx ($12, s), y",
      "jsl $1234", "jsl $12", "jsr $12", "jsr $123456", "jsr ($1234)", "jsr [$1234]", "jmp $12", "jmp ($12)", "jmp [$12]",
      "jmp ($1234), y", "jmp [$1234], y", "jsl ($1234)", "jsl [$1234]", "lda ($1234)", "lda ($1234), y", "lda ($1234, x)",
      "lda [$1234]", "lda [$1234], y", "lda ($123456)", "sta [$123456]", "ldx $123456", "sty $123456", "inc $123456",
      "bit $123456", "stz $123456", "cpx $123456", "lda $123456, y", "ldx $123456, y", "stx $1234, y", "sty $1234, x",
      "pea $1234", "pei ($1234)", "pei #$12", "pea ($1234)", "mvn $12, $13", "mvn #$12", "mvp #$1234, #$12",
      "mvn #1, #256", "lda #1, #2", "rep $12", "sep $12", "rep #$1234", "sep #$123456", "rep #256", "sep", "rep", "brk $12",
      "lda $1234, s", "lda ($1234, s), y", "sta $123456, s",
      // unsized addresses
      "lda 5", "sta 100", "jmp 1000", "lda 5, x", "lda (5)", "lda (5), y", "lda [5]", "jsr 32768", "jsl 65536", "inc 7",
      "stz 1+2", "ldx -3",
      // missing or wrong punctuation and registers
      "lda", "sta", "jmp", "jsr", "jsl", "pea", "mvn", "bit", "ldx", "cmp", "bra", "beq", "brl", "per", "lda #", "lda (",
      "lda ($12", "lda ($12,", "lda ($12, x", "lda ($12), ", "lda [$12", "lda [$12],", "lda $12,", "lda $12, 5", "lda $12, z",
      "lda $12)", "lda ($12))", "lda $12]", "lda ($12]", "lda [$12)", "lda $12, a", "lda ($12), x", "lda ($12), a",
      "lda ($12), s", "lda ($12, y)", "lda ($12, a), y", "lda ($12, s)", "lda ($12, s), x", "lda ($12, s),", "lda ($12, x), y",
      "lda [$12], x", "lda [$12, x]", "lda $12, x, y", "lda $12 $13", "lda #$12 $13", "lda #$12, x", "lda # # 1",
      "lda a, x", "lda x", "lda y", "ldx s", "lda , x", "lda $12 +", "lda $12 + *", "lda * $12", "lda $12 / ", "lda #()",
      "lda #(1", "lda #1)", "lda #<", "lda #^", "lda @$12", "lda @", "lda @(fn)", "lda ::", "lda a::b", "lda m::", "lda m::5",
      "lda ::x", "lda m::n::o", "lda #1 2", "inc A, x", "asl A A", "nop nop", "lda sta", "lda .db", "nop {", "lda #$12 }",
      "mvn #1 #2", "mvn #1, 2", "mvn #1, #", "mvn #1, #2, #3", "bra $1234", "bne 5", "beq #$12", "brl $123456", "per $1234",
      "bra @fn", "bcc fn + 1", "bcs m::fn", "bmi (fn), y", "bvc fn, x", "bpl A", "brl ::fn", "rts x", "nop ++ --",
      // suffixes
      "nop.b", "rts.w", "jmp.w $1234", "php.b", "rep.b #$30", "pea.w #$1234", "jsl.b $123456", "mvn.b #1, #2",
      "bra.b fn", "clc.b", "lda.b.w #1", "lda b #1",
      // return conventions
      "lda $12 yields m8", "nop noreturn", "rts yields m8x8", "jmp $1234 noreturn", "jmp $123456 yields emu",
      "jsr $1234 yields", "jsr $1234 yields m9", "jsr $1234 yields 8", "jsr $1234 yields m8 m8", "jsr $1234 yields m8 x8",
      "jsl $123456 noreturn noreturn", "jsl $123456 noreturn m8", "jsr $1234 noreturn yields m8", "jsr yields m8",
      "jsr noreturn", "jsr $1234 m8", "yields m8", "noreturn", "jsr $1234 yields m8, x8",
      // directives
      ".org", ".org nowhere", ".org #$8000", ".org $8000, $9000", ".org @fn", ".org m::n", ".org $1234 m8", ".org (",
      ".entry", ".entry m9", ".entry 8", ".entry m8 x8", ".entry m8x8x8", ".entry x8m8", ".entry m8x", ".entry e8", ".entry m",
      ".entry m8, x8", ".entry m8 yields", ".entry m8 yields m7", ".entry m8 yields m8 m8", ".entry m8 noreturn 5",
      ".entry native emu", ".entry m16x168", ".entry nop", ".mode", ".mode m9", ".mode 5", ".mode m8 x8", ".mode m8 yields m8",
      ".mode m8 noreturn", ".mode lda", ".module", ".module 5", ".module m::n", ".module m n", ".module m + n",
      ".module nop", ".module -m", ".module $12", ".equ", ".equ #5", ".equ 5 6", ".equ 5,", ".equ (5", ".equ lda", ".equ @",
      ".db", ".db ,", ".db 1,", ".db 1,,2", ".db , 1", ".db 1 2", ".db #1", ".dw", ".dw 1,", ".dw nop", ".dw (1",
      ".dl", ".dl $123456,", ".dl x", ".dl -", ".db <", ".db .db 1", ".halt 5", ".halt m8", ".begin x", ".begin 5", ".end 5",
      ".end m", ".remote", ".remote $123456", ".remote m8", ".remote $123456 m9", ".remote $123456, m8", ".remote $123456 m8 x8",
      ".remote $123456 yields m8", ".remote $123456 m8 yields", ".remote $123456 m8 yields q", ".remote # m8",
      // labels and exports
      "export", "export 5", "export nop", "export .org $8000", "export export q", "export m::q", "export @q", "export {",
      "export x", "5: nop", "$12: nop", "#: nop", "q r nop", "q nop r", "m::q: nop", "q: r s nop", "q, r: nop", "@q: nop",
      "(q): nop", "x: nop", "S: nop", "q = 5", "q: = 5", "q .byte 5",
      // stray symbols
      "(", ")", "[", "]", ",", "#", "@", "*", "/", "<", ">", "^", "$", "%", "( nop )", "[ nop ]", ", nop", "nop ,", "nop )",
      "nop ]", "nop (", "nop #", "5", "$1234", "%0101", "A", "X", "1 + 1", "::", "- nop 5 5", "+++ 5"};
  return v;
}

}  // namespace asmgen
#endif
