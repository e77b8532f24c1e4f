// A03: contract of assemble_inst() for riscv64.
//   requires  inst holds operands the parser can produce for VP_OP
//   ensures   either the operands are refused, or the emitted bytes decode (spec/riscv.h) to exactly the
//             written instruction (modulo the identities in rv_norm); a pseudo instruction's sequence
//             has exactly its effect for every register value; representable operands are accepted
#include "vp.h"
#include <string.h>
#include <assert.h>
#include "spec/riscv.h"

#if VP_FORM == 3 || VP_FORM == 4
// Sequences are executed as they are emitted (the words are what make_code16/32 append; that appending
// is the contract of job rv64-make_code).
static int vp_len, vp_n;
static void vp_emit(uint32_t w, int len);
#define MAKE_CODE16(inst, code, ...)  do { unsigned short vbuf[] = {__VA_ARGS__}; (code)->inst = (inst); for (int vi = 0; vi < (int)(sizeof(vbuf) / sizeof(*vbuf)); ++vi) vp_emit(vbuf[vi], 2); } while (0)
#define MAKE_CODE32(inst, code, ...)  do { unsigned int vbuf[] = {__VA_ARGS__}; (code)->inst = (inst); for (int vi = 0; vi < (int)(sizeof(vbuf) / sizeof(*vbuf)); ++vi) vp_emit(vbuf[vi], 4); } while (0)
#endif
#include "as/arch/riscv64/asm_code.c"

static int vp_refused;
void parse_error(ParseInfo *info, const char *message) { (void)info; (void)message; vp_refused = 1; }

static Expr vp_e;
static ParseInfo vp_info;

#if VP_FORM == 3 || VP_FORM == 4
// Registers the instruction may touch: rd (value R) and rs (value A).
static int vrd, vrs;
static uint64_t vA, vR;
static uint64_t vp_get(int r) {
  VP_ASSERT(r == 0 || r == vrd || r == vrs, "reads only its operands");
  return r == 0 ? 0 : r == vrd ? vR : vA;
}
static void vp_emit(uint32_t w, int len) {
  RvInst i = len == 2 ? rv_dec16(w) : rv_dec32(w);
  VP_ASSERT(len == ((w & 3) == 3 ? 4 : 2), "length of the word");
  vp_len += len;
  ++vp_n;
  uint64_t a = 0, b = 0, v = 0;
  a = vp_get(i.rs1);
  b = vp_get(i.rs2);
  switch (i.op) {
  case RV_ADD: v = a + b; break;
  case RV_SUB: v = a - b; break;
  case RV_SLT: v = (int64_t)a < (int64_t)b; break;
  case RV_SLTU: v = a < b; break;
  case RV_XOR: v = a ^ b; break;
  case RV_OR: v = a | b; break;
  case RV_AND: v = a & b; break;
  case RV_ADDW: v = (int64_t)(int32_t)(a + b); break;
  case RV_SUBW: v = (int64_t)(int32_t)(a - b); break;
  case RV_ADDI: v = a + i.imm; break;
  case RV_SLTI: v = (int64_t)a < i.imm; break;
  case RV_SLTIU: v = a < (uint64_t)i.imm; break;
  case RV_XORI: v = a ^ i.imm; break;
  case RV_ORI: v = a | i.imm; break;
  case RV_ANDI: v = a & i.imm; break;
  case RV_SLLI: v = a << i.imm; break;
  case RV_SRLI: v = a >> i.imm; break;
  case RV_SRAI: v = (int64_t)a >> i.imm; break;
  case RV_ADDIW: v = (int64_t)(int32_t)(a + i.imm); break;
  case RV_SLLIW: v = (int64_t)(int32_t)((uint32_t)a << i.imm); break;
  case RV_SRLIW: v = (int64_t)(int32_t)((uint32_t)a >> i.imm); break;
  case RV_SRAIW: v = (int64_t)((int32_t)a >> i.imm); break;
  case RV_LUI: v = i.imm; break;
  default: VP_ASSERT(0, "valid integer operation"); break;
  }
  VP_ASSERT(i.rd == 0 || i.rd == vrd, "writes only its destination");
  if (i.rd != 0) {
    vR = v;
    if (vrd == vrs) vA = v;
  }
}
#endif

// Identities of the base ISA, so that any of the equivalent spellings is accepted:
//   x0 as a destination: no effect;  add with x0 = addi 0;  addi rd, rd, 0 = nop;  commutativity
static RvInst rv_norm(RvInst i) {
  switch (i.op) {
  case RV_ADD:
    if (i.rs2 == 0) { i.op = RV_ADDI; i.imm = 0; }
    else if (i.rs1 == 0) { i.op = RV_ADDI; i.rs1 = i.rs2; i.rs2 = 0; i.imm = 0; }
    break;
  default: break;
  }
  switch (i.op) {
  case RV_ADD: case RV_ADDW: case RV_XOR: case RV_OR: case RV_AND: case RV_MUL: case RV_MULW:
    if (i.rs1 > i.rs2) { int t = i.rs1; i.rs1 = i.rs2; i.rs2 = t; }
    break;
  default: break;
  }
  bool alu = i.op >= RV_ADD && i.op <= RV_LUI;
  if ((alu && i.rd == 0) || (i.op == RV_ADDI && i.rd == i.rs1 && i.imm == 0))
    i = rv_mk(RV_ADDI, 0, 0, 0, 0);
  // exact conversions: the rounding mode is irrelevant
  if ((i.op == RV_FCVT_F_I && i.fmt == 1 && i.sub < 2) || (i.op == RV_FCVT_F_F && i.fmt == 1))
    i.rm = 0;
  if (i.op == RV_FCVT_F_F || i.op == RV_FCVT_F_I || i.op == RV_FCVT_I_F)
    i.rs2 = 0;
  return i;
}
static bool rv_same(RvInst a, RvInst b) {
  return a.op == b.op && a.rd == b.rd && a.rs1 == b.rs1 && a.rs2 == b.rs2 && a.imm == b.imm && a.rm == b.rm && a.fmt == b.fmt && a.sub == b.sub;
}

void harness(void) {
  Inst inst;
  memset(&inst, 0, sizeof(inst));
  inst.op = VP_OP;
  Operand *o0 = &inst.opr[0], *o1 = &inst.opr[1], *o2 = &inst.opr[2];
  VP_ND(unsigned char, r0); VP_ND(unsigned char, r1); VP_ND(unsigned char, r2);
  VP_ASSUME(r0 < 32 && r1 < 32 && r2 < 32);
  VP_ND(int64_t, imm);
  bool must_accept = true, exact_len4 = false;
  int nexp = 1;
  RvInst e[2];
  e[0] = e[1] = rv_mk(RV_BAD, 0, 0, 0, 0);
  bool im12 = imm >= -2048 && imm < 2048;

#if VP_FORM == 1      // rd, rs1, rs2
  o0->type = o1->type = o2->type = REG; o0->reg.no = r0; o1->reg.no = r1; o2->reg.no = r2;
  e[0] = rv_mk(VP_ROP, r0, r1, r2, 0);
#elif VP_FORM == 2    // rd, rs1, imm
  o0->type = o1->type = REG; o2->type = IMMEDIATE; o0->reg.no = r0; o1->reg.no = r1; o2->immediate = imm;
  { int sh = VP_ROP == RV_SLLI || VP_ROP == RV_SRLI || VP_ROP == RV_SRAI ? 64 : VP_ROP == RV_SLLIW || VP_ROP == RV_SRLIW || VP_ROP == RV_SRAIW ? 32 : 0;
    must_accept = sh ? imm >= 0 && imm < sh : im12;
    e[0] = rv_mk(VP_ROP, r0, r1, 0, imm); }
#elif VP_FORM == 3    // rd, rs pseudo instructions
  o0->type = o1->type = REG; o0->reg.no = r0; o1->reg.no = r1;
  VP_ND(uint64_t, a);
  if (r1 == 0) a = 0;
  uint64_t v = 0;
  switch (VP_OP) {
  case MV: v = a; break;
  case NEG: v = -a; break;
  case NOT: v = ~a; break;
  case SEXT_B: v = (int64_t)(int8_t)a; break;
  case SEXT_H: v = (int64_t)(int16_t)a; break;
  case SEXT_W: v = (int64_t)(int32_t)a; break;
  case ZEXT_B: v = (uint8_t)a; break;
  case ZEXT_H: v = (uint16_t)a; break;
  case ZEXT_W: v = (uint32_t)a; break;
  case SEQZ: v = a == 0; break;
  case SNEZ: v = a != 0; break;
  case SLTZ: v = (int64_t)a < 0; break;
  case SGTZ: v = (int64_t)a > 0; break;
  default: VP_ASSERT(0, "harness"); break;
  }
  vrd = r0; vrs = r1; vA = a;
  VP_ND_SET(vR, old);
  if (r0 == r1) vR = a;
#elif VP_FORM == 4    // li rd, imm
  o0->type = REG; o1->type = IMMEDIATE; o0->reg.no = r0; o1->immediate = imm;
  uint64_t v = imm;
  vrd = vrs = r0; 
  VP_ND_SET(vR, old);
  vA = vR;
#elif VP_FORM == 5    // la rd, label: a relocatable auipc/addi pair
  o0->type = REG; o1->type = DIRECT; o0->reg.no = r0; o1->direct.expr = &vp_e; vp_e.kind = EX_LABEL;
  e[0] = rv_mk(RV_AUIPC, r0, 0, 0, 0); e[1] = rv_mk(RV_ADDI, r0, r0, 0, 0); nexp = 2; exact_len4 = true;
#elif VP_FORM == 6 || VP_FORM == 7   // load / store  r0, ofs(r1)
  VP_ND(bool, noofs);
  o0->type = VP_FP ? FREG : REG; if (VP_FP) o0->freg = r0; else o0->reg.no = r0;
  o1->type = INDIRECT; o1->indirect.reg.no = r1; o1->indirect.offset = noofs ? NULL : &vp_e;
  vp_e.kind = EX_FIXNUM; vp_e.fixnum = imm;
  if (noofs) { imm = 0; im12 = true; }
  must_accept = im12;
  e[0] = VP_FORM == 6 ? rv_mk(VP_ROP, r0, r1, 0, imm) : rv_mk(VP_ROP, 0, r1, r0, imm);
#elif VP_FORM == 8    // j label
  o0->type = DIRECT; o0->direct.expr = &vp_e; vp_e.kind = EX_LABEL;
  e[0] = rv_mk(RV_JAL, 0, 0, 0, 0);
#elif VP_FORM == 9    // jr rs / jalr rs
  o0->type = REG; o0->reg.no = r0;
  e[0] = rv_mk(RV_JALR, VP_OP == JALR ? 1 : 0, r0, 0, 0);
#elif VP_FORM == 10   // bxx rs1, rs2, label
  o0->type = o1->type = REG; o0->reg.no = r0; o1->reg.no = r1; o2->type = DIRECT; o2->direct.expr = &vp_e; vp_e.kind = EX_LABEL;
  e[0] = rv_mk(VP_ROP, 0, r0, r1, 0);
#elif VP_FORM == 11   // call label: auipc ra, 0; jalr ra, 0(ra)
  o0->type = DIRECT; o0->direct.expr = &vp_e; vp_e.kind = EX_LABEL;
  e[0] = rv_mk(RV_AUIPC, 1, 0, 0, 0); e[1] = rv_mk(RV_JALR, 1, 1, 0, 0); nexp = 2; exact_len4 = true;
#elif VP_FORM == 12
  e[0] = rv_mk(RV_JALR, 0, 1, 0, 0);
#elif VP_FORM == 13
  e[0] = rv_mk(RV_ECALL, 0, 0, 0, 0);
#elif VP_FORM == 20   // fd, fs1, fs2
  o0->type = o1->type = o2->type = FREG; o0->freg = r0; o1->freg = r1; o2->freg = r2;
  e[0] = rv_mk(VP_ROP, r0, r1, r2, 0); e[0].fmt = VP_FMT; e[0].rm = VP_RM;
#elif VP_FORM == 21   // fd, fs
  o0->type = o1->type = FREG; o0->freg = r0; o1->freg = r1;
  e[0] = rv_mk(VP_ROP, r0, r1, VP_RS2 ? r1 : 0, 0); e[0].fmt = VP_FMT; e[0].rm = VP_RM; e[0].sub = VP_SUB;
#elif VP_FORM == 22   // rd, fs1, fs2
  o0->type = REG; o0->reg.no = r0; o1->type = o2->type = FREG; o1->freg = r1; o2->freg = r2;
  e[0] = rv_mk(VP_ROP, r0, r1, r2, 0); e[0].fmt = VP_FMT;
#elif VP_FORM == 23   // fd, rs
  o0->type = FREG; o1->type = REG; o0->freg = r0; o1->reg.no = r1;
  e[0] = rv_mk(VP_ROP, r0, r1, 0, 0); e[0].fmt = VP_FMT; e[0].rm = 7; e[0].sub = VP_SUB;
#elif VP_FORM == 24   // rd, fs [, rm]
  VP_ND(unsigned char, rm); VP_ND(bool, norm);
  VP_ASSUME(rm <= 4);
  o0->type = REG; o1->type = FREG; o0->reg.no = r0; o1->freg = r1;
  if (VP_HASRM && !norm) { o2->type = ROUNDMODE; o2->roundmode = rm; }
  else o2->type = NOOPERAND;
  e[0] = rv_mk(VP_ROP, r0, r1, 0, 0); e[0].fmt = VP_FMT; e[0].sub = VP_SUB;
#endif

  Code code;
  memset(&code, 0, sizeof(code));
  Inst inst0 = inst;
  assemble_inst(&inst, &vp_info, &code);
  VP_ASSERT(inst.op == inst0.op && memcmp(&inst, &inst0, sizeof(inst)) == 0, "instruction unchanged");
#if VP_FORM == 3 || VP_FORM == 4
  VP_ASSERT(!vp_refused, "representable operands accepted");
  VP_ASSERT(vp_len <= (int)sizeof(code.buf), "fits the code buffer");
  if (r0 != 0)
    VP_ASSERT(vR == v, "value of the destination register");
#else
  if (vp_refused) {
    VP_ASSERT(!must_accept, "representable operands accepted");
    return;
  }
  VP_ASSERT(must_accept, "unrepresentable operands refused");
  VP_ASSERT(code.len >= 0 && code.len <= 2 * 4, "length in range");
  VP_ASSERT(code.len == 0 || code.inst == &inst, "code belongs to the instruction");
  RvInst i = rv_mk(RV_ADDI, 0, 0, 0, 0);
  i.len = 0;
  if (code.len > 0)
    i = rv_dec(code.buf);
  VP_ASSERT(i.op != RV_BAD, "valid encoding");
  VP_ASSERT(!exact_len4 || i.len == 4, "relocatable pair");
#if VP_FORM == 24
  // The mode may be left out: round to nearest (the reset state) and dynamic are both right then.
  if (i.op == RV_FCVT_I_F) VP_ASSERT(o2->type == ROUNDMODE ? i.rm == rm : i.rm == 0 || i.rm == 7, "rounding mode");
  e[0].rm = i.rm;
#endif
  VP_ASSERT(exact_len4 ? rv_same(i, e[0]) : rv_same(rv_norm(i), rv_norm(e[0])), "operation and operands");
  if (nexp == 2) {
    VP_ASSERT(code.len == 8, "relocatable pair");
    VP_ASSERT(rv_same(rv_dec(code.buf + 4), e[1]), "second operation and operands");
  } else
    VP_ASSERT(code.len == i.len, "one instruction");
#if VP_FORM == 10
  VP_ASSERT(((code.flag & INST_LONG_OFFSET) != 0) == (i.len == 4), "long offset flag");
#endif
#endif
  VP_WITNESS("accepted");
}

// make_code16/32 append to the code buffer.
void harness_make_code(void) {
  Code code;
  memset(&code, 0, sizeof(code));
  Inst inst;
  VP_ND(unsigned char, at); VP_ND(bool, wide); VP_ND(uint32_t, w);
  VP_ASSUME(at + (wide ? 4 : 2) <= (int)sizeof(code.buf));
  VP_ND(unsigned char, k); VP_ND(unsigned char, bk);
  VP_ASSUME(k < sizeof(code.buf));
  code.len = at;
  code.buf[k] = bk;
  uint16_t h = w;
  int n = wide ? 4 : 2;
  if (wide) make_code32(&inst, &code, &w, 4); else make_code16(&inst, &code, &h, 2);
  VP_ASSERT(code.len == at + n && code.inst == &inst, "length");
  VP_ASSERT(code.buf[k] == (k >= at && k < at + n ? (unsigned char)(w >> ((k - at) * 8)) : bk), "bytes");
  VP_WITNESS("appended");
}
VP_MAIN(VP_ENTRY)
