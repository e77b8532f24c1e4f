// A01: contract of assemble_inst() for x86-64.
//   requires  inst is one of the operand forms the parser can produce for VP_OP, and x86-64 can
//             represent it
//   ensures   the emitted bytes decode (spec/x86dec.h) to exactly that instruction, consume exactly
//             code->len bytes, and inst itself is unchanged
#include "vp.h"
#include <string.h>
#include "as/arch/x64/asm_code.c"
#include "spec/x86dec.h"

static int vp_refused;
void parse_error(ParseInfo *info, const char *message) { (void)info; (void)message; vp_refused = 1; }

static int nbytes(int regsize) { return 1 << regsize; }

// Register as the parser produces it: size, no, x.  8 bit: AL..BL, AH..BH, R8B..R15B, SPL..DIL.
#define ND_REG(R, SZ, N) \
  VP_ND(unsigned char, N##_no); VP_ND(unsigned char, N##_x); \
  VP_ASSUME(N##_no < 8); VP_ASSUME(N##_x <= ((SZ) == REG8 ? 2 : 1)); \
  VP_ASSUME(N##_x != 2 || N##_no >= 4); \
  (R).size = (SZ); (R).no = N##_no; (R).x = N##_x
#define ND_SIZE(S, N)  VP_ND(unsigned char, N); VP_ASSUME(N <= REG64); int S = N

static XOpnd spec_reg(const Reg *r) {
  int n = r->no + ((r->x & 1) << 3);
  if (r->size == REG8 && r->x == 0 && r->no >= 4)
    return x_gpr(r->no - 4 + 16);   // AH..BH
  return x_gpr(n);
}
static bool is_high8(const Reg *r) { return r->size == REG8 && r->x == 0 && r->no >= 4; }
static bool needs_rex(const Reg *r) { return r->size == REG64 || r->x != 0; }
static int64_t trunc_to(int64_t v, int size) {
  switch (size) { case 1: return (int8_t)v; case 2: return (int16_t)v; case 4: return (int32_t)v; }
  return v;
}

static Expr vp_e1, vp_e2;
static ParseInfo vp_info;

void harness(void) {
  Inst inst;
  memset(&inst, 0, sizeof(inst));
  inst.op = VP_OP;
  XInst e;                       // expected abstract instruction
  e.op = X_BAD; e.size = 0; e.ssize = 0; e.cc = 0; e.dst = x_none(); e.src = x_none(); e.len = 0;
  bool must_accept = true, commut = false;
  Operand *o0 = &inst.opr[0], *o1 = &inst.opr[1];
  VP_ND(int64_t, imm);
  VP_ND(int64_t, disp);
  VP_ND(bool, label);            // displacement is a symbol instead of a number
  VP_ASSUME(disp >= INT32_MIN && disp <= INT32_MAX);
  vp_e1.kind = EX_FIXNUM; vp_e1.fixnum = disp;
  vp_e2.kind = EX_FIXNUM;

#if VP_FORM == 1      // reg, reg of equal size
  { ND_SIZE(sz, size); ND_REG(o0->reg, sz, s); ND_REG(o1->reg, sz, d); o0->type = o1->type = REG;
    VP_ASSUME(!(is_high8(&o0->reg) || is_high8(&o1->reg)) || !(needs_rex(&o0->reg) || needs_rex(&o1->reg)));
    e.op = VP_XOP; e.size = nbytes(sz); e.src = spec_reg(&o0->reg); e.dst = spec_reg(&o1->reg);
    commut = VP_XOP == X_TEST; }
#elif VP_FORM == 2    // imm, reg
  { ND_SIZE(sz, size); ND_REG(o1->reg, sz, d); o0->type = IMMEDIATE; o1->type = REG; o0->immediate = imm;
    e.op = VP_XOP; e.size = nbytes(sz); e.dst = spec_reg(&o1->reg);
    e.src = x_imm(trunc_to(imm, e.size));
    must_accept = VP_XOP == X_MOV || (imm >= INT32_MIN && imm <= INT32_MAX); }
#elif VP_FORM == 3    // ind, reg
  { ND_SIZE(sz, size); ND_REG(o0->indirect.reg, REG64, b); ND_REG(o1->reg, sz, d);
    VP_ND(bool, rip);
    o0->type = INDIRECT; o1->type = REG; o0->indirect.offset.expr = &vp_e1;
    if (VP_XOP == X_LEA) VP_ASSUME(sz == REG64);
    int base = o0->indirect.reg.no + o0->indirect.reg.x * 8;
    if (rip) { o0->indirect.reg.no = RIP; o0->indirect.reg.x = 0; base = 16; }
    if (label) { vp_e1.kind = EX_LABEL; vp_e1.label.name = NULL; disp = 0; }
    VP_ASSUME(!is_high8(&o1->reg) || (base < 8 || base == 16));
    e.op = VP_XOP; e.size = nbytes(sz); e.dst = spec_reg(&o1->reg); e.src = x_mem(base, -1, 0, disp);
    // Symbols go with %rip (and then need a 64 bit destination: GOT load), numbers with registers.
    must_accept = (rip && label && sz == REG64 && VP_XOP != X_ADD && VP_XOP != X_SUB) || (!rip && !label); }
#elif VP_FORM == 4    // reg, ind
  { ND_SIZE(sz, size); ND_REG(o1->indirect.reg, REG64, b); ND_REG(o0->reg, sz, s);
    o1->type = INDIRECT; o0->type = REG; o1->indirect.offset.expr = &vp_e1;
    int base = o1->indirect.reg.no + o1->indirect.reg.x * 8;
    if (label) { vp_e1.kind = EX_LABEL; vp_e1.label.name = NULL; disp = 0; must_accept = false; }
    VP_ASSUME(!is_high8(&o0->reg) || base < 8);
    e.op = VP_XOP; e.size = nbytes(sz); e.src = spec_reg(&o0->reg); e.dst = x_mem(base, -1, 0, disp); }
#elif VP_FORM == 5    // ind with index, reg
  { ND_SIZE(sz, size); ND_REG(o1->reg, sz, d);
    ND_REG(o0->indirect_with_index.base_reg, REG64, b); ND_REG(o0->indirect_with_index.index_reg, REG64, i);
    VP_ND(unsigned char, logscale); VP_ND(bool, noscale); VP_ASSUME(logscale < 4);
    o0->type = INDIRECT_WITH_INDEX; o1->type = REG; o0->indirect_with_index.offset = &vp_e1;
    vp_e2.fixnum = 1 << logscale;
    if (noscale) { VP_ASSUME(logscale == 0); }
    o0->indirect_with_index.scale = noscale ? NULL : &vp_e2;
    if (VP_XOP == X_LEA) VP_ASSUME(sz == REG64);
    int base = b_no + b_x * 8, index = i_no + i_x * 8;
    VP_ASSUME(index != 4);
    VP_ASSUME(!is_high8(&o1->reg) || (base < 8 && index < 8));
    e.op = VP_XOP; e.size = nbytes(sz); e.dst = spec_reg(&o1->reg); e.src = x_mem(base, index, logscale, disp); }
#elif VP_FORM == 6    // direct address, reg   /  7: reg, direct
  { ND_SIZE(sz, size); ND_REG(o1->reg, sz, d); o0->type = DIRECT; o1->type = REG; o0->direct.expr = &vp_e1;
    e.op = X_MOV; e.size = nbytes(sz); e.dst = spec_reg(&o1->reg); e.src = x_mem(-1, -1, 0, disp); }
#elif VP_FORM == 7
  { ND_SIZE(sz, size); ND_REG(o0->reg, sz, s); o1->type = DIRECT; o0->type = REG; o1->direct.expr = &vp_e1;
    e.op = X_MOV; e.size = nbytes(sz); e.src = spec_reg(&o0->reg); e.dst = x_mem(-1, -1, 0, disp); }
#elif VP_FORM == 8    // %fs:disp, reg
  { ND_REG(o1->reg, REG64, d); o0->type = SEGMENT_OFFSET; o1->type = REG;
    VP_ND(unsigned char, seg); VP_ASSUME(seg <= SS - CS);
    o0->segment.reg = CS + seg; o0->segment.offset = &vp_e1; must_accept = seg == FS - CS;
    e.op = X_MOV; e.size = 8; e.dst = spec_reg(&o1->reg); e.src = x_mem(-1, -1, 0, disp);
    e.src.seg = o0->segment.reg == FS ? 0x64 : 0x65; }
#elif VP_FORM == 9    // imm, ind  (size fixed by mnemonic)
  { ND_REG(o1->indirect.reg, REG64, b); o0->type = IMMEDIATE; o0->immediate = imm;
    o1->type = INDIRECT; o1->indirect.offset.expr = &vp_e1;
    VP_ASSUME(VP_SIZE != 8 || (imm >= INT32_MIN && imm <= INT32_MAX));
    e.op = VP_XOP; e.size = VP_SIZE; e.dst = x_mem(b_no + b_x * 8, -1, 0, disp); e.src = x_imm(trunc_to(imm, VP_SIZE)); }
#elif VP_FORM == 10   // imm, direct
  { o0->type = IMMEDIATE; o0->immediate = imm; o1->type = DIRECT; o1->direct.expr = &vp_e1;
    VP_ASSUME(VP_SIZE != 8 || (imm >= INT32_MIN && imm <= INT32_MAX));
    e.op = X_MOV; e.size = VP_SIZE; e.dst = x_mem(-1, -1, 0, disp); e.src = x_imm(trunc_to(imm, VP_SIZE)); }
#elif VP_FORM == 11   // movsx / movzx
  { ND_SIZE(ss, ssize); ND_SIZE(ds, dsize); VP_ASSUME(ss < ds);
    ND_REG(o0->reg, ss, s); ND_REG(o1->reg, ds, d); o0->type = o1->type = REG;
    VP_ASSUME(!is_high8(&o0->reg) || !needs_rex(&o1->reg));
    VP_ASSUME(!(VP_XOP == X_MOVZX && ss == REG32));
    e.op = VP_XOP; e.size = nbytes(ds); e.ssize = nbytes(ss); e.src = spec_reg(&o0->reg); e.dst = spec_reg(&o1->reg); }
#elif VP_FORM == 12   // single register
  { ND_SIZE(sz, size);
#ifdef VP_SIZE
    VP_ASSUME(nbytes(sz) == VP_SIZE);
#endif
    ND_REG(o0->reg, sz, s); o0->type = VP_XOP == X_CALLI || VP_XOP == X_JMPI ? DEREF_REG : REG;
    e.op = VP_XOP; e.size = nbytes(sz); e.dst = spec_reg(&o0->reg);
    e.cc = VP_XOP == X_SETCC ? VP_OP - SETO : 0; }
#elif VP_FORM == 13   // single memory operand
  { ND_REG(o0->indirect.reg, REG64, b); o0->type = VP_XOP == X_JMPI ? DEREF_INDIRECT : INDIRECT;
    o0->indirect.offset.expr = &vp_e1;
    e.op = VP_XOP; e.size = VP_SIZE; e.dst = x_mem(b_no + b_x * 8, -1, 0, disp); }
#elif VP_FORM == 14   // *disp(base,index,scale)
  { ND_REG(o0->indirect_with_index.base_reg, REG64, b); ND_REG(o0->indirect_with_index.index_reg, REG64, i);
    VP_ND(unsigned char, logscale); VP_ND(bool, noscale); VP_ASSUME(logscale < 4);
    VP_ND(bool, noofs);
    if (noofs) disp = 0;
    o0->type = DEREF_INDIRECT_WITH_INDEX; o0->indirect_with_index.offset = noofs ? NULL : &vp_e1;
    vp_e2.fixnum = 1 << logscale;
    if (noscale) { VP_ASSUME(logscale == 0); }
    o0->indirect_with_index.scale = noscale ? NULL : &vp_e2;
    int base = b_no + b_x * 8, index = i_no + i_x * 8;
    VP_ASSUME(index != 4);
    e.op = X_JMPI; e.size = 8; e.dst = x_mem(base, index, logscale, disp); }
#elif VP_FORM == 15   // shift by %cl
  { ND_SIZE(sz, size); ND_REG(o1->reg, sz, d); o0->type = o1->type = REG;
    o0->reg.size = REG8; o0->reg.no = 1; o0->reg.x = 0;
    e.op = VP_XOP; e.size = nbytes(sz); e.dst = spec_reg(&o1->reg); e.src = x_gpr(1); }
#elif VP_FORM == 16   // shift by immediate
  { ND_SIZE(sz, size); ND_REG(o1->reg, sz, d); o1->type = REG; o0->type = IMMEDIATE; o0->immediate = imm;
    e.op = VP_XOP; e.size = nbytes(sz); e.dst = spec_reg(&o1->reg); e.src = x_imm(imm);
    must_accept = imm >= 0 && imm < 256; }
#elif VP_FORM == 17   // direct jump / call: displacement is filled in later
  { vp_e1.kind = EX_LABEL; vp_e1.label.name = NULL; o0->type = DIRECT; o0->direct.expr = &vp_e1;
    e.op = VP_XOP; e.dst = x_imm(0); e.size = VP_XOP == X_CALL ? 4 : 1;
    e.cc = VP_XOP == X_JCC ? VP_OP - JO : 0; }
#elif VP_FORM == 18   // one immediate
  { o0->type = IMMEDIATE; o0->immediate = imm;
    e.op = VP_XOP; e.dst = x_imm(imm);
    if (VP_XOP == X_INT) { VP_ASSUME(imm >= 0 && imm < 256); }
    else { e.size = 8; must_accept = imm >= INT32_MIN && imm <= INT32_MAX; } }
#elif VP_FORM == 19   // no operand
  { e.op = VP_XOP; e.size = VP_SIZE; }
#elif VP_FORM == 20   // xmm, xmm
  { VP_ND(unsigned char, s); VP_ND(unsigned char, d); VP_ASSUME(s < 16 && d < 16);
    o0->type = o1->type = REG_XMM; o0->regxmm = XMM0 + s; o1->regxmm = XMM0 + d;
    e.op = X_SSE; e.cc = VP_CC; e.src = x_xmm(s); e.dst = x_xmm(d); }
#elif VP_FORM == 21   // ind, xmm
  { ND_REG(o0->indirect.reg, REG64, b); VP_ND(unsigned char, d); VP_ASSUME(d < 16);
    o0->type = INDIRECT; o0->indirect.offset.expr = &vp_e1; o1->type = REG_XMM; o1->regxmm = XMM0 + d;
    e.op = X_SSE; e.cc = VP_CC; e.src = x_mem(b_no + b_x * 8, -1, 0, disp); e.dst = x_xmm(d); }
#elif VP_FORM == 22   // xmm, ind
  { ND_REG(o1->indirect.reg, REG64, b); VP_ND(unsigned char, s); VP_ASSUME(s < 16);
    o1->type = INDIRECT; o1->indirect.offset.expr = &vp_e1; o0->type = REG_XMM; o0->regxmm = XMM0 + s;
    e.op = X_SSE; e.cc = VP_CC; e.dst = x_mem(b_no + b_x * 8, -1, 0, disp); e.src = x_xmm(s); }
#elif VP_FORM == 23   // cvtsi2s[sd] reg, xmm
  { VP_ND(unsigned char, sz); VP_ASSUME(sz == REG32 || sz == REG64); ND_REG(o0->reg, sz, s);
    VP_ND(unsigned char, d); VP_ASSUME(d < 16); o0->type = REG; o1->type = REG_XMM; o1->regxmm = XMM0 + d;
    e.op = X_CVTSI2F; e.cc = VP_CC; e.size = nbytes(sz); e.src = spec_reg(&o0->reg); e.dst = x_xmm(d); }
#elif VP_FORM == 24   // cvtts[sd]2si xmm, reg
  { VP_ND(unsigned char, sz); VP_ASSUME(sz == REG32 || sz == REG64); ND_REG(o1->reg, sz, d);
    VP_ND(unsigned char, s); VP_ASSUME(s < 16); o1->type = REG; o0->type = REG_XMM; o0->regxmm = XMM0 + s;
    e.op = X_CVTTF2SI; e.cc = VP_CC; e.size = nbytes(sz); e.dst = spec_reg(&o1->reg); e.src = x_xmm(s); }
#endif

  const Inst saved = inst;
  unsigned char out[32];
  Code code;
  memset(&code, 0, sizeof(code));
  assemble_inst(&inst, &vp_info, &code);
  if (vp_refused) {
    VP_ASSERT(!must_accept, "a representable instruction is accepted");
    return;
  }
  VP_WITNESS("accepted");
  VP_ASSERT(code.len >= 0 && (size_t)code.len <= sizeof(code.buf), "length within buffer");
  memset(out, 0x90, sizeof(out));
  for (int i = 0; i < (int)sizeof(code.buf); ++i)
    if (i < code.len)
      out[i] = code.buf[i];
#ifdef VP_DUMP
  for (int i = 0; i < code.len; ++i) printf("%02x ", code.buf[i]);
  printf("\n");
#endif
  XInst x = x86_decode(out);
  VP_ASSERT(x.op != X_BAD, "bytes form an instruction");
  bool movzx64 = VP_XOP == X_MOV && e.size == 8 && e.src.k == XK_IMM && x.op == X_MOV && x.size == 4;
  if (movzx64) {   // mov $imm32, %r32 zero-extends: an equivalent encoding of mov $imm, %r64
    x.size = 8;
    x.src.v = (uint32_t)x.src.v;
  }
  if (VP_XOP == X_JMP || VP_XOP == X_JCC)
    x.size = e.size;   // either displacement width
  VP_ASSERT(x.op == e.op, "operation");
  VP_ASSERT(x.size == e.size, "operand size");
  VP_ASSERT(x.ssize == e.ssize && x.cc == e.cc, "condition / variant");
  if (x.src.k == XK_IMM && e.size < 8 && VP_FORM != 16)
    x.src.v = trunc_to(x.src.v, e.size);
  bool straight = x_opnd_eq(&x.dst, &e.dst) && x_opnd_eq(&x.src, &e.src);
  bool swapped = commut && x_opnd_eq(&x.dst, &e.src) && x_opnd_eq(&x.src, &e.dst);
  VP_ASSERT(straight || swapped, "operands");
  VP_ASSERT(x.len == code.len, "length");
  VP_ASSERT(code.inst == &inst, "code refers to its instruction");
  VP_ASSERT(inst.op == saved.op && inst.opr[0].type == saved.opr[0].type && inst.opr[1].type == saved.opr[1].type, "frame: inst unchanged");
}
VP_MAIN(harness)
