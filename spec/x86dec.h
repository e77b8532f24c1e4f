// Specification: the x86-64 instruction format (Intel SDM vol. 2, chapter 2 and the opcode maps),
// restricted to the instructions xcc's assembler knows.  `x86_decode' maps a byte string to an
// abstract instruction; several byte strings may denote the same abstract instruction.
// Validated natively against GNU binutils by /verif/spec/validate_x86.sh.
#pragma once
#include <stdint.h>
#include <stdbool.h>

enum XOp {
  X_BAD,
  X_ADD, X_OR, X_ADC, X_SBB, X_AND, X_SUB, X_XOR, X_CMP,  // ModRM group 1 order
  X_MOV, X_MOVSX, X_MOVZX, X_LEA, X_TEST,
  X_NOT, X_NEG, X_MUL, X_DIV, X_IDIV, X_INC, X_DEC,
  X_SHL, X_SHR, X_SAR,
  X_CBW, X_CWD,       // A-register sign extension (98 / 99), size tells which
  X_SETCC, X_JCC, X_JMP, X_CALL, X_JMPI, X_CALLI, X_RET,
  X_PUSH, X_POP, X_INT, X_SYSCALL, X_ENDBR64,
  X_SSE,              // scalar/packed SSE: (prefix, opcode) in cc
  X_CVTSI2F, X_CVTTF2SI,
};
enum XK { XK_NONE, XK_GPR, XK_MEM, XK_XMM, XK_IMM };

typedef struct {
  enum XK k;
  int r;            // gpr/xmm number; 8bit high registers AH..BH are 16..19
  int base, index, scale, seg;   // MEM: base -1 none, 16 RIP; index -1 none; scale log2; seg 0 / 0x64
  int64_t v;        // MEM: displacement, IMM: value (sign extended to 64 bit)
} XOpnd;

typedef struct {
  enum XOp op;
  int size;         // operand size in bytes (destination)
  int ssize;        // source size for movsx/movzx
  int cc;           // condition code, or SSE selector
  XOpnd dst, src;
  int len;          // bytes consumed
} XInst;

#define XSSE(pre, opc)  (((pre) << 8) | (opc))

static XOpnd x_none(void) { XOpnd o = {XK_NONE, 0, -1, -1, 0, 0, 0}; return o; }
static XOpnd x_gpr(int r) { XOpnd o = {XK_GPR, r, -1, -1, 0, 0, 0}; return o; }
static XOpnd x_xmm(int r) { XOpnd o = {XK_XMM, r, -1, -1, 0, 0, 0}; return o; }
static XOpnd x_imm(int64_t v) { XOpnd o = {XK_IMM, 0, -1, -1, 0, 0, v}; return o; }
static XOpnd x_mem(int base, int index, int scale, int64_t disp) {
  XOpnd o = {XK_MEM, 0, base, index, scale, 0, disp};
  return o;
}
static XOpnd x_gpr_sized(int r, int size, bool rex) {  // r: 0..15
  if (size == 1 && !rex && r >= 4 && r < 8)
    return x_gpr(r - 4 + 16);
  return x_gpr(r);
}

static int64_t x_rd(const unsigned char *b, int pos, int n) {  // little endian, sign extended
  uint64_t v = 0;
  if (n == 1) return (int8_t)b[pos];
  v = (uint64_t)b[pos] | ((uint64_t)b[pos + 1] << 8);
  if (n == 2) return (int16_t)v;
  v |= ((uint64_t)b[pos + 2] << 16) | ((uint64_t)b[pos + 3] << 24);
  if (n == 4) return (int32_t)v;
  v |= ((uint64_t)b[pos + 4] << 32) | ((uint64_t)b[pos + 5] << 40) | ((uint64_t)b[pos + 6] << 48) | ((uint64_t)b[pos + 7] << 56);
  return (int64_t)v;
}

// b must have at least 32 readable bytes (padded).
static XInst x86_decode(const unsigned char *b) {
  XInst d;
  d.op = X_BAD; d.size = 0; d.ssize = 0; d.cc = 0; d.len = 0;
  d.dst = x_none(); d.src = x_none();
  bool p66 = false, pf2 = false, pf3 = false, p64 = false;
  int i = 0;
  if (b[i] == 0x64) { p64 = true; ++i; }
  if (b[i] == 0x66) { p66 = true; ++i; }
  if (b[i] == 0xf2) { pf2 = true; ++i; }
  else if (b[i] == 0xf3) { pf3 = true; ++i; }
  int rex = 0;
  if ((b[i] & 0xf0) == 0x40) { rex = b[i]; ++i; }
  bool W = (rex & 8) != 0;
  int R = (rex & 4) << 1, X = (rex & 2) << 2, B = (rex & 1) << 3;
  int vsize = W ? 8 : p66 ? 2 : 4;
  unsigned char op = b[i++];
  bool two = false;
  if (op == 0x0f) { two = true; op = b[i++]; }

  // --- which opcodes carry a ModRM byte
  bool hasmodrm;
  if (!two)
    hasmodrm = (op < 0x40 && (op & 7) < 4) || op == 0x63 || op == 0x80 || op == 0x81 || op == 0x83 ||
               op == 0x84 || op == 0x85 || (op >= 0x88 && op <= 0x8b) || op == 0x8d ||
               op == 0xc0 || op == 0xc1 || (op >= 0xd0 && op <= 0xd3) || op == 0xc6 || op == 0xc7 ||
               op == 0xf6 || op == 0xf7 || op == 0xfe || op == 0xff;
  else
    hasmodrm = op == 0xb6 || op == 0xb7 || op == 0xbe || op == 0xbf || (op >= 0x90 && op <= 0x9f) ||
               op == 0x10 || op == 0x11 || op == 0x51 || op == 0x57 || op == 0x58 || op == 0x59 ||
               op == 0x5a || op == 0x5c || op == 0x5e || op == 0x2a || op == 0x2c || op == 0x2e || op == 0x2f ||
               op == 0x28 || op == 0x29;
  int reg = 0, rm = 0;
  bool ismem = false;
  XOpnd mem = x_none();
  if (hasmodrm) {
    int modrm = b[i++];
    int mod = modrm >> 6;
    reg = (modrm >> 3) & 7;
    rm = modrm & 7;
    if (mod != 3) {
      ismem = true;
      int base = rm | B, index = -1, scale = 0, dispn = mod == 1 ? 1 : mod == 2 ? 4 : 0;
      if (rm == 4) {
        int sib = b[i++];
        scale = sib >> 6;
        index = ((sib >> 3) & 7) | X;
        if (index == 4) { index = -1; scale = 0; }
        base = (sib & 7) | B;
        if ((sib & 7) == 5 && mod == 0) { base = -1; dispn = 4; }
      } else if (rm == 5 && mod == 0) {
        base = 16;
        dispn = 4;
      }
      int64_t disp = 0;
      if (dispn == 1) { disp = x_rd(b, i, 1); i += 1; }
      else if (dispn == 4) { disp = x_rd(b, i, 4); i += 4; }
      mem = x_mem(base, index, scale, disp);
      mem.seg = p64 ? 0x64 : 0;
    }
  }
  if (p64 && !ismem)
    return d;
  bool np = !pf2 && !pf3;           // no mandatory prefix
#define E(sz)  (ismem ? mem : x_gpr_sized(rm | B, sz, rex != 0))
#define G(sz)  x_gpr_sized(reg | R, sz, rex != 0)

  if (!two) {
    if (op < 0x40 && (op & 7) < 6) {
      if (!np) return d;
      int form = op & 7, sz = (form & 1) ? vsize : 1;
      d.size = sz;
      if (form < 2) { d.dst = E(sz); d.src = G(sz); }
      else if (form < 4) { d.dst = G(sz); d.src = E(sz); }
      else {
        d.dst = x_gpr(0);
        int n = sz == 8 ? 4 : sz;
        d.src = x_imm(x_rd(b, i, n)); i += n;
      }
      d.op = X_ADD + (op >> 3);
    } else if (op >= 0x50 && op < 0x60) {
      if (!np || p66) return d;
      d.op = op < 0x58 ? X_PUSH : X_POP;
      d.size = 8;
      d.dst = x_gpr((op & 7) | B);
    } else if (op == 0x63) {
      if (!np || !W) return d;
      d.op = X_MOVSX; d.size = 8; d.ssize = 4; d.dst = G(8); d.src = E(4);
    } else if (op == 0x68 || op == 0x6a) {
      if (!np || p66) return d;
      int n = op == 0x68 ? 4 : 1;
      d.op = X_PUSH; d.size = 8; d.dst = x_imm(x_rd(b, i, n)); i += n;
    } else if (op >= 0x70 && op < 0x80) {
      if (!np || p66) return d;
      d.op = X_JCC; d.cc = op & 15; d.size = 1; d.dst = x_imm(x_rd(b, i, 1)); i += 1;
    } else if (op == 0x80 || op == 0x81 || op == 0x83) {
      if (!np) return d;
      int sz = op == 0x80 ? 1 : vsize;
      int n = op == 0x81 ? (sz == 8 ? 4 : sz) : 1;
      d.size = sz; d.dst = E(sz); d.src = x_imm(x_rd(b, i, n)); i += n;
      d.op = X_ADD + reg;
    } else if (op == 0x84 || op == 0x85) {
      if (!np) return d;
      int sz = op == 0x84 ? 1 : vsize;
      d.op = X_TEST; d.size = sz; d.dst = E(sz); d.src = G(sz);
    } else if (op >= 0x88 && op <= 0x8b) {
      if (!np) return d;
      int sz = (op & 1) ? vsize : 1;
      d.op = X_MOV; d.size = sz;
      if (op < 0x8a) { d.dst = E(sz); d.src = G(sz); }
      else { d.dst = G(sz); d.src = E(sz); }
    } else if (op == 0x8d) {
      if (!np || !ismem) return d;
      d.op = X_LEA; d.size = vsize; d.dst = G(vsize); d.src = mem;
    } else if (op == 0x98 || op == 0x99) {
      if (!np) return d;
      d.op = op == 0x98 ? X_CBW : X_CWD; d.size = vsize;
    } else if (op >= 0xb0 && op < 0xc0) {
      if (!np) return d;
      int sz = op < 0xb8 ? 1 : vsize;
      d.op = X_MOV; d.size = sz; d.dst = x_gpr_sized((op & 7) | B, sz, rex != 0);
      d.src = x_imm(x_rd(b, i, sz)); i += sz;
    } else if (op == 0xc0 || op == 0xc1 || (op >= 0xd0 && op <= 0xd3)) {
      if (!np) return d;
      int sz = (op & 1) ? vsize : 1;
      d.size = sz; d.dst = E(sz);
      d.op = reg == 4 ? X_SHL : reg == 5 ? X_SHR : reg == 7 ? X_SAR : X_BAD;
      if (op < 0xd0) { d.src = x_imm((unsigned char)b[i]); i += 1; }
      else if (op < 0xd2) d.src = x_imm(1);
      else d.src = x_gpr(1);   // %cl
    } else if (op == 0xc3) {
      if (!np || p66) return d;
      d.op = X_RET;
    } else if (op == 0xc6 || op == 0xc7) {
      if (!np || reg != 0) return d;
      int sz = (op & 1) ? vsize : 1, n = sz == 8 ? 4 : sz;
      d.op = X_MOV; d.size = sz; d.dst = E(sz); d.src = x_imm(x_rd(b, i, n)); i += n;
    } else if (op == 0xcc) {
      if (!np || p66) return d;
      d.op = X_INT; d.dst = x_imm(3);
    } else if (op == 0xcd) {
      if (!np || p66) return d;
      d.op = X_INT; d.dst = x_imm((unsigned char)b[i]); i += 1;
    } else if (op == 0xe8) {
      if (!np || p66) return d;
      d.op = X_CALL; d.size = 4; d.dst = x_imm(x_rd(b, i, 4)); i += 4;
    } else if (op == 0xe9 || op == 0xeb) {
      if (!np || p66) return d;
      int n = op == 0xe9 ? 4 : 1;
      d.op = X_JMP; d.size = n; d.dst = x_imm(x_rd(b, i, n)); i += n;
    } else if (op == 0xf6 || op == 0xf7) {
      if (!np) return d;
      int sz = (op & 1) ? vsize : 1;
      d.size = sz; d.dst = E(sz);
      d.op = reg == 2 ? X_NOT : reg == 3 ? X_NEG : reg == 4 ? X_MUL : reg == 6 ? X_DIV : reg == 7 ? X_IDIV : X_BAD;
    } else if (op == 0xfe || op == 0xff) {
      if (!np) return d;
      int sz = (op & 1) ? vsize : 1;
      if (reg < 2) { d.op = reg == 0 ? X_INC : X_DEC; d.size = sz; d.dst = E(sz); }
      else if (op == 0xff && !p66 && (reg == 2 || reg == 4)) {
        d.op = reg == 2 ? X_CALLI : X_JMPI; d.size = 8; d.dst = E(8);
      }
    }
  } else {
    if (op == 0x05 && np && !p66) {
      d.op = X_SYSCALL;
    } else if (op == 0x1e && pf3 && b[i] == 0xfa) {
      i += 1; d.op = X_ENDBR64;
    } else if (op >= 0x80 && op < 0x90 && np && !p66) {
      d.op = X_JCC; d.cc = op & 15; d.size = 4; d.dst = x_imm(x_rd(b, i, 4)); i += 4;
    } else if (op >= 0x90 && op < 0xa0 && np) {
      d.op = X_SETCC; d.cc = op & 15; d.size = 1; d.dst = E(1);
    } else if ((op == 0xb6 || op == 0xb7 || op == 0xbe || op == 0xbf) && np) {
      d.op = op < 0xb8 ? X_MOVZX : X_MOVSX;
      d.ssize = (op & 1) ? 2 : 1; d.size = vsize;
      d.dst = G(vsize); d.src = E(d.ssize);
    } else if (op == 0x2a || op == 0x2c) {
      if ((!pf2 && !pf3) || p66) return d;
      d.cc = pf2 ? 8 : 4; d.size = W ? 8 : 4;
      if (op == 0x2a) { d.op = X_CVTSI2F; d.dst = x_xmm(reg | R); d.src = E(d.size); }
      else { d.op = X_CVTTF2SI; d.dst = x_gpr(reg | R); d.src = ismem ? mem : x_xmm(rm | B); }
    } else if (hasmodrm) {
      int pre = pf2 ? 0xf2 : pf3 ? 0xf3 : p66 ? 0x66 : 0;
      if ((pf2 || pf3) && p66) return d;
      XOpnd e = ismem ? mem : x_xmm(rm | B), g = x_xmm(reg | R);
      d.op = X_SSE;
      int canon = op;
      if (op == 0x11) { canon = 0x10; d.dst = e; d.src = g; }
      else { d.dst = g; d.src = e; }
      d.cc = XSSE(pre, canon);
    }
  }
#undef E
#undef G
  d.len = i;
  return d;
}

static bool x_opnd_eq(const XOpnd *a, const XOpnd *b) {
  if (a->k != b->k) return false;
  switch (a->k) {
  case XK_NONE: return true;
  case XK_GPR: case XK_XMM: return a->r == b->r;
  case XK_IMM: return a->v == b->v;
  case XK_MEM:
    return a->base == b->base && a->index == b->index && a->scale == b->scale && a->v == b->v && a->seg == b->seg;
  }
  return false;
}
