// RV64GC subset: decoding (32 bit and compressed), written from
// "The RISC-V Instruction Set Manual, Volume I" (not from the code under verification).
#pragma once
#include <stdint.h>
#include <stdbool.h>

enum { RV_BAD,
  RV_ADD, RV_SUB, RV_SLL, RV_SLT, RV_SLTU, RV_XOR, RV_SRL, RV_SRA, RV_OR, RV_AND,
  RV_ADDW, RV_SUBW, RV_SLLW, RV_SRLW, RV_SRAW,
  RV_MUL, RV_MULH, RV_MULHSU, RV_MULHU, RV_DIV, RV_DIVU, RV_REM, RV_REMU, RV_MULW, RV_DIVW, RV_DIVUW, RV_REMW, RV_REMUW,
  RV_ADDI, RV_SLTI, RV_SLTIU, RV_XORI, RV_ORI, RV_ANDI, RV_SLLI, RV_SRLI, RV_SRAI,
  RV_ADDIW, RV_SLLIW, RV_SRLIW, RV_SRAIW,
  RV_LUI, RV_AUIPC, RV_JAL, RV_JALR,
  RV_BEQ, RV_BNE, RV_BLT, RV_BGE, RV_BLTU, RV_BGEU,
  RV_LB, RV_LH, RV_LW, RV_LD, RV_LBU, RV_LHU, RV_LWU, RV_SB, RV_SH, RV_SW, RV_SD,
  RV_ECALL, RV_EBREAK,
  RV_FLW, RV_FLD, RV_FSW, RV_FSD,
  RV_FADD, RV_FSUB, RV_FMUL, RV_FDIV, RV_FSQRT, RV_FSGNJ, RV_FSGNJN, RV_FSGNJX,
  RV_FEQ, RV_FLT, RV_FLE,
  RV_FCVT_I_F, RV_FCVT_F_I, RV_FCVT_F_F, RV_FMV_X, RV_FMV_F };

typedef struct {
  int op, rd, rs1, rs2, rm, fmt /* 0:S 1:D */, sub /* fcvt: W WU L LU */;
  int64_t imm;
  int len;
} RvInst;

static int64_t rv_sx(uint64_t v, int bits) { return (int64_t)(v << (64 - bits)) >> (64 - bits); }
#define RVB(w, hi, lo)  (((w) >> (lo)) & ((1u << ((hi) - (lo) + 1)) - 1))

static RvInst rv_mk(int op, int rd, int rs1, int rs2, int64_t imm) {
  RvInst r; r.op = op; r.rd = rd; r.rs1 = rs1; r.rs2 = rs2; r.imm = imm; r.rm = 0; r.fmt = 0; r.sub = 0; r.len = 4; return r;
}

static RvInst rv_dec32(uint32_t w) {
  int opc = w & 0x7f, rd = RVB(w, 11, 7), f3 = RVB(w, 14, 12), rs1 = RVB(w, 19, 15), rs2 = RVB(w, 24, 20), f7 = RVB(w, 31, 25);
  int64_t ii = rv_sx(w >> 20, 12), is = rv_sx((f7 << 5) | rd, 12);
  int64_t ib = rv_sx((RVB(w, 31, 31) << 12) | (RVB(w, 7, 7) << 11) | (RVB(w, 30, 25) << 5) | (RVB(w, 11, 8) << 1), 13);
  int64_t ij = rv_sx((RVB(w, 31, 31) << 20) | (RVB(w, 19, 12) << 12) | (RVB(w, 20, 20) << 11) | (RVB(w, 30, 21) << 1), 21);
  int64_t iu = (int64_t)(int32_t)(w & 0xfffff000u);
  RvInst bad = rv_mk(RV_BAD, 0, 0, 0, 0);
  switch (opc) {
  case 0x33: {
    static const int t0[8] = {RV_ADD, RV_SLL, RV_SLT, RV_SLTU, RV_XOR, RV_SRL, RV_OR, RV_AND};
    static const int t1[8] = {RV_MUL, RV_MULH, RV_MULHSU, RV_MULHU, RV_DIV, RV_DIVU, RV_REM, RV_REMU};
    if (f7 == 0) return rv_mk(t0[f3], rd, rs1, rs2, 0);
    if (f7 == 1) return rv_mk(t1[f3], rd, rs1, rs2, 0);
    if (f7 == 0x20 && f3 == 0) return rv_mk(RV_SUB, rd, rs1, rs2, 0);
    if (f7 == 0x20 && f3 == 5) return rv_mk(RV_SRA, rd, rs1, rs2, 0);
    return bad; }
  case 0x3b:
    if (f7 == 0) switch (f3) { case 0: return rv_mk(RV_ADDW, rd, rs1, rs2, 0); case 1: return rv_mk(RV_SLLW, rd, rs1, rs2, 0); case 5: return rv_mk(RV_SRLW, rd, rs1, rs2, 0); }
    if (f7 == 1) switch (f3) { case 0: return rv_mk(RV_MULW, rd, rs1, rs2, 0); case 4: return rv_mk(RV_DIVW, rd, rs1, rs2, 0); case 5: return rv_mk(RV_DIVUW, rd, rs1, rs2, 0); case 6: return rv_mk(RV_REMW, rd, rs1, rs2, 0); case 7: return rv_mk(RV_REMUW, rd, rs1, rs2, 0); }
    if (f7 == 0x20 && f3 == 0) return rv_mk(RV_SUBW, rd, rs1, rs2, 0);
    if (f7 == 0x20 && f3 == 5) return rv_mk(RV_SRAW, rd, rs1, rs2, 0);
    return bad;
  case 0x13:
    switch (f3) {
    case 0: return rv_mk(RV_ADDI, rd, rs1, 0, ii);
    case 2: return rv_mk(RV_SLTI, rd, rs1, 0, ii);
    case 3: return rv_mk(RV_SLTIU, rd, rs1, 0, ii);
    case 4: return rv_mk(RV_XORI, rd, rs1, 0, ii);
    case 6: return rv_mk(RV_ORI, rd, rs1, 0, ii);
    case 7: return rv_mk(RV_ANDI, rd, rs1, 0, ii);
    case 1: return (w >> 26) == 0 ? rv_mk(RV_SLLI, rd, rs1, 0, RVB(w, 25, 20)) : bad;
    case 5: return (w >> 26) == 0 ? rv_mk(RV_SRLI, rd, rs1, 0, RVB(w, 25, 20)) : (w >> 26) == 0x10 ? rv_mk(RV_SRAI, rd, rs1, 0, RVB(w, 25, 20)) : bad;
    }
    return bad;
  case 0x1b:
    if (f3 == 0) return rv_mk(RV_ADDIW, rd, rs1, 0, ii);
    if (f3 == 1 && f7 == 0) return rv_mk(RV_SLLIW, rd, rs1, 0, rs2);
    if (f3 == 5 && f7 == 0) return rv_mk(RV_SRLIW, rd, rs1, 0, rs2);
    if (f3 == 5 && f7 == 0x20) return rv_mk(RV_SRAIW, rd, rs1, 0, rs2);
    return bad;
  case 0x37: return rv_mk(RV_LUI, rd, 0, 0, iu);
  case 0x17: return rv_mk(RV_AUIPC, rd, 0, 0, iu);
  case 0x6f: return rv_mk(RV_JAL, rd, 0, 0, ij);
  case 0x67: return f3 == 0 ? rv_mk(RV_JALR, rd, rs1, 0, ii) : bad;
  case 0x63: {
    static const int t[8] = {RV_BEQ, RV_BNE, RV_BAD, RV_BAD, RV_BLT, RV_BGE, RV_BLTU, RV_BGEU};
    return rv_mk(t[f3], 0, rs1, rs2, ib); }
  case 0x03: {
    static const int t[8] = {RV_LB, RV_LH, RV_LW, RV_LD, RV_LBU, RV_LHU, RV_LWU, RV_BAD};
    return rv_mk(t[f3], rd, rs1, 0, ii); }
  case 0x23: return f3 < 4 ? rv_mk(RV_SB + f3, 0, rs1, rs2, is) : bad;
  case 0x73: return w == 0x73 ? rv_mk(RV_ECALL, 0, 0, 0, 0) : w == 0x00100073 ? rv_mk(RV_EBREAK, 0, 0, 0, 0) : bad;
  case 0x07: return f3 == 2 ? rv_mk(RV_FLW, rd, rs1, 0, ii) : f3 == 3 ? rv_mk(RV_FLD, rd, rs1, 0, ii) : bad;
  case 0x27: return f3 == 2 ? rv_mk(RV_FSW, 0, rs1, rs2, is) : f3 == 3 ? rv_mk(RV_FSD, 0, rs1, rs2, is) : bad;
  case 0x53: {
    int fmt = f7 & 3, f5 = f7 >> 2;
    RvInst r = rv_mk(RV_BAD, rd, rs1, rs2, 0);
    r.fmt = fmt; r.rm = f3;
    if (fmt > 1) return bad;
    switch (f5) {
    case 0: r.op = RV_FADD; break;
    case 1: r.op = RV_FSUB; break;
    case 2: r.op = RV_FMUL; break;
    case 3: r.op = RV_FDIV; break;
    case 0x0b: if (rs2 != 0) return bad; r.op = RV_FSQRT; break;
    case 4: if (f3 > 2) return bad; r.op = RV_FSGNJ + f3; r.rm = 0; return r;
    case 0x14: if (f3 > 2) return bad; r.op = f3 == 0 ? RV_FLE : f3 == 1 ? RV_FLT : RV_FEQ; r.rm = 0; return r;
    case 0x18: if (rs2 > 3) return bad; r.op = RV_FCVT_I_F; r.sub = rs2; break;
    case 0x1a: if (rs2 > 3) return bad; r.op = RV_FCVT_F_I; r.sub = rs2; break;
    case 0x08: if (rs2 > 1 || rs2 == fmt) return bad; r.op = RV_FCVT_F_F; r.sub = rs2; break;
    case 0x1c: if (f3 != 0 || rs2 != 0) return bad; r.op = RV_FMV_X; break;
    case 0x1e: if (f3 != 0 || rs2 != 0) return bad; r.op = RV_FMV_F; break;
    default: return bad;
    }
    if (f3 == 5 || f3 == 6) return bad;
    return r; }
  }
  return bad;
}

static RvInst rv_dec16(uint16_t c) {
  int q = c & 3, f3 = c >> 13, rd = RVB(c, 11, 7), r2 = RVB(c, 6, 2), rp1 = 8 + RVB(c, 9, 7), rp2 = 8 + RVB(c, 4, 2);
  int64_t i6 = rv_sx((RVB(c, 12, 12) << 5) | r2, 6);
  int u6 = (RVB(c, 12, 12) << 5) | r2;
  RvInst bad = rv_mk(RV_BAD, 0, 0, 0, 0), r = bad;
  int uw = (RVB(c, 5, 5) << 6) | (RVB(c, 12, 10) << 3) | (RVB(c, 6, 6) << 2);
  int ud = (RVB(c, 6, 5) << 6) | (RVB(c, 12, 10) << 3);
  if (q == 0) {
    switch (f3) {
    case 0: { int u = (RVB(c, 10, 7) << 6) | (RVB(c, 12, 11) << 4) | (RVB(c, 5, 5) << 3) | (RVB(c, 6, 6) << 2);
              if (u != 0) r = rv_mk(RV_ADDI, rp2, 2, 0, u); break; }
    case 1: r = rv_mk(RV_FLD, rp2, rp1, 0, ud); break;
    case 2: r = rv_mk(RV_LW, rp2, rp1, 0, uw); break;
    case 3: r = rv_mk(RV_LD, rp2, rp1, 0, ud); break;
    case 5: r = rv_mk(RV_FSD, 0, rp1, rp2, ud); break;
    case 6: r = rv_mk(RV_SW, 0, rp1, rp2, uw); break;
    case 7: r = rv_mk(RV_SD, 0, rp1, rp2, ud); break;
    }
  } else if (q == 1) {
    switch (f3) {
    case 0: r = rv_mk(RV_ADDI, rd, rd, 0, i6); break;
    case 1: if (rd != 0) r = rv_mk(RV_ADDIW, rd, rd, 0, i6); break;
    case 2: r = rv_mk(RV_ADDI, rd, 0, 0, i6); break;
    case 3:
      if (rd == 2) {
        int64_t n = rv_sx((RVB(c, 12, 12) << 9) | (RVB(c, 4, 3) << 7) | (RVB(c, 5, 5) << 6) | (RVB(c, 2, 2) << 5) | (RVB(c, 6, 6) << 4), 10);
        if (n != 0) r = rv_mk(RV_ADDI, 2, 2, 0, n);
      } else if (i6 != 0)
        r = rv_mk(RV_LUI, rd, 0, 0, i6 << 12);
      break;
    case 4:
      switch (RVB(c, 11, 10)) {
      case 0: r = rv_mk(RV_SRLI, rp1, rp1, 0, u6); break;
      case 1: r = rv_mk(RV_SRAI, rp1, rp1, 0, u6); break;
      case 2: r = rv_mk(RV_ANDI, rp1, rp1, 0, i6); break;
      default: {
        static const int t[8] = {RV_SUB, RV_XOR, RV_OR, RV_AND, RV_SUBW, RV_ADDW, RV_BAD, RV_BAD};
        r = rv_mk(t[(RVB(c, 12, 12) << 2) | RVB(c, 6, 5)], rp1, rp1, rp2, 0); break; }
      }
      break;
    case 5: r = rv_mk(RV_JAL, 0, 0, 0, rv_sx((RVB(c, 12, 12) << 11) | (RVB(c, 8, 8) << 10) | (RVB(c, 10, 9) << 8) | (RVB(c, 6, 6) << 7) | (RVB(c, 7, 7) << 6) | (RVB(c, 2, 2) << 5) | (RVB(c, 11, 11) << 4) | (RVB(c, 5, 3) << 1), 12)); break;
    default: r = rv_mk(f3 == 6 ? RV_BEQ : RV_BNE, 0, rp1, 0, rv_sx((RVB(c, 12, 12) << 8) | (RVB(c, 6, 5) << 6) | (RVB(c, 2, 2) << 5) | (RVB(c, 11, 10) << 3) | (RVB(c, 4, 3) << 1), 9)); break;
    }
  } else if (q == 2) {
    int ld = (RVB(c, 4, 2) << 6) | (RVB(c, 12, 12) << 5) | (RVB(c, 6, 5) << 3), sd = (RVB(c, 9, 7) << 6) | (RVB(c, 12, 10) << 3);
    int lw = (RVB(c, 3, 2) << 6) | (RVB(c, 12, 12) << 5) | (RVB(c, 6, 4) << 2), sw = (RVB(c, 8, 7) << 6) | (RVB(c, 12, 9) << 2);
    switch (f3) {
    case 0: r = rv_mk(RV_SLLI, rd, rd, 0, u6); break;
    case 1: r = rv_mk(RV_FLD, rd, 2, 0, ld); break;
    case 2: if (rd != 0) r = rv_mk(RV_LW, rd, 2, 0, lw); break;
    case 3: if (rd != 0) r = rv_mk(RV_LD, rd, 2, 0, ld); break;
    case 4:
      if (RVB(c, 12, 12) == 0) {
        if (r2 == 0) { if (rd != 0) r = rv_mk(RV_JALR, 0, rd, 0, 0); }
        else r = rv_mk(RV_ADD, rd, 0, r2, 0);
      } else {
        if (r2 == 0) r = rd == 0 ? rv_mk(RV_EBREAK, 0, 0, 0, 0) : rv_mk(RV_JALR, 1, rd, 0, 0);
        else r = rv_mk(RV_ADD, rd, rd, r2, 0);
      }
      break;
    case 5: r = rv_mk(RV_FSD, 0, 2, r2, sd); break;
    case 6: r = rv_mk(RV_SW, 0, 2, r2, sw); break;
    case 7: r = rv_mk(RV_SD, 0, 2, r2, sd); break;
    }
  }
  r.len = 2;
  return r;
}

static RvInst rv_dec(const unsigned char *p) {
  uint16_t h = p[0] | (p[1] << 8);
  if ((h & 3) != 3)
    return rv_dec16(h);
  RvInst r = rv_dec32((uint32_t)h | ((uint32_t)p[2] << 16) | ((uint32_t)p[3] << 24));
  r.len = 4;
  return r;
}

