from vprun import Job
TRUSTED = ['spec/riscv.h: RV64GC decoding and execution, cross-checked natively against llvm-mc (spec/validate.py)']
ASSUMPTIONS = [
    'operands are those the assembler\'s parser can build (register numbers 0..31, any 64-bit immediate)',
    'multiplication, division, floating point and memory contents are uninterpreted functions of operation and operands',
    'parse_error() is a stub that records the refusal', 'text-to-operand parsing is outside this property',
]
def J(op, form, rop=None, **d):
    defs = ['VP_OP=' + op, 'VP_FORM=%d' % form, 'XCC_TARGET_ARCH=XCC_ARCH_RISCV64'] + ['%s=%s' % (k, v) for k, v in d.items()]
    if rop: defs.append('VP_ROP=' + rop)
    return Job('rv64-' + op, 'enc_rv.c', defs=defs, incs=['src', 'src/util', 'src/as', 'src/as/arch/riscv64', '/verif'],
               srcs=['src/util/util.c'], unwind=34, functions=['assemble_inst', 'riscv64 encoder for ' + op], timeout=600)
def jobs(tier):
    r = []
    for o in 'ADD ADDW SUB SUBW MUL MULW DIV DIVU DIVW DIVUW REM REMU REMW REMUW AND OR XOR SLL SLLW SRL SRLW SRA SRAW SLT SLTU'.split():
        r.append(J(o, 1, 'RV_' + o))
    for o in 'ADDI ADDIW ANDI ORI XORI SLLI SLLIW SRLI SRLIW SRAI SRAIW SLTI SLTIU'.split():
        r.append(J(o, 2, 'RV_' + o))
    for o in 'MV NEG NOT SEXT_B SEXT_H SEXT_W ZEXT_B ZEXT_H ZEXT_W SEQZ SNEZ SLTZ SGTZ'.split():
        r.append(J(o, 3))
    r += [J('LI', 4), J('LA', 5), J('J', 8), J('JR', 9), J('JALR', 9), J('CALL', 11), J('RET', 12), J('ECALL', 13)]
    for o in 'LB LH LW LD LBU LHU LWU'.split(): r.append(J(o, 6, 'RV_' + o, VP_FP=0))
    for o in 'SB SH SW SD'.split(): r.append(J(o, 7, 'RV_' + o, VP_FP=0))
    for o in 'FLD FLW'.split(): r.append(J(o, 6, 'RV_' + o, VP_FP=1))
    for o in 'FSD FSW'.split(): r.append(J(o, 7, 'RV_' + o, VP_FP=1))
    for o in 'BEQ BNE BLT BGE BLTU BGEU'.split(): r.append(J(o, 10, 'RV_' + o))
    for f, n in (('D', 1), ('S', 0)):
        for o in 'FADD FSUB FMUL FDIV'.split(): r.append(J('%s_%s' % (o, f), 20, 'RV_' + o, VP_FMT=n, VP_RM=7))
        for o in 'FSGNJ FSGNJN FSGNJX'.split(): r.append(J('%s_%s' % (o, f), 20, 'RV_' + o, VP_FMT=n, VP_RM=0))
        r.append(J('FSQRT_' + f, 21, 'RV_FSQRT', VP_FMT=n, VP_RM=7, VP_RS2=0, VP_SUB=0))
        r.append(J('FMV_' + f, 21, 'RV_FSGNJ', VP_FMT=n, VP_RM=0, VP_RS2=1, VP_SUB=0))
        r.append(J('FNEG_' + f, 21, 'RV_FSGNJN', VP_FMT=n, VP_RM=0, VP_RS2=1, VP_SUB=0))
        for o in 'FEQ FLT FLE'.split(): r.append(J('%s_%s' % (o, f), 22, 'RV_' + o, VP_FMT=n))
        for k, t in enumerate('W WU L LU'.split()):
            r.append(J('FCVT_%s_%s' % (f, t), 23, 'RV_FCVT_F_I', VP_FMT=n, VP_SUB=k))
            r.append(J('FCVT_%s_%s' % (t, f), 24, 'RV_FCVT_I_F', VP_FMT=n, VP_SUB=k, VP_HASRM=1))
    r.append(J('FMV_X_D', 24, 'RV_FMV_X', VP_FMT=1, VP_SUB=0, VP_HASRM=0))
    r.append(J('FMV_X_W', 24, 'RV_FMV_X', VP_FMT=0, VP_SUB=0, VP_HASRM=0))
    r.append(J('FCVT_D_S', 21, 'RV_FCVT_F_F', VP_FMT=1, VP_RM=0, VP_RS2=0, VP_SUB=0))
    r.append(J('FCVT_S_D', 21, 'RV_FCVT_F_F', VP_FMT=0, VP_RM=7, VP_RS2=0, VP_SUB=1))
    for j in r:
        if j.name == 'rv64-LI': j.unwind, j.unwindset, j.weight = 7, ['memcmp.0:200'], 9
    mk = J('ECALL', 13)
    mk.name, mk.entry, mk.functions = 'rv64-make_code', 'harness_make_code', ['make_code16', 'make_code32']
    r.append(mk)
    return r
