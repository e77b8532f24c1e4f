from vprun import Job
TRUSTED = ['spec/x86dec.h: x86-64 instruction format, cross-checked natively against GNU binutils (spec/validate_x86.py)']
ASSUMPTIONS = [
    'operands are those the assembler\'s parser can build: register numbers in range, displacements fit 32 bits, scale in {1,2,4,8}, %rsp is not an index, AH..BH do not meet a REX prefix',
    'parse_error() is a stub that records the refusal',
    'text-to-operand parsing is outside this property',
]
def J(op, form, xop, **d):
    defs = ['VP_OP=' + op, 'VP_FORM=%d' % form, 'VP_XOP=' + xop, 'XCC_TARGET_ARCH=XCC_ARCH_X64'] + ['%s=%s' % (k, v) for k, v in d.items()]
    return Job('x64-' + op, 'enc_x64.c', defs=defs,
               incs=['src', 'src/util', 'src/as', 'src/as/arch/x64', '/verif'], srcs=['src/util/util.c'],
               unwind=34, functions=['assemble_inst', 'x64 encoder for ' + op, 'is_im8', 'is_im32', 'most_significant_bit'], timeout=400)
def jobs(tier):
    r = []
    for n, x in [('MOV', 'X_MOV'), ('ADD', 'X_ADD'), ('SUB', 'X_SUB'), ('AND', 'X_AND'), ('OR', 'X_OR'), ('XOR', 'X_XOR'), ('CMP', 'X_CMP')]:
        r += [J(n + '_RR', 1, x), J(n + '_IMR', 2, x)]
    r.append(J('TEST', 1, 'X_TEST'))
    for n, x in [('MOV', 'X_MOV'), ('ADD', 'X_ADD'), ('SUB', 'X_SUB'), ('LEA', 'X_LEA')]:
        r += [J(n + '_IR', 3, x), J(n + '_IIR', 5, x)]
    r += [J('MOV_RI', 4, 'X_MOV'), J('MOV_DR', 6, 'X_MOV'), J('MOV_RD', 7, 'X_MOV'), J('MOV_SR', 8, 'X_MOV')]
    for s, n in [('B', 1), ('W', 2), ('L', 4), ('Q', 8)]:
        r += [J('MOV%s_IMI' % s, 9, 'X_MOV', VP_SIZE=n), J('MOV%s_IMD' % s, 10, 'X_MOV', VP_SIZE=n)]
        r += [J('INC' + s, 13, 'X_INC', VP_SIZE=n), J('DEC' + s, 13, 'X_DEC', VP_SIZE=n)]
    r += [J('ADDQ', 9, 'X_ADD', VP_SIZE=8), J('SUBQ', 9, 'X_SUB', VP_SIZE=8)]
    r += [J('MOVSX', 11, 'X_MOVSX'), J('MOVZX', 11, 'X_MOVZX')]
    for n in ['MUL', 'DIV', 'IDIV', 'NEG', 'NOT', 'INC', 'DEC']:
        r.append(J(n, 12, 'X_' + n))
    for c in 'O NO B AE E NE BE A S NS P NP L GE LE G'.split():
        r += [J('SET' + c, 12, 'X_SETCC', VP_SIZE=1), J('J' + c, 17, 'X_JCC')]
    r += [J('PUSH_R', 12, 'X_PUSH', VP_SIZE=8), J('POP', 12, 'X_POP', VP_SIZE=8), J('PUSH_IM', 18, 'X_PUSH'), J('INT', 18, 'X_INT')]
    r += [J('JMP_D', 17, 'X_JMP'), J('CALL_D', 17, 'X_CALL'), J('JMP_DER', 12, 'X_JMPI', VP_SIZE=8), J('CALL_DER', 12, 'X_CALLI', VP_SIZE=8)]
    r += [J('JMP_DEI', 13, 'X_JMPI', VP_SIZE=8), J('JMP_DEII', 14, 'X_JMPI')]
    for n in ['SHL', 'SHR', 'SAR']:
        r += [J(n + '_RR', 15, 'X_' + n), J(n + '_IMR', 16, 'X_' + n)]
    r += [J('CWTL', 19, 'X_CBW', VP_SIZE=4), J('CLTD', 19, 'X_CWD', VP_SIZE=4), J('CQTO', 19, 'X_CWD', VP_SIZE=8),
          J('RET', 19, 'X_RET', VP_SIZE=0), J('SYSCALL', 19, 'X_SYSCALL', VP_SIZE=0), J('ENDBR64', 19, 'X_ENDBR64', VP_SIZE=0)]
    for sfx, p in [('SD', '0xf2'), ('SS', '0xf3')]:
        r += [J('MOV%s_XX' % sfx, 20, 'X_SSE', VP_CC='XSSE(%s,0x10)' % p), J('MOV%s_IX' % sfx, 21, 'X_SSE', VP_CC='XSSE(%s,0x10)' % p),
              J('MOV%s_XI' % sfx, 22, 'X_SSE', VP_CC='XSSE(%s,0x10)' % p)]
        for n, o in [('ADD', '0x58'), ('SUB', '0x5c'), ('MUL', '0x59'), ('DIV', '0x5e')]:
            r.append(J(n + sfx, 20, 'X_SSE', VP_CC='XSSE(%s,%s)' % (p, o)))
        pp = '0x66' if sfx == 'SD' else '0'
        r += [J('XORP' + sfx[1], 20, 'X_SSE', VP_CC='XSSE(%s,0x57)' % pp), J('COMI' + sfx, 20, 'X_SSE', VP_CC='XSSE(%s,0x2f)' % pp),
              J('UCOMI' + sfx, 20, 'X_SSE', VP_CC='XSSE(%s,0x2e)' % pp)]
        c = '8' if sfx == 'SD' else '4'
        r += [J('CVTSI2' + sfx, 23, 'X_CVTSI2F', VP_CC=c), J('CVTT%s2SI' % sfx, 24, 'X_CVTTF2SI', VP_CC=c)]
    r += [J('CVTSD2SS', 20, 'X_SSE', VP_CC='XSSE(0xf2,0x5a)'), J('CVTSS2SD', 20, 'X_SSE', VP_CC='XSSE(0xf3,0x5a)'),
          J('SQRTSD', 20, 'X_SSE', VP_CC='XSSE(0xf2,0x51)')]
    return r
