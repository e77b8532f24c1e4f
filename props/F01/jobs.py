from vprun import Job
INC = ['src', 'src/util', 'src/cc/frontend']
SRC = ['src/cc/frontend/parser_expr.c', 'src/cc/frontend/fe_misc.c', 'src/cc/frontend/type.c', 'src/util/table.c']
TY = 'BOOL CHAR UCHAR SHORT USHORT INT UINT LONG ULONG LLONG ULLONG ENUM FLOAT DOUBLE LDOUBLE'.split()
FUNCS = {
    'harness_binary': 'parse_expr parse_precedence binary literal promote_to_int cast_numbers make_cast make_cond new_expr_num_bop new_expr_int_bop new_expr_addsub new_expr_cmp wrap_value can_cast same_type type_size get_fixnum_type new_expr_bop new_expr_cast new_expr_fixlit strip_cast',
    'harness_cond': 'new_expr_cmp make_not_expr make_cond strip_cast', 'harness_prec': 'parse_precedence get_rule binary', 'harness_prec2': 'parse_precedence get_rule binary ternary unary',
    'harness_unary': 'unary make_not_expr promote_to_int new_expr_unary', 'harness_cast': 'parse_paren make_cast check_cast can_cast wrap_value make_cond',
    'harness_ternary': 'ternary choose_ternary_result_type make_cond make_cast new_expr_ternary', 'harness_assign': 'assign assign_with transform_assign_with calc_assign_with make_cast',
    'harness_muldiv': 'new_expr_num_bop wrap_value', 'harness_fp': 'new_expr_num_bop new_expr_addsub new_expr_cmp new_expr_flolit make_cast', 'harness_fp2': 'make_cast unary ternary choose_ternary_result_type new_expr_flolit',
}
def mask(names): return hex(sum(1 << TY.index(n) for n in names.split()))
def J(name, entry, cadical=False, weight=1, tier='quick', bounded=None, defs=(), **d):
    return Job(name, 'expr.c', entry=entry, defs=['XCC_TARGET_ARCH=XCC_ARCH_X64'] + list(defs) + ['%s=%s' % kv for kv in d.items()], cdefs=['union=struct'],
               incs=INC, srcs=SRC, unwind=20, checks=[], cbmc_args=(['--sat-solver', 'cadical'] if cadical else ['--no-sat-preprocessor']) + ['--no-array-field-sensitivity', '--object-bits', '13'],
               functions=FUNCS[entry].split(), timeout=600, weight=weight, tier=tier, bounded=bounded)
L8 = 'BOOL CHAR USHORT INT UINT LONG ULONG ENUM'
R5 = 'INT UINT LONG ULONG'
L4 = 'INT UINT LONG ULONG'
R3 = 'INT UINT ULONG'
ALL = ' '.join(TY[:12])
OPS = 'ADD SUB MUL DIV MOD BITAND BITOR BITXOR LSHIFT RSHIFT EQ NE LT LE GE GT COMMA LOGAND LOGIOR'.split()
FULL = 'SUB BITAND LT EQ RSHIFT'.split()
SPLIT = 'ADD SUB LSHIFT RSHIFT'.split()
MD = 'MUL DIV MOD'.split()
ENUMD = 'both operands constant: 13 enumerated value pairs'
FPB = 'floating operands: enumerated values including NaN, infinity, -0.0 and inexact constants'
LEVEL = 'proof'
TRUSTED = ['specification of C arithmetic in props/F01/expr.c (conversions, promotions, operators) and of the meaning of one AST node',
           'token stream, scope and declarator stubs of props/F01/expr.c (operands are two variables and casts of literals)']
ASSUMPTIONS = ['for the verifier only, tagged unions are laid out as structs (-Dunion=struct): no value is read through another member than the one written',
               'allocation succeeds', 'char and enum have the x86-64 ABI representation (signed char, enum = int), long double is double as in type.c',
               'products, quotients and shifts with a variable operand are an uninterpreted function with the identities x*0 x*1 x*-1 x/1']
def jobs(tier):
    r = []
    th = tier == 'thorough'
    for op in OPS:
        modes = {'VP_MODES': 7} if op in MD else {}
        uf = ['VP_UF=1'] if op in MD + ['LSHIFT', 'RSHIFT'] else []
        ls, rs = (ALL, ALL) if th else (L8, R5) if op in FULL else ('INT ULONG', R3) if op in MD else (L4, R3)
        for t in ls.split():
            if op in SPLIT:
                modes = {'VP_MODES': 7}
                r.append(J('%s-const-%s' % (op, t), 'harness_binary', VP_OP='EX_' + op, VP_LT='T_' + t, VP_RTS=mask(rs), VP_MODES=8, weight=4, cadical=True))
            r.append(J('%s-%s' % (op, t), 'harness_binary', VP_OP='EX_' + op, VP_LT='T_' + t, VP_RTS=mask(rs), defs=uf, weight=3, **modes))
            if op in MD:
                r.append(J('%s-const-%s' % (op, t), 'harness_muldiv', VP_OP='EX_' + op, VP_LT='T_' + t, VP_RTS=mask('INT UINT ULONG' if not th else ALL), bounded=ENUMD, weight=3))
        r.append(J('prec-%s' % op, 'harness_prec', VP_OP='EX_' + op, defs=['VP_UF=1', 'VP_UFALL=1'], weight=3, **({} if th else {'VP_NEAR': 1})))
        if op in 'ADD SUB MUL DIV EQ NE LT LE GE GT'.split():
            for t in ('INT ULONG FLOAT DOUBLE LDOUBLE' if op == 'SUB' else 'INT DOUBLE' if op in ('DIV', 'LT') else 'DOUBLE').split() if not th else TY:
                rt = 'DOUBLE' if not th else ' '.join(TY)
                if t in ('DOUBLE', 'FLOAT') and not th:
                    rt += ' FLOAT UINT' if t == 'DOUBLE' else ''
                r.append(J('fp-%s-%s' % (op, t), 'harness_fp', VP_OP='EX_' + op, VP_LT='T_' + t, VP_RTS=mask(rt), VP_NFP=5 if th else 2, VP_OFF=2, bounded=FPB, weight=2))
    for t in 'UINT LONG ULONG DOUBLE'.split() if not th else TY:
        r.append(J('fp-misc-' + t, 'harness_fp2', VP_RTS=mask(t), VP_NFP=5 if th else 2, VP_OFF=2, defs=['VP_FPCONV=1'], bounded=FPB, weight=3))
    for p in range(3):
        r.append(J('prec2-%d' % p, 'harness_prec2', defs=['VP_UF=1', 'VP_UFALL=1'], VP_PART=p, weight=5))
    for f in range(5):
        for k2 in ['EQ', 'NE', 'LT'] if f != 2 else ['EQ']:
            for k1 in 'EQ NE LT LE GE GT LOGAND LOGIOR'.split():
                if th or f == 2 or (f == 0 and k2 != 'LT') or (k2 == 'EQ' and k1 in 'NE LT LOGAND'.split() and f != 4) or (k2 == 'NE' and k1 == 'GE'):
                    r.append(J('cond-%d-%s-%s' % (f, k1, k2), 'harness_cond', VP_LT='T_LONG', VP_OP='EX_' + k1, VP_K2='EX_' + k2, VP_FORM=f, VP_RTS=mask('UINT' if not th else ALL), VP_NFP=5 if th else 2, weight=4))
    r.append(J('unary', 'harness_unary', weight=5))
    for t in ALL.split():
        r.append(J('cast-' + t, 'harness_cast', VP_LT='T_' + t))
    for t in (L8 if not th else ALL).split():
        r.append(J('ternary-' + t, 'harness_ternary', VP_LT='T_' + t, VP_RTS=mask(R5 if not th else ALL)))
    for op in 'ASSIGN ADD SUB MUL DIV MOD BITAND BITOR BITXOR LSHIFT RSHIFT'.split():
        for t in 'BOOL CHAR USHORT INT ULONG'.split() if not th else ALL.split():
            if th or op in ('ASSIGN', 'SUB', 'RSHIFT', 'DIV') or t in ('CHAR', 'INT'):
                r.append(J('assign-%s-%s' % (op, t), 'harness_assign', VP_OP='EX_' + op, VP_LT='T_' + t, VP_RTS=mask('CHAR UINT LONG' if not th else ALL), defs=['VP_UF=1']))
    return r
