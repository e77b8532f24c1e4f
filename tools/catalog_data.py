DED = 'contract-based deductive verification of the real C source (CBMC 6.11: pre/postcondition harness over every input, all obligations discharged)'

prop('A01', 'x86-64 assembler encodes every accepted instruction faithfully',
     'Every x86-64 instruction the assembler accepts is encoded as machine code which the architecture manual decodes to exactly the written operation, operand size, registers, memory operand, displacement and immediate. Operands that cannot be represented are refused with an error and never silently altered.',
     ['inputs'], 'every supported instruction form, every register combination, every 64-bit immediate and every 32-bit displacement and scale',
     'Tests only run programs the compiler emits itself, which use a handful of registers and operand forms; the operand space (16 registers squared, 2^64 immediates, 2^32 displacements) is not sampled, and 45 of 135 forms were wrong while every test passed.',
     ['src/as/arch/x64/asm_code.c', 'src/as/arch/x64/inst.h', 'src/util/util.c'],
     [('per-opcode encoders and the dispatch table', 'src/as/arch/x64/asm_code.c assemble_inst'), ('REX/ModRM/SIB construction', 'MAKE_REX0, MAKE_REX_INDIRECT, put_rex0..2'), ('immediate range tests', 'src/util/util.c is_im8/is_im16/is_im32')],
     DED, note='Complete over the operand domain, no bound. Trusts spec/x86dec.h (decoder written from the manual) and the preconditions stated in the harness (operands the parser can build).')

prop('A03', 'RISC-V 64 assembler encodes every accepted instruction faithfully',
     'Every RV64GC instruction the assembler accepts, compressed or not, is encoded as machine code which the ISA manual decodes to exactly the written operation, registers, offset and immediate; a pseudo instruction (li, neg, sext, seqz, la, call, ...) expands to a sequence whose execution gives the register the documented value, for li every 64-bit constant. Operands that do not fit are refused and never silently truncated.',
     ['inputs'], 'every supported instruction, all 32 registers in every operand position, every 64-bit immediate and offset',
     'The test suite on this host never runs the RISC-V assembler; eight encodings were wrong (reserved or different instructions for particular registers, truncated offsets). Which compressed form applies depends on register numbers and bit patterns of the immediate that samples miss.',
     ['src/as/arch/riscv64/asm_code.c', 'src/as/arch/riscv64/riscv64_code.h', 'src/as/arch/riscv64/inst.h', 'src/util/util.c'],
     [('per-opcode encoders and dispatch', 'src/as/arch/riscv64/asm_code.c assemble_inst'), ('instruction word construction', 'src/as/arch/riscv64/riscv64_code.h'), ('constant materialisation', 'src/as/arch/riscv64/asm_code.c li_sub')],
     DED, note='Complete over the operand domain, no bound. Trusts spec/riscv.h (decoder and RVC expansion written from the manual).')

prop('F01', 'C expressions mean what the C standard says, folded or not',
     'The tree the parser builds for an expression has the type, the value and the side effects the C standard gives it: usual arithmetic conversions and integer promotions, wrap-around of every width and signedness, comparison and logical results, casts (to _Bool as well), ?:, assignment and compound assignment, operator precedence and associativity. An operand is evaluated exactly as often as C evaluates it. Constant folding and the algebraic simplifications never change a value or a type, for any constant.',
     ['inputs'], 'every binary operator, every pair of arithmetic types, operands variable or constant with any 64-bit value',
     'Tests sample a few constants per operator; folding depends on the exact constant (0, 1, -1, sign bit), on which side it stands and on both types. Eight such defects were present while every test passed.',
     ['src/cc/frontend/parser_expr.c', 'src/cc/frontend/fe_misc.c', 'src/cc/frontend/ast.c', 'src/cc/frontend/type.c', 'src/util/util.c'],
     [('binary operators and folding', 'src/cc/frontend/fe_misc.c new_expr_num_bop new_expr_int_bop new_expr_addsub new_expr_cmp'), ('conversions', 'src/cc/frontend/fe_misc.c cast_numbers promote_to_int make_cast'), ('precedence', 'src/cc/frontend/parser_expr.c parse_precedence'), ('assignment', 'src/cc/frontend/parser_expr.c assign_with transform_assign_with'), ('wrap-around', 'src/util/util.c wrap_value')],
     DED, note='Integer operands: every value. Floating operands and the pairs of two constants for * / %: enumerated values (bounded, labelled so). Overflow of signed types wraps, as the implementation defines. Products, quotients and shifts by variables are an uninterpreted function (the same function the code uses), so only their operands and order are compared.')

prop('L01', 'libc string, memory and character functions do what ISO C and POSIX define',
     'Each str*/mem*/is*/to* function that programs built with xcc link against returns the value and leaves the memory ISO C and POSIX prescribe, for every content (bytes are compared as unsigned char), every length, every overlap that is allowed and every position of a terminator; it never reads or writes outside of the given region, and never reads beyond a terminator or a limit.',
     ['inputs'], 'every byte content, every length, every placement of source and destination',
     'Tests call a few functions with a few ASCII words. Wrong results depend on bytes above 0x7f, on empty strings, on exact limits and on one-byte overlaps; eleven functions were wrong while every test passed.',
     ['libsrc/string/*.c', 'libsrc/misc/is*.c', 'libsrc/misc/to*.c'],
     [('memory functions with loop contracts', 'libsrc/string/memcpy.c memmove.c memset.c memchr.c'), ('string functions', 'libsrc/string/str*.c'), ('character classes', 'libsrc/misc/is*.c to*.c')],
     DED, note='memcpy, memmove, memset, memchr, strlen, strnlen, strchr and the ctype functions: every length (loop contracts, Skolem index). The others: every content up to the stated length (bounded, labelled so). Memory safety is an obligation of each job.')

prop('L02', 'libc number conversion, sorting and searching are right for every argument',
     'strtol, strtoul, strtoll, strtoull, atoi, atol convert every text to the value C defines, saturate at the limits of their type and report the end of the number; qsort leaves a permutation of whole elements in ascending order and only hands elements of the array to the comparison; bsearch finds an element iff there is one; calloc requests the exact product or refuses; abs and the rand48 family compute the documented values.',
     ['inputs'], 'every text, base, limit, array content and order, element size and count',
     'Limits, prefixes, bases and array permutations are sampled by a handful of tests. Base 0, an unsigned minus sign, and an overflowing calloc were wrong while every test passed.',
     ['libsrc/stdlib/*.c'],
     [('conversion', 'libsrc/stdlib/_strtoull_sub.c strtol.c strtoul.c strtoll.c strtoull.c'), ('sorting: recursion through its own contract', 'libsrc/stdlib/qsort.c'), ('searching', 'libsrc/stdlib/bsearch.c')],
     DED, note='The recursive calls of qsort are checked against the contract of qsort. Text length, element count and element size are bounded (stated per job); contents, limits and bases are not. errno is not claimed.')
