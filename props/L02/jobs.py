from vprun import Job
LEVEL = 'proof'
TRUSTED = ['specifications in props/L02/lib.c (C11 7.22, POSIX drand48)']
ASSUMPTIONS = ['errno is not part of the property', 'the order of a comparison function is a total preorder']
def J(name, entry, fn, bounded=None, unwind=12, **d):
    return Job(name, 'lib.c', entry=entry, defs=['%s=%s' % kv for kv in d.items()], incs=['.'], unwind=unwind, max_unwind=40, functions=fn.split(), bounded=bounded, timeout=400,
               solver=['--sat-solver', 'cadical'], weight=2 if 'qsort' in name or 'limits' in name else 1)
FN = 'strtol strtoll strtoul strtoull atoi atol'.split()
def jobs(tier):
    th = tier != 'quick'
    r = [J('abs', 'h_abs', 'abs labs llabs'), J('srand48', 'h_srand48', 'lrand48 srand48'), J('calloc', 'h_calloc', 'calloc', bounded='element sizes 0, 1, 3, 8, 2^40 or at most 2 elements'),
         J('limits', 'h_limits', 'strtol strtoll strtoul strtoull _strtoull_sub', unwind=24, bounded='19 and 20 digit numbers next to the limits')]
    for i in (range(6) if th else (2, 4, 5)):
        r.append(J('nrand48-%d' % i, 'h_rand48', 'nrand48', PART=i, bounded='states with 16 selected bits set freely, the others 0'))
    for b in (0, 2, 8, 10, 16, 36) if not th else range(0, 37):
        if b == 1: continue
        for ln in (3, 4) if not th else range(0, 6):
            r.append(J('sub-%d-%d' % (b, ln), 'h_sub', '_strtoull_sub', BASE=b, LEN=ln, bounded='numbers of %d characters, any limit' % ln))
    for f, n in enumerate(FN):
        for b in (10,) if f >= 4 else (0, 16, 10) if not th else (0, 2, 8, 10, 16, 36):
            for ln in (4,) if not th else (0, 3, 5):
                r.append(J('conv-%s-%d-%d' % (n, b, ln), 'h_conv', n + ' _parse_sign _strtoull_sub', BASE=b, LEN=ln, FN=f, bounded='texts of %d characters' % ln))
    for n in range(0, 5 if not th else 7):
        for sz in (1, 3) if not th else (1, 2, 3, 8):
            if n > 0: r.append(J('qsort-%d-%d' % (n, sz), 'h_qsort', 'qsort', unwind=max(n,sz)+2, LEN=n, SZ=sz, bounded='%d elements of %d bytes' % (n, sz)))
    r.append(J('bsearch', 'h_bsearch', 'bsearch', LEN=6 if not th else 12, bounded='up to %d elements' % (6 if not th else 12)))
    return r
