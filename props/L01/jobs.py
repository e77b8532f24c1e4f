from vprun import Job
ALL = {'ctype': 'isalnum isalpha isascii iscntrl isdigit isgraph islower isprint ispunct isspace isupper isxdigit tolower toupper', 'memcpy': 'memcpy', 'memmove': 'memmove',
       'memset': 'memset', 'memcmp': 'memcmp', 'memchr': 'memchr', 'memccpy': 'memccpy', 'strlen': 'strlen strnlen', 'strnlen_unterminated': 'strnlen strndup',
       'strchr': 'strchr strrchr', 'strcmp': 'strcmp strncmp', 'strcasecmp': 'strcasecmp strncasecmp', 'strcpy': 'strcpy stpcpy', 'strncpy': 'strncpy stpncpy',
       'strcat': 'strcat strncat', 'strspn': 'strspn strcspn strpbrk', 'strstr': 'strstr', 'strtok': 'strtok_r', 'strdup': 'strdup'}
# Loop contracts (assigns clause and invariant) for the unbounded jobs: loop number within the file, text.
E = '__CPROVER_loop_entry'
LOOPS = {
    'memcpy': [(0, """__CPROVER_assigns(n, s, d, __CPROVER_object_whole(dst))
__CPROVER_loop_invariant(n <= E(n) && s == (const char*)src + (E(n) - n) && d == (char*)dst + (E(n) - n))
__CPROVER_loop_invariant(((char*)dst)[vp_k] == (vp_k < E(n) - n ? ((const char*)src)[vp_k] : vp_old))""")],
    'memset': [(0, """__CPROVER_assigns(i, p, __CPROVER_object_whole(buf))
__CPROVER_loop_invariant(i <= size && p == (unsigned char*)buf + i)
__CPROVER_loop_invariant(((unsigned char*)buf)[vp_k] == (vp_k < i ? v : (unsigned char)vp_old))""")],
    'memmove': [(0, """__CPROVER_assigns(n, s, d, __CPROVER_object_whole(dst))
__CPROVER_loop_invariant(n <= E(n) && s == (const char*)src + n && d == (char*)dst + n)
__CPROVER_loop_invariant(OBJ[vp_k] == (vp_k >= A + n && vp_k < A + E(n) ? vp_old2 : vp_old))
__CPROVER_loop_invariant(!(vp_k >= A && vp_k < A + n) || OBJ[vp_k - A + B] == vp_old2)"""),
                (1, """__CPROVER_assigns(n, s, d, __CPROVER_object_whole(dst))
__CPROVER_loop_invariant(n <= E(n) && s == (const char*)src + (E(n) - n) && d == (char*)dst + (E(n) - n))
__CPROVER_loop_invariant(OBJ[vp_k] == (vp_k >= A && vp_k < A + (E(n) - n) ? vp_old2 : vp_old))
__CPROVER_loop_invariant(!(vp_k >= A + (E(n) - n) && vp_k < A + E(n)) || OBJ[vp_k - A + B] == vp_old2)""")],
    'memchr': [(0, """__CPROVER_assigns(p)
__CPROVER_loop_invariant(__CPROVER_same_object(p, buf) && OFF(p) >= OFF(buf) && OFF(p) <= OFF(buf) + n && (!(vp_k < OFF(p) - OFF(buf)) || ((const unsigned char*)buf)[vp_k] != ch))""")],
    'strlen': [(0, """__CPROVER_assigns(p)
__CPROVER_loop_invariant(__CPROVER_same_object(p, s) && OFF(p) >= OFF(s) && OFF(p) <= OFF(s) + vp_z && (!(vp_k < OFF(p) - OFF(s)) || s[vp_k] != 0))""")],
    'strnlen': [(0, """__CPROVER_assigns(len)
__CPROVER_loop_invariant(len <= n && (!(vp_k < len) || s[vp_k] != 0))""")],
    'strchr': [(0, """__CPROVER_assigns(s)
__CPROVER_loop_invariant(__CPROVER_same_object(s, E(s)) && OFF(s) >= OFF(E(s)) && OFF(s) <= OFF(E(s)) + vp_z && (!(vp_k < OFF(s) - OFF(E(s))) || (E(s)[vp_k] != ch && E(s)[vp_k] != 0)))""")],
}
LEVEL = 'proof'
TRUSTED = ['specifications of the string functions in props/L01/str.c (C11 7.24, 7.4, POSIX), CBMC loop contract instrumentation']
ASSUMPTIONS = ['malloc succeeds', 'objects smaller than 2^40 bytes in the unbounded jobs', 'char is signed as on x86-64',
               'the loop contracts of jobs.py are inserted behind the loop headers of a copy of the source, which is otherwise unchanged']
def jobs(tier):
    n = 4 if tier == 'quick' else 7
    r = []
    for e, f in ALL.items():
        for ln in range(n + 1) if e == 'strtok' else [None]:
            r.append(Job(e + ('' if ln is None else '-%d' % ln), 'str.c', entry='h_' + e, defs=['N=%d' % n] + ([] if ln is None else ['LEN=%d' % ln]), incs=['.'], unwind=2 * n + 4, functions=f.split(),
                         timeout=900 if tier != 'quick' else 200, solver=['--sat-solver', 'cadical'] if e in ('strspn', 'strtok') else [],
                         bounded=None if e == 'ctype' else 'buffers and strings of up to %d bytes' % n))
    b = {j.name: j for j in r}
    for e, cl in LOOPS.items():
        fix = lambda t: t.replace('OFF(', '(size_t)__CPROVER_POINTER_OFFSET(').replace('E(', E + '(').replace('OBJ', '((char*)dst - __CPROVER_POINTER_OFFSET(dst))').replace('A ', '__CPROVER_POINTER_OFFSET(dst) ').replace('B]', '__CPROVER_POINTER_OFFSET(src)]')
        rel = 'libsrc/string/%s.c' % e
        for d in (['VP_BACK=1', 'VP_BACK=0'] if e == 'memmove' else ['VP_BACK=0']):
          r.append(Job('unbounded-' + e + ('-backward' if d[-1] == '1' else ''), 'str.c', entry='u_' + e, defs=['VP_LOOPS=1', d, 'VP_SRC="%s"' % rel], incs=['.'], unwind=3, functions=[e], timeout=120, native=False, loops='simple',
                     annotate=[(rel, [(i, fix(t)) for i, t in cl])], solver=['--sat-solver', 'cadical'], cbmc_args=['--object-bits', '10'], fallback=b['strlen' if e == 'strnlen' else e]))
    return r
