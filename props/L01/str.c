// L01: the string, memory and character functions of the C library (libsrc/string, libsrc/misc).
//
// Every function is the real one, included below under a prefixed name; the oracle is the text of C11 7.24,
// 7.4 and POSIX, written here as quantifier-free conditions over small buffers (bounded jobs) or over one
// arbitrary index (unbounded jobs, see jobs.py: loop contracts).
#define _GNU_SOURCE
#define __NO_CTYPE
#include <ctype.h>
#include <stdlib.h>
#include <string.h>
#include <strings.h>
#include "vp.h"
#undef isalnum
#undef isalpha
#undef isascii
#undef iscntrl
#undef isdigit
#undef isgraph
#undef islower
#undef isprint
#undef ispunct
#undef isspace
#undef isupper
#undef isxdigit
#undef tolower
#undef toupper
#define F(n) xcc_##n
#define memccpy F(memccpy)
#define memchr F(memchr)
#define memcmp F(memcmp)
#define memcpy F(memcpy)
#define memmove F(memmove)
#define memset F(memset)
#define stpcpy F(stpcpy)
#define stpncpy F(stpncpy)
#define strcasecmp F(strcasecmp)
#define strcat F(strcat)
#define strchr F(strchr)
#define strcmp F(strcmp)
#define strcoll F(strcoll)
#define strcpy F(strcpy)
#define strcspn F(strcspn)
#define strdup F(strdup)
#define strlen F(strlen)
#define strncasecmp F(strncasecmp)
#define strncat F(strncat)
#define strncmp F(strncmp)
#define strncpy F(strncpy)
#define strndup F(strndup)
#define strnlen F(strnlen)
#define strpbrk F(strpbrk)
#define strrchr F(strrchr)
#define strspn F(strspn)
#define strstr F(strstr)
#define strtok_r F(strtok_r)
#define strtok F(strtok)
#define isalnum F(isalnum)
#define isalpha F(isalpha)
#define isascii F(isascii)
#define iscntrl F(iscntrl)
#define isdigit F(isdigit)
#define isgraph F(isgraph)
#define islower F(islower)
#define isprint F(isprint)
#define ispunct F(ispunct)
#define isspace F(isspace)
#define isupper F(isupper)
#define isxdigit F(isxdigit)
#define tolower F(tolower)
#define toupper F(toupper)
int isalnum(int), isalpha(int), isascii(int), iscntrl(int), isdigit(int), isgraph(int), islower(int), isprint(int), ispunct(int), isspace(int), isupper(int),
    isxdigit(int), tolower(int), toupper(int);
void *memccpy(void *, const void *, int, size_t), *memchr(const void *, int, size_t), *memcpy(void *, const void *, size_t), *memmove(void *, const void *, size_t),
    *memset(void *, int, size_t);
char *stpcpy(char *, const char *), *stpncpy(char *, const char *, size_t), *strcat(char *, const char *), *strchr(const char *, int), *strcpy(char *, const char *),
    *strdup(const char *), *strncat(char *, const char *, size_t), *strncpy(char *, const char *, size_t), *strndup(const char *, size_t), *strpbrk(const char *, const char *),
    *strrchr(const char *, int), *strstr(const char *, const char *), *strtok_r(char *, const char *, char **);
int memcmp(const void *, const void *, size_t), strcasecmp(const char *, const char *), strcmp(const char *, const char *), strncasecmp(const char *, const char *, size_t),
    strncmp(const char *, const char *, size_t);
size_t strcspn(const char *, const char *), strlen(const char *), strnlen(const char *, size_t), strspn(const char *, const char *);
#ifndef VP_LOOPS      // the unbounded jobs link the annotated sources separately
#include "libsrc/string/strnlen.c"
#include "libsrc/string/strlen.c"
#include "libsrc/string/memccpy.c"
#include "libsrc/string/memchr.c"
#include "libsrc/string/memcmp.c"
#include "libsrc/string/memcpy.c"
#include "libsrc/string/memmove.c"
#include "libsrc/string/memset.c"
#include "libsrc/string/stpcpy.c"
#include "libsrc/string/stpncpy.c"
#include "libsrc/string/strcasecmp.c"
#include "libsrc/string/strcat.c"
#include "libsrc/string/strchr.c"
#include "libsrc/string/strcmp.c"
#include "libsrc/string/strcpy.c"
#include "libsrc/string/strcspn.c"
#include "libsrc/string/strdup.c"
#include "libsrc/string/strncasecmp.c"
#include "libsrc/string/strncat.c"
#include "libsrc/string/strncmp.c"
#include "libsrc/string/strncpy.c"
#include "libsrc/string/strndup.c"
#include "libsrc/string/strpbrk.c"
#include "libsrc/string/strrchr.c"
#include "libsrc/string/strspn.c"
#include "libsrc/string/strstr.c"
#include "libsrc/string/strtok_r.c"
#include "libsrc/misc/isalnum.c"
#include "libsrc/misc/isalpha.c"
#include "libsrc/misc/isascii.c"
#include "libsrc/misc/iscntrl.c"
#include "libsrc/misc/isdigit.c"
#include "libsrc/misc/isgraph.c"
#include "libsrc/misc/islower.c"
#include "libsrc/misc/isprint.c"
#include "libsrc/misc/ispunct.c"
#include "libsrc/misc/isspace.c"
#include "libsrc/misc/isupper.c"
#include "libsrc/misc/isxdigit.c"
#include "libsrc/misc/tolower.c"
#include "libsrc/misc/toupper.c"

#ifndef N
#define N 4
#endif
typedef unsigned char U;
// Exact-size objects: the verifier sees every access outside of them.
static char *obj(int n) { char *p = malloc(n); VP_ASSUME(p != NULL); return p; }
static char *bytes(int n, const char *dummy, int id) {
  char *p = obj(n);
  for (int i = 0; i < n; ++i) {
    VP_ND(U, byte);
    p[i] = (char)byte;
  }
  (void)dummy; (void)id;
  return p;
}
// A string of one concrete length.
static char *strk(int len) {
  char *p = obj(len + 1);
  for (int i = 0; i < len; ++i) {
    VP_ND(U, byte);
    VP_ASSUME(byte != 0);
    p[i] = (char)byte;
  }
  p[len] = '\0';
  return p;
}
// A string of symbolic length 0..n with its object ending at the terminator.
static int vp_len;
static char *str(int n) {
  VP_ND(int, len);
  VP_ASSUME(0 <= len && len <= n);
  char *p = obj(len + 1);
  for (int i = 0; i < n; ++i) {
    VP_ND(U, byte);
    VP_ASSUME(byte != 0);
    if (i < len) p[i] = (char)byte;
  }
  p[len] = '\0';
  vp_len = len;
  return p;
}
static char *copy(const char *s, int n) {
  char *p = obj(n);
  for (int i = 0; i < n; ++i) p[i] = s[i];
  return p;
}
static int sgn(int x) { return (x > 0) - (x < 0); }
static int lower(int c) { return 'A' <= c && c <= 'Z' ? c + 32 : c; }
#define OK(c, id) VP_ASSERT(c, id)

void h_ctype(void) {
  VP_ND(int, c);
  VP_ASSUME(-1 <= c && c <= 255);
  int up = c >= 65 && c <= 90, lo = c >= 97 && c <= 122, dg = c >= 48 && c <= 57, pr = c >= 32 && c <= 126;
  int sp = c == 32 || (c >= 9 && c <= 13);
  OK(!isupper(c) == !up, "isupper");
  OK(!islower(c) == !lo, "islower");
  OK(!isalpha(c) == !(up || lo), "isalpha");
  OK(!isdigit(c) == !dg, "isdigit");
  OK(!isalnum(c) == !(up || lo || dg), "isalnum");
  OK(!isxdigit(c) == !(dg || (c >= 65 && c <= 70) || (c >= 97 && c <= 102)), "isxdigit");
  OK(!isspace(c) == !sp, "isspace");
  OK(!isprint(c) == !pr, "isprint");
  OK(!isgraph(c) == !(pr && c != 32), "isgraph");
  OK(!ispunct(c) == !(pr && c != 32 && !up && !lo && !dg), "ispunct");
  OK(!iscntrl(c) == !((c >= 0 && c < 32) || c == 127), "iscntrl");
  OK(!isascii(c) == !(c >= 0 && c < 128), "isascii");
  OK(tolower(c) == (up ? c + 32 : c), "tolower");
  OK(toupper(c) == (lo ? c - 32 : c), "toupper");
  VP_WITNESS("end");
}
void h_memcpy(void) {
  VP_ND(int, n);
  VP_ASSUME(0 <= n && n <= N);
  char *s = bytes(N, 0, 0), *d = bytes(N, 0, 1), *s0 = copy(s, N), *d0 = copy(d, N);
  OK(memcpy(d, s, n) == d, "memcpy returns dst");
  for (int i = 0; i < N; ++i) {
    OK(d[i] == (i < n ? s0[i] : d0[i]), "memcpy copies n bytes and touches no other");
    OK(s[i] == s0[i], "memcpy leaves the source");
  }
  VP_WITNESS("end");
}
void h_memmove(void) {
  VP_ND(int, n);
  VP_ND(int, a);
  VP_ND(int, b);
  VP_ASSUME(0 <= n && n <= N && 0 <= a && a <= N - n && 0 <= b && b <= N - n);
  char *m = bytes(N, 0, 0), *m0 = copy(m, N);
  OK(memmove(m + a, m + b, n) == m + a, "memmove returns dst");
  for (int i = 0; i < N; ++i)
    OK(m[i] == (a <= i && i < a + n ? m0[i - a + b] : m0[i]), "memmove moves overlapping bytes");
  VP_WITNESS("end");
}
void h_memset(void) {
  VP_ND(int, n);
  VP_ND(int, v);
  VP_ASSUME(0 <= n && n <= N);
  char *d = bytes(N, 0, 0), *d0 = copy(d, N);
  OK(memset(d, v, n) == d, "memset returns dst");
  for (int i = 0; i < N; ++i)
    OK((U)d[i] == (i < n ? (U)v : (U)d0[i]), "memset sets n bytes and touches no other");
  VP_WITNESS("end");
}
void h_memcmp(void) {
  VP_ND(int, n);
  VP_ASSUME(0 <= n && n <= N);
  char *a = bytes(n, 0, 0), *b = bytes(n, 0, 1);
  int w = 0;
  for (int i = n - 1; i >= 0; --i)
    if (a[i] != b[i]) w = (U)a[i] < (U)b[i] ? -1 : 1;
  OK(sgn(memcmp(a, b, n)) == w, "memcmp compares as unsigned char");
  VP_WITNESS("end");
}
void h_memchr(void) {
  VP_ND(int, n);
  VP_ND(int, c);
  VP_ASSUME(0 <= n && n <= N);
  char *a = bytes(n, 0, 0), *w = NULL;
  for (int i = n - 1; i >= 0; --i)
    if ((U)a[i] == (U)c) w = a + i;
  OK(memchr(a, c, n) == (void *)w, "memchr finds the first byte");
  VP_WITNESS("end");
}
void h_memccpy(void) {
  VP_ND(int, n);
  VP_ND(int, c);
  VP_ASSUME(0 <= n && n <= N);
  char *s = bytes(N, 0, 0), *d = bytes(N, 0, 1), *d0 = copy(d, N);
  int k = n, found = 0;
  for (int i = n - 1; i >= 0; --i)
    if ((U)s[i] == (U)c) k = i + 1, found = 1;
  OK(memccpy(d, s, c, n) == (void *)(found ? d + k : NULL), "memccpy returns the byte after the copied c, or NULL");
  for (int i = 0; i < N; ++i)
    OK(d[i] == (i < k ? s[i] : d0[i]), "memccpy copies up to and including c");
  VP_WITNESS("end");
}
void h_strlen(void) {
  char *s = str(N);
  int len = vp_len;
  VP_ND(size_t, n);
  OK(strlen(s) == (size_t)len, "strlen");
  OK(strnlen(s, n) == (n < (size_t)len ? n : (size_t)len), "strnlen");
  VP_WITNESS("end");
}
void h_strnlen_unterminated(void) {
  VP_ND(int, n);
  VP_ASSUME(0 <= n && n <= N);
  char *s = bytes(n, 0, 0);
  int w = n;
  for (int i = n - 1; i >= 0; --i)
    if (s[i] == 0) w = i;
  OK(strnlen(s, n) == (size_t)w, "strnlen stays inside n bytes");
  char *p = strndup(s, n);
  VP_ASSUME(p != NULL);
  for (int i = 0; i < n; ++i)
    if (i < w) OK(p[i] == s[i], "strndup copies the bytes of the string");
  OK(p[w] == '\0', "strndup terminates the copy");
  VP_WITNESS("end");
}
void h_strchr(void) {
  char *s = str(N), *f = NULL, *l = NULL;
  int len = vp_len;
  VP_ND(int, c);
  for (int i = 0; i <= N; ++i)
    if (i <= len && (U)s[i] == (U)c) { if (f == NULL) f = s + i; l = s + i; }
  OK(strchr(s, c) == f, "strchr finds the first occurrence, the terminator included");
  OK(strrchr(s, c) == l, "strrchr finds the last occurrence, the terminator included");
  VP_WITNESS("end");
}
static int cmp(const char *a, const char *b, size_t n, int fold) {
  for (size_t i = 0; i < n && i <= N; ++i) {
    int x = (U)a[i], y = (U)b[i];
    if (fold) x = lower(x), y = lower(y);
    if (x != y) return x < y ? -1 : 1;
    if (x == 0) return 0;
  }
  return 0;
}
void h_strcmp(void) {
  char *a = str(N), *b = str(N);
  VP_ND(size_t, n);
  OK(sgn(strcmp(a, b)) == cmp(a, b, N + 1, 0), "strcmp compares as unsigned char");
  OK(sgn(strncmp(a, b, n)) == cmp(a, b, n, 0), "strncmp compares at most n characters");
  VP_WITNESS("end");
}
void h_strcasecmp(void) {
  char *a = str(N), *b = str(N);
  VP_ND(size_t, n);
  OK(sgn(strcasecmp(a, b)) == cmp(a, b, N + 1, 1), "strcasecmp ignores case");
  OK(sgn(strncasecmp(a, b, n)) == cmp(a, b, n, 1), "strncasecmp ignores case, at most n characters");
  VP_WITNESS("end");
}
void h_strcpy(void) {
  char *s = str(N);
  int len = vp_len;
  char *d = bytes(N + 2, 0, 0), *d0 = copy(d, N + 2), *e = copy(d, N + 2);
  OK(strcpy(d, s) == d, "strcpy returns dst");
  OK(stpcpy(e, s) == e + len, "stpcpy returns the address of the terminator");
  for (int i = 0; i < N + 2; ++i) {
    OK(d[i] == (i <= len ? s[i] : d0[i]), "strcpy copies the string and its terminator only");
    OK(e[i] == (i <= len ? s[i] : d0[i]), "stpcpy copies the string and its terminator only");
  }
  VP_WITNESS("end");
}
void h_strncpy(void) {
  VP_ND(int, n);
  VP_ASSUME(0 <= n && n <= N + 1);
  char *s = str(N);
  int len = vp_len;
  char *d = bytes(N + 1, 0, 0), *d0 = copy(d, N + 1), *e = copy(d, N + 1);
  OK(strncpy(d, s, n) == d, "strncpy returns dst");
  OK(stpncpy(e, s, n) == e + (len < n ? len : n), "stpncpy returns the address of the terminator or dst + n");
  for (int i = 0; i < N + 1; ++i) {
    char w = i < n ? (i < len ? s[i] : 0) : d0[i];
    OK(d[i] == w, "strncpy copies and pads with zeros up to n bytes");
    OK(e[i] == w, "stpncpy copies and pads with zeros up to n bytes");
  }
  VP_WITNESS("end");
}
void h_strcat(void) {
  VP_ND(size_t, n);
  char *s = str(N);
  int len = vp_len;
  char *d = bytes(2 * N + 1, 0, 0);
  VP_ND(int, dl);
  VP_ASSUME(0 <= dl && dl <= N);
  for (int i = 0; i < N; ++i) VP_ASSUME(i >= dl || d[i] != 0);
  d[dl] = '\0';
  char *d0 = copy(d, 2 * N + 1), *e = copy(d, 2 * N + 1);
  int m = n < (size_t)len ? (int)n : len;
  OK(strcat(d, s) == d, "strcat returns dst");
  OK(strncat(e, s, n) == e, "strncat returns dst");
  for (int i = 0; i < 2 * N + 1; ++i) {
    OK(d[i] == (i < dl ? d0[i] : i < dl + len ? s[i - dl] : i == dl + len ? 0 : d0[i]), "strcat appends the string");
    OK(e[i] == (i < dl ? d0[i] : i < dl + m ? s[i - dl] : i == dl + m ? 0 : d0[i]), "strncat appends at most n characters and a terminator");
  }
  VP_WITNESS("end");
}
static int in(const char *set, int n, char c) {
  for (int i = 0; i < n; ++i)
    if (set[i] == c) return 1;
  return 0;
}
static void strspn_case(int len, int al) {
  char *s = strk(len), *a = strk(al);
  int sp = len, cs = len;
  for (int i = len - 1; i >= 0; --i) {
    if (in(a, al, s[i])) cs = i;
    else sp = i;
  }
  OK(strspn(s, a) == (size_t)sp, "strspn");
  OK(strcspn(s, a) == (size_t)cs, "strcspn");
  OK(strpbrk(s, a) == (cs < len ? s + cs : NULL), "strpbrk");
}
void h_strspn(void) {
  for (int len = 0; len <= N; ++len)
    for (int al = 0; al <= 2; ++al)
      strspn_case(len, al);
  VP_WITNESS("end");
}
void h_strstr(void) {
  char *s = str(N);
  int len = vp_len;
  char *t = str(N - 1), *w = NULL;
  int tl = vp_len;
  for (int i = N; i >= 0; --i) {
    int eq = i + tl <= len;
    for (int j = 0; j < N - 1; ++j)
      if (eq && j < tl && s[i + j] != t[j]) eq = 0;
    if (eq) w = s + i;
  }
  OK(strstr(s, t) == w, "strstr finds the first occurrence");
  VP_WITNESS("end");
}
static void strtok_case(int len, int dl) {
  char *s = strk(len), *d = strk(dl), *s0 = copy(s, len + 1), *save, *p = s;
  int pos = 0;
  for (int t = 0; t < (len + 1) / 2 + 1; ++t) {
    char *r = strtok_r(p, d, &save);
    p = NULL;
    for (int i = 0; i < len; ++i)
      if (i == pos && in(d, dl, s0[i])) ++pos;
    if (pos == len) {
      OK(r == NULL, "strtok_r ends with NULL");
      continue;
    }
    OK(r == s + pos, "strtok_r returns the next token");
    int b = pos;
    for (int i = 0; i < len; ++i)
      if (i == pos && !in(d, dl, s0[i])) ++pos;
    for (int i = 0; i < len; ++i)
      if (b <= i && i < pos) OK(s[i] == s0[i], "strtok_r keeps the characters of the token");
    OK(s[pos] == '\0', "strtok_r terminates the token");
    if (pos < len) ++pos;
  }
}
#ifndef LEN
#define LEN N
#endif
void h_strtok(void) {
  for (int dl = 0; dl <= 2; ++dl)
    strtok_case(LEN, dl);
  VP_WITNESS("end");
}
void h_strdup(void) {
  char *s = str(N);
  int len = vp_len;
  char *p = strdup(s);
  VP_ASSUME(p != NULL);
  OK(p != s, "strdup returns a new object");
  for (int i = 0; i <= N; ++i)
    if (i <= len) OK(p[i] == s[i], "strdup copies the string");
  VP_WITNESS("end");
}
#else
// ---------------------------------------------------------------- unbounded: one arbitrary index, loop contracts
// vp_k is an arbitrary index the contracts talk about, vp_z an index holding a terminator, vp_old/vp_old2 the bytes at vp_k before the call.
size_t vp_k, vp_z;
char vp_old, vp_old2;
#include VP_SRC
#define BIG ((size_t)1 << 40)
static char *mem(size_t n) { char *p = malloc(n); VP_ASSUME(p != NULL); return p; }
static void index_below(size_t n) { size_t k; VP_ASSUME(k < n); vp_k = k; }
// an object of arbitrary size with a terminator at vp_z
static char *zstr(void) {
  size_t cap, z;
  VP_ASSUME(cap > 0 && cap < BIG && z < cap);
  char *s = mem(cap);
  s[z] = '\0';
  vp_z = z;
  return s;
}
void u_memcpy(void) {
  size_t n, m;
  VP_ASSUME(n <= m && 0 < m && m < BIG);
  char *s = mem(m), *d = mem(m);
  index_below(m);
  char ds = d[vp_k], ss = s[vp_k];
  vp_old = ds;
  VP_ASSERT(xcc_memcpy(d, s, n) == d, "memcpy returns dst");
  VP_ASSERT(d[vp_k] == (vp_k < n ? ss : ds) && s[vp_k] == ss, "memcpy copies n bytes and touches no other, every size");
  VP_WITNESS("end");
}
void u_memmove(void) {
  size_t n, m, a, b;
  VP_ASSUME(0 < m && m < BIG && n <= m && a <= m - n && b <= m - n);
  VP_ASSUME(VP_BACK ? a > b && a < b + n : !(a > b && a < b + n));
  char *p = mem(m);
  index_below(m);
  char old = p[vp_k], from = vp_k >= a && vp_k < a + n ? p[vp_k - a + b] : 0;
  vp_old = old, vp_old2 = from;
  VP_ASSERT(xcc_memmove(p + a, p + b, n) == p + a, "memmove returns dst");
  VP_ASSERT(p[vp_k] == (vp_k >= a && vp_k < a + n ? from : old), "memmove moves overlapping bytes, every size");
  VP_WITNESS("end");
}
void u_memset(void) {
  size_t n, m;
  int v;
  VP_ASSUME(n <= m && 0 < m && m < BIG);
  char *d = mem(m);
  index_below(m);
  char ds = d[vp_k];
  vp_old = ds;
  VP_ASSERT(xcc_memset(d, v, n) == d, "memset returns dst");
  VP_ASSERT(d[vp_k] == (vp_k < n ? (char)v : ds), "memset sets n bytes and touches no other, every size");
  VP_WITNESS("end");
}
void u_memchr(void) {
  size_t n;
  int c;
  VP_ASSUME(0 < n && n < BIG);
  char *s = mem(n);
  index_below(n);
  char *r = xcc_memchr(s, c, n);
  VP_ASSERT(r == NULL ? (unsigned char)s[vp_k] != (unsigned char)c : __CPROVER_same_object(r, s) && r >= s && r < s + n && (unsigned char)*r == (unsigned char)c, "memchr finds a byte in range");
  VP_ASSERT(r == NULL || !(vp_k < (size_t)(r - s)) || (unsigned char)s[vp_k] != (unsigned char)c, "memchr finds the first byte, every size");
  VP_WITNESS("end");
}
void u_strlen(void) {
  char *s = zstr();
  index_below(vp_z + 1);
  size_t r = xcc_strlen(s);
  VP_ASSERT(r <= vp_z && s[r] == '\0', "strlen gives the index of a terminator");
  VP_ASSERT(!(vp_k < r) || s[vp_k] != '\0', "strlen gives the first terminator, every length");
  VP_WITNESS("end");
}
void u_strnlen(void) {
  size_t n;
  VP_ASSUME(0 < n && n < BIG);
  char *s = mem(n);
  index_below(n);
  size_t r = xcc_strnlen(s, n);
  VP_ASSERT(r <= n && (r == n || s[r] == '\0'), "strnlen gives a terminator or n");
  VP_ASSERT(!(vp_k < r) || s[vp_k] != '\0', "strnlen gives the first terminator, every length");
  VP_WITNESS("end");
}
void u_strchr(void) {
  char *s = zstr();
  int c;
  index_below(vp_z + 1);
  char *r = xcc_strchr(s, c);
  VP_ASSERT(r == NULL || (__CPROVER_same_object(r, s) && r >= s && r <= s + vp_z && *r == (char)c), "strchr finds the character inside the string");
  VP_ASSERT(r == NULL || !(vp_k < (size_t)(r - s)) || (s[vp_k] != (char)c && s[vp_k] != '\0'), "strchr finds the first occurrence, every length");
  VP_ASSERT(r != NULL || (char)c != '\0', "strchr finds the terminator");
  VP_WITNESS("end");
}
#endif
#ifdef VP_NATIVE
VP_MAIN(VP_ENTRY)
#endif
