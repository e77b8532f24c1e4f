// L02: numeric conversions, sorting, searching and allocation sizes of the C library (libsrc/stdlib).
#define _GNU_SOURCE
#include <alloca.h>
#include <ctype.h>
#include <limits.h>
#include <stdlib.h>
#include <string.h>
#include "vp.h"
#undef isspace
#undef tolower
#undef isxdigit
#define strtol xcc_strtol
#define strtoll xcc_strtoll
#define strtoul xcc_strtoul
#define strtoull xcc_strtoull
#define atoi xcc_atoi
#define atol xcc_atol
#define atoll xcc_atoll
#define bsearch xcc_bsearch
#define qsort xcc_qsort
#define nrand48 xcc_nrand48
#define lrand48 xcc_lrand48
#define srand48 xcc_srand48
#define calloc xcc_calloc
#define abs xcc_abs
#define labs xcc_labs
#define llabs xcc_llabs
#define isspace xcc_isspace
#define isupper xcc_isupper
#define isxdigit xcc_isxdigit
#define tolower xcc_tolower
long strtol(const char *, char **, int), lrand48(void), nrand48(unsigned short[3]), labs(long), atol(const char *);
long long strtoll(const char *, char **, int), llabs(long long), atoll(const char *);
unsigned long strtoul(const char *, char **, int);
unsigned long long strtoull(const char *, char **, int);
int atoi(const char *), abs(int), isspace(int), isupper(int), isxdigit(int), tolower(int);
void *bsearch(const void *, const void *, size_t, size_t, int (*)(const void *, const void *)), qsort(void *, size_t, size_t, int (*)(const void *, const void *)), *calloc(size_t, size_t),
    srand48(long);
#include "libsrc/misc/isspace.c"
#include "libsrc/misc/isupper.c"
#include "libsrc/misc/isxdigit.c"
#include "libsrc/misc/tolower.c"
#include "libsrc/stdlib/_parse_sign.c"
#include "libsrc/stdlib/_strtoull_sub.c"
#include "libsrc/stdlib/strtol.c"
#include "libsrc/stdlib/strtoll.c"
#include "libsrc/stdlib/strtoul.c"
#include "libsrc/stdlib/strtoull.c"
#include "libsrc/stdlib/atoi.c"
#include "libsrc/stdlib/atol.c"
#include "libsrc/stdlib/bsearch.c"
#ifndef LEN
#define LEN 4
#endif
#ifndef SZ
#define SZ 4
#endif
static unsigned char vp_a[(LEN + 1) * SZ];  // the array to sort
#ifndef VP_NATIVE
static void *vp_copy(void *d, const void *s, size_t n) {
  for (size_t k = 0; k < n; ++k) ((char *)d)[k] = ((const char *)s)[k];
  return d;
}
_Bool nondet_vp_b(void);
// The contract of qsort for the recursive calls: a proper part of the array, which ends up in ascending order (equal elements in any order).
static void vp_qsort(void *base, size_t nmemb, size_t size, int (*compare)(const void *, const void *)) {
  VP_ASSERT(__CPROVER_same_object(base, vp_a), "qsort recurses into the array");
  size_t off = (size_t)__CPROVER_POINTER_OFFSET(base);
  VP_ASSERT(nmemb < LEN && size == SZ && off % SZ == 0 && off / SZ + nmemb <= LEN, "qsort recurses into a proper part of the array");
  off /= SZ;
  for (int n = LEN - 1; n > 0; --n)
    for (int i = 0; i < n; ++i) {
      unsigned char *p = vp_a + i * SZ, *q = p + SZ, t;
      if ((size_t)i >= off && (size_t)i + 1 < off + nmemb && (*p > *q || (*p == *q && nondet_vp_b())))
        for (int k = 0; k < SZ; ++k) t = p[k], p[k] = q[k], q[k] = t;
    }
}
#undef memcpy
#undef qsort
#define memcpy vp_copy  // the contract of memcpy, proved in L01
#define VP_CAT(a, b) a##b
#define VP_CAT2(a, b) VP_CAT(a, b)
// the first occurrence in the file is the definition, every other one a recursive call
#define qsort VP_CAT2(vp_qsort_, __COUNTER__)
#define vp_qsort_1 vp_qsort
#define vp_qsort_2 vp_qsort
#define vp_qsort_3 vp_qsort
#define vp_qsort_4 vp_qsort
#include "libsrc/stdlib/qsort.c"
#undef memcpy
#undef qsort
#define qsort vp_qsort_0
#else
#include "libsrc/stdlib/qsort.c"
#endif
#include "libsrc/stdlib/nrand48.c"
#define xsubi lrand_xsubi
#include "libsrc/stdlib/lrand48.c"
#undef xsubi
#include "libsrc/stdlib/abs.c"
#include "libsrc/stdlib/labs.c"
#include "libsrc/stdlib/llabs.c"
static size_t vp_req;
static int vp_req_n;
static void *vp_malloc(size_t n) { vp_req = n; ++vp_req_n; return NULL; }
#define malloc vp_malloc
#include "libsrc/stdlib/calloc.c"
#undef malloc
typedef unsigned char U;
typedef unsigned long long ULL;
#define OK(c, id) VP_ASSERT(c, id)
#ifndef BASE
#define BASE 10
#endif
static char buf[32];
static void text(int len) {
  for (int i = 0; i < len; ++i) {
    VP_ND(U, byte);
    buf[i] = (char)byte;
  }
  buf[len] = '\0';
}
static int digit(int c, int base) {
  int d = c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'z' ? c - 'a' + 10 : c >= 'A' && c <= 'Z' ? c - 'A' + 10 : 99;
  return d < base ? d : -1;
}
// C11 7.22.1.4: value and end of the number at buf[pos..]; the value saturates at max.
static ULL spec(int pos, int base, ULL max, int *end) {
  int p = pos;
  if ((base == 0 || base == 16) && buf[p] == '0' && (buf[p + 1] == 'x' || buf[p + 1] == 'X') && digit(buf[p + 2], 16) >= 0)
    p += 2, base = 16;
  else if (base == 0)
    base = buf[p] == '0' ? 8 : 10;
  ULL v = 0;
  int over = 0;
  for (int i = 0; i < LEN; ++i) {
    int d = digit(buf[p], base);
    if (d < 0) break;
    unsigned __int128 w = (unsigned __int128)v * base + d;
    if (w > max) over = 1;
    v = (ULL)w;
    ++p;
  }
  *end = p;
  return over ? max : v;
}
static int space(int c) { return c == ' ' || (c >= 9 && c <= 13); }
// saturation for any limit
void h_sub(void) {
  VP_ND(ULL, max);
  text(LEN);
  int e;
  char *q;
  ULL w = spec(0, BASE, max, &e), r = _strtoull_sub(buf, &q, BASE, max);
  OK(r == w, "value of a number: saturates at the limit");
  OK(q == buf + e, "end of a number");
  VP_WITNESS("end");
}
#ifndef FN
#define FN 0
#endif
void h_conv(void) {
  text(LEN);
  int p = 0, e, neg = 0;
  for (int i = 0; i < LEN; ++i)
    if (i == p && space(buf[i])) ++p;
  if (buf[p] == '-' || buf[p] == '+') neg = buf[p++] == '-';
  ULL v = spec(p, BASE, ULLONG_MAX, &e);
  if (e == p) e = 0;
  char *q = NULL;
  ULL r = FN == 0 ? (ULL)strtol(buf, &q, BASE) : FN == 1 ? (ULL)strtoll(buf, &q, BASE) : FN == 2 ? strtoul(buf, &q, BASE) : FN == 3 ? strtoull(buf, &q, BASE) : 0;
  if (FN == 4) r = (ULL)(long long)atoi(buf), q = buf + e;
  if (FN == 5) r = (ULL)atol(buf), q = buf + e;
  OK(r == (neg ? 0 - v : v), "value of a number with sign");
  OK(q == buf + e, "end of a number with sign, the start if there is none");
  if (FN == 0) OK((ULL)strtol(buf, NULL, BASE) == r, "a null end pointer is accepted");
  VP_WITNESS("end");
}
// 19 and 20 digit numbers around the limits of long and unsigned long
void h_limits(void) {
  VP_ND(int, last);
  VP_ASSUME(0 <= last && last <= 9);
  memcpy(buf, " -922337203685477580x", 22);
  buf[20] = '0' + last;
  OK(strtol(buf + 2, NULL, 10) == (last <= 7 ? LONG_MAX - 7 + last : LONG_MAX), "strtol saturates at LONG_MAX");
  OK(strtol(buf, NULL, 10) == (last <= 8 ? LONG_MIN + 8 - last : LONG_MIN), "strtol saturates at LONG_MIN");
  OK(strtoll(buf + 2, NULL, 10) == (last <= 7 ? LLONG_MAX - 7 + last : LLONG_MAX), "strtoll saturates at LLONG_MAX");
  OK(strtoll(buf, NULL, 10) == (last <= 8 ? LLONG_MIN + 8 - last : LLONG_MIN), "strtoll saturates at LLONG_MIN");
  memcpy(buf, "1844674407370955161x", 21);
  buf[19] = '0' + last;
  OK(strtoul(buf, NULL, 10) == (last <= 5 ? ULONG_MAX - 5 + last : ULONG_MAX), "strtoul saturates at ULONG_MAX");
  OK(strtoull(buf, NULL, 10) == (last <= 5 ? ULLONG_MAX - 5 + last : ULLONG_MAX), "strtoull saturates at ULLONG_MAX");
  VP_WITNESS("end");
}
void h_abs(void) {
  VP_ND(int, i);
  VP_ND(long, l);
  VP_ASSUME(i != INT_MIN && l != LONG_MIN);
  OK(abs(i) >= 0 && (abs(i) == i || abs(i) == -i), "abs");
  OK(labs(l) >= 0 && (labs(l) == l || labs(l) == -l), "labs");
  OK(llabs(l) == labs(l), "llabs");
  VP_WITNESS("end");
}
// nrand48 against the 48-bit recurrence, computed 16 bits at a time
#ifndef PART
#define PART 0
#endif
static uint64_t vp_next(uint64_t x) {
  uint64_t p[3] = {x & 0xffff, x >> 16 & 0xffff, x >> 32 & 0xffff}, a[3] = {0xe66d, 0xdeec, 5};
  uint64_t w0 = p[0] * a[0] + 11, w1 = (w0 >> 16) + p[1] * a[0] + p[0] * a[1], w2 = (w1 >> 16) + p[2] * a[0] + p[1] * a[1] + p[0] * a[2];
  return (w0 & 0xffff) | (w1 & 0xffff) << 16 | (w2 & 0xffff) << 32;
}
void h_rand48(void) {
  static const uint64_t mask[6] = {0xffff, 0xffff0000, 0xffff00000000, 0xff0000ff, 0xf00f0000f00f, 0xff00000000ff};
  VP_ND(uint64_t, x);
  VP_ASSUME((x & ~mask[PART]) == 0);
  unsigned short s[3] = {(unsigned short)x, (unsigned short)(x >> 16), (unsigned short)(x >> 32)};
  uint64_t y = vp_next(x);
  long r = nrand48(s);
  OK(r == (long)(y >> 17), "nrand48 gives the high 31 bits of the next state");
  OK(s[0] == (unsigned short)y && s[1] == (unsigned short)(y >> 16) && s[2] == (unsigned short)(y >> 32), "nrand48 advances the 48-bit state");
  VP_WITNESS("end");
}
void h_srand48(void) {
  VP_ND(long, seed);
  srand48(seed);
  OK(lrand_xsubi[0] == 0x330e && lrand_xsubi[1] == (seed & 0xffff) && lrand_xsubi[2] == (seed >> 16 & 0xffff), "srand48 sets the state");
  unsigned short s[3] = {1, 2, 3};
  memcpy(lrand_xsubi, s, 6);
  OK(lrand48() == nrand48(s), "lrand48 uses the state");
  OK(lrand48() == nrand48(s), "lrand48 advances the state");
  VP_WITNESS("end");
}
void h_calloc(void) {
  VP_ND(size_t, n);
  VP_ND(size_t, s);
  VP_ASSUME(s == 0 || s == 1 || s == 3 || s == 8 || s == (size_t)1 << 40 || n <= 2);
  unsigned __int128 w = (unsigned __int128)n * s;
  void *p = calloc(n, s);
  OK(p == NULL && (vp_req_n == 0 ? w >> 64 != 0 : w == vp_req), "calloc asks for nmemb * size bytes or refuses an overflow");
  VP_WITNESS("end");
}
// keys are the first byte of an element; the rest is payload that has to travel with it
static int vp_ncmp;
static const char *vp_lo, *vp_hi;
static int cmpkey(const void *a, const void *b) {
  OK((const char *)a >= vp_lo && (const char *)a < vp_hi && (const char *)b >= vp_lo && (const char *)b < vp_hi, "compare is called with elements of the array");
  return (int)*(const U *)a - (int)*(const U *)b;
}
void h_qsort(void) {
  U *a = vp_a;
  static U o[LEN * SZ + 1];
  for (int i = 0; i < LEN; ++i) {
    VP_ND(U, key);
    a[i * SZ] = o[i * SZ] = key;
    for (int j = 1; j < SZ; ++j) a[i * SZ + j] = o[i * SZ + j] = (U)(i + 1);
  }
  a[LEN * SZ] = 77;
  vp_lo = (const char *)a, vp_hi = (const char *)a + LEN * SZ;
  qsort(a, LEN, SZ, cmpkey);
  int cnt[LEN + 1] = {0};
  for (int i = 0; i < LEN; ++i) {
    if (i > 0) OK(a[(i - 1) * SZ] <= a[i * SZ], "qsort: ascending order");
    if (SZ > 1) {
      int id = a[i * SZ + 1];
      OK(id >= 1 && id <= LEN && a[i * SZ] == o[(id - 1) * SZ], "qsort: an element keeps its bytes");
      OK(cnt[id]++ == 0, "qsort: the result is a permutation");
      for (int j = 2; j < SZ; ++j) OK(a[i * SZ + j] == id, "qsort: whole elements are moved");
    } else {
      int x = 0, y = 0;
      for (int j = 0; j < LEN; ++j) x += a[j] == a[i], y += o[j] == a[i];
      OK(x == y, "qsort: the result is a permutation");
    }
  }
  OK(a[LEN * SZ] == 77, "qsort: bytes outside of the array are untouched");
  VP_WITNESS("end");
}
static int cmpint(const void *a, const void *b) { return *(const int *)a < *(const int *)b ? -1 : *(const int *)a > *(const int *)b; }
void h_bsearch(void) {
  static int a[LEN + 1];
  VP_ND(int, n);
  VP_ND(int, key);
  VP_ASSUME(0 <= n && n <= LEN);
  int found = 0;
  for (int i = 0; i < LEN; ++i) {
    VP_ND_SET(a[i], elem);
    if (i > 0) VP_ASSUME(a[i - 1] <= a[i]);
    if (i < n && a[i] == key) found = 1;
  }
  int *r = bsearch(&key, a, n, sizeof(int), cmpint);
  OK(r == NULL ? !found : r >= a && r < a + n && *r == key, "bsearch finds an element equal to the key iff there is one");
  VP_WITNESS("end");
}
#ifdef VP_NATIVE
VP_MAIN(VP_ENTRY)
#endif
