// Harness vocabulary shared by every proof in /verif.
//
//   VP_ND(T, n)        a fresh, unconstrained input of scalar type T called n
//   VP_ASSUME(c)       precondition
//   VP_ASSERT(c, id)   obligation (postcondition, invariant, frame condition)
//   VP_WITNESS(id)     vacuity guard: this point must be reachable under the preconditions
//
// Under CBMC these are the verification primitives.  With -DVP_NATIVE the same harness is an
// ordinary C program that replays one counterexample (inputs are read from the file named by
// $VP_INPUTS) against the real code compiled by gcc.
#pragma once
#include <stdint.h>
#include <stddef.h>
#include <stdbool.h>

#ifdef VP_NATIVE
#include <stdio.h>
#include <stdlib.h>
#include <string.h>

static struct { char name[64]; unsigned long long v; int used; } vp_in[4096];
static int vp_nin = -1;
static inline void vp_load(void) {
  vp_nin = 0;
  const char *fn = getenv("VP_INPUTS");
  FILE *fp = fn != NULL ? fopen(fn, "r") : NULL;
  if (fp == NULL)
    return;
  while (vp_nin < 4096 && fscanf(fp, "%63s %llu", vp_in[vp_nin].name, &vp_in[vp_nin].v) == 2)
    vp_in[vp_nin++].used = 0;
  fclose(fp);
}
static inline unsigned long long vp_input(const char *name) {
  if (vp_nin < 0)
    vp_load();
  for (int i = 0; i < vp_nin; ++i) {
    if (!vp_in[i].used && strcmp(vp_in[i].name, name) == 0) {
      vp_in[i].used = 1;
      return vp_in[i].v;
    }
  }
  return 0;
}
static inline void vp_fail(const char *id) {
  printf("VP-FAIL %s\n", id);
  fflush(stdout);
  _Exit(3);
}
static inline void vp_assume_fail(const char *c) {
  printf("VP-ASSUME %s\n", c);
  fflush(stdout);
  _Exit(4);
}
#define VP_ND(T, n)       T n = (T)vp_input(#n)
#define VP_ND_SET(l, n)   do { (l) = (__typeof__(l))vp_input(#n); } while (0)
#define VP_ASSUME(c)      do { if (!(c)) vp_assume_fail(#c); } while (0)
#define VP_ASSERT(c, id)  do { if (!(c)) vp_fail(id); } while (0)
#define VP_WITNESS(id)    ((void)0)
#define VP_STOP()         do { printf("VP-STOP\n"); fflush(stdout); _Exit(0); } while (0)
static inline double vp_bits2d(unsigned long long b) { double d; memcpy(&d, &b, 8); return d; }
#define VP_ND_DOUBLE(n)   double n = vp_bits2d(vp_input(#n))
#else
#define VP_ND(T, n)       T n; __CPROVER_input(#n, n)
#define VP_ND_SET(l, n)   do { __typeof__(l) vp_fresh; (l) = vp_fresh; __CPROVER_input(#n, (l)); } while (0)
#define VP_ASSUME(c)      __CPROVER_assume(c)
#define VP_ASSERT(c, id)  __CPROVER_assert((c), id)
#ifdef VP_NO_WITNESS
#define VP_WITNESS(id)    ((void)0)
#else
#define VP_WITNESS(id)    __CPROVER_assert(0, "WITNESS " id)
#endif
#define VP_STOP()         __CPROVER_assume(0)
#define VP_ND_DOUBLE(n)   double n; __CPROVER_input(#n, n)
#endif

// Policy for the repository's own assert(): an abort is a refusal when vp_abort_ok is set,
// otherwise it is a failed obligation (a valid input must not abort the program).
static int vp_abort_ok;
static inline void vp_assert_abort(void) {
  VP_ASSERT(vp_abort_ok, "no-internal-assert-abort");
  VP_STOP();
}

#ifdef VP_NATIVE
#define VP_MAIN(f) int main(void) { f(); printf("VP-PASS\n"); return 0; }
#else
#define VP_MAIN(f)
#endif
#ifndef VP_NO_ASSERT_IMPL
void vp_repo_assert_failed(void) { vp_assert_abort(); }
#endif
