/* cases decided by cbmc on the encoded code, and replayed natively on the real objects */
#ifndef CB_H_
#define CB_H_
typedef unsigned long u64; typedef unsigned char u8;
#ifdef __CPROVER
u64 nondet_u64(void); u64 in_val[200]; int in_n;
static u64 in_(void) { u64 x = nondet_u64(); in_val[in_n++] = x; return x; }
#define ASSUME(c) __CPROVER_assume(c)
#define ASSERT(c, m) __CPROVER_assert(c, m)
#define COVER(m) __CPROVER_assert(0, "COVER " m)
#define FAIL_(m) do { __CPROVER_assert(0, m); __CPROVER_assume(0); } while (0)
#else
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
static FILE *in_f; static int in_k, in_have[4096]; static u64 in_val[4096];
static u64 in_(void) { return in_k < 4096 ? in_val[in_k++] : 0; }
#define ASSUME(c) do { if (!(c)) exit(3); } while (0)
#define ASSERT(c, m) do { if (!(c)) { fprintf(stderr, "REPLAY-VIOLATION %s\n", m); exit(1); } } while (0)
#define COVER(m) do { } while (0)
#define FAIL_(m) do { fprintf(stderr, "REPLAY-VIOLATION %s\n", m); exit(1); } while (0)
#endif
static u64 in_u64(void) { return in_(); }
static long in_long(long lo, long hi) { long x = (long)in_(); ASSUME(x >= lo && x <= hi); return x; }
static int in_int(int lo, int hi) { int x = (int)in_(); ASSUME(x >= lo && x <= hi); return x; }
static int in_bool(void) { return in_() & 1; }
static double in_double(double lo, double hi) { union { u64 u; double d; } v; v.u = in_(); ASSUME(v.d >= lo && v.d <= hi); return v.d; }
/* CASE(name, "what and bounds", "cbmc options of the quick run", "of the thorough run") */
#define CASE(n, d, q, t) void case_##n(void)
#ifndef __CPROVER
#define MAIN_TABLE struct cb_case { const char *n; void (*f)(void); }; extern struct cb_case cb_cases[]; \
int main(int c, char **v) { char b[200]; in_f = fopen(v[2], "r"); if (!in_f) return 9; int k; unsigned long x; while (fgets(b, sizeof b, in_f)) if (sscanf(b, "in %d %lx", &k, &x) == 2 && k < 4096) in_val[k] = x; \
  for (int i = 0; cb_cases[i].n; i++) if (!strcmp(cb_cases[i].n, v[1])) { cb_cases[i].f(); return 0; } return 9; }
#endif
#endif
