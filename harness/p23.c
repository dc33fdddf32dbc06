/* property P23: time arithmetic is exact and normalised; encoded: the functions of src/common/zmdpCommonTime.cc */
#include "cb.h"
typedef struct { long sec, usec; } tv;
#ifdef __CPROVER
#include "enc.h"
#define TV(e) ({ __auto_type x_ = (e); tv t_; t_.sec = (long)x_.f0; t_.usec = (long)x_.f1; t_; })
#else
typedef tv *P;
tv _ZN4zmdpplERK7timevalS2_(P, P); tv _ZN4zmdpmiERK7timevalS2_(P, P); u8 _ZN4zmdpltERK7timevalS2_(P, P);
tv _ZN4zmdp16secondsToTimevalEd(double); double _ZN4zmdp16timevalToSecondsERK7timeval(P);
void _ZN4zmdp9StopWatch7restartEv(P); double _ZN4zmdp9StopWatch11elapsedTimeEv(P); void _ZN4zmdp6fsleepEd(double); tv _ZN4zmdp7getTimeEv(void);
#define TV(e) (e)
#endif
static tv plus_(tv *a, tv *b) { return TV(_ZN4zmdpplERK7timevalS2_((P)a, (P)b)); }
static tv minus_(tv *a, tv *b) { return TV(_ZN4zmdpmiERK7timevalS2_((P)a, (P)b)); }
static int less_(tv *a, tv *b) { return !!_ZN4zmdpltERK7timevalS2_((P)a, (P)b); }
#define M 1000000L
static tv now_, slept_; static int slept_n;
#ifdef __CPROVER
unsigned gettimeofday(char *t, char *z) { *(tv *)t = now_; return 0; }
unsigned select(unsigned n, char *a, char *b, char *c, char *t) { slept_ = *(tv *)t; slept_n++; return 0; }
#else
#include <sys/time.h>
#include <sys/select.h>
int gettimeofday(struct timeval *restrict t, void *restrict z) { *(tv *)t = now_; return 0; }
int select(int n, fd_set *restrict a, fd_set *restrict b, fd_set *restrict c, struct timeval *restrict t) { slept_ = *(tv *)t; slept_n++; return 0; }
#endif
static tv in_tv(long lo, long hi) { tv t; t.sec = in_long(lo, hi); t.usec = in_long(0, M - 1); return t; }
static long us(tv t) { return t.sec * M + t.usec; }
static int norm(tv t) { return t.usec >= 0 && t.usec < M; }
#define BIG (1L << 40)
CASE(plus, "any normalised times within +-2^40 s", "", "") { tv a = in_tv(-BIG, BIG), b = in_tv(-BIG, BIG), c = plus_(&a, &b); ASSERT(norm(c), "sum not normalised"); long k = c.sec - a.sec - b.sec; ASSERT(k >= -1 && k <= 1 && c.usec - a.usec - b.usec == -k * M, "sum not exact"); COVER("sum"); }
CASE(minus, "any normalised times within +-2^40 s", "", "") { tv a = in_tv(-BIG, BIG), b = in_tv(-BIG, BIG), c = minus_(&a, &b); ASSERT(norm(c), "difference not normalised"); long k = c.sec - a.sec + b.sec; ASSERT(k >= -1 && k <= 1 && c.usec - a.usec + b.usec == -k * M, "difference not exact"); COVER("difference"); }
CASE(less, "any normalised times within +-2^40 s", "", "") { tv a = in_tv(-BIG, BIG), b = in_tv(-BIG, BIG); ASSERT(less_(&a, &b) == (a.sec < b.sec || (a.sec == b.sec && a.usec < b.usec)), "comparison does not order times"); COVER("less"); }
CASE(chain, "a + (b - a) is b, and b - a is negative exactly when b precedes a", "", "") { tv a = in_tv(0, BIG), b = in_tv(0, BIG), d = minus_(&b, &a), c = plus_(&a, &d); ASSERT(c.sec == b.sec && c.usec == b.usec, "a + (b - a) is not b"); ASSERT((d.sec < 0) == less_(&b, &a), "sign of the difference"); COVER("chain"); }
CASE(from_any, "any duration from -2^40 to 2^40 s, bit-precise: normalised, right second", "", "") {
  double d = in_double(-1099511627776.0, 1099511627776.0); tv a = TV(_ZN4zmdp16secondsToTimevalEd(d)); ASSERT(norm(a), "converted time not normalised");
  double f = d - (double)a.sec; ASSERT(f > -1e-6 && f <= 1, "seconds wrong"); COVER("from any"); }
#ifdef THOROUGH
#define BITS 11
#else
#define BITS 9
#endif
CASE(from_seconds, "any duration from -2^31 to 2^31 s in steps of 2^-9 (2^-11) s, bit-precise: exact", "", "") {
  long s = in_long(-(1L << 31), 1L << 31), k = in_long(0, (1 << BITS) - 1); double d = (double)s + (double)k * (1.0 / (1 << BITS)); tv a = TV(_ZN4zmdp16secondsToTimevalEd(d));
  ASSERT(a.sec == s && a.usec == (k * M) >> BITS, "converted time is not the duration rounded down to a microsecond"); COVER("from seconds"); }
CASE(now, "any current time", "", "") {
  tv w; now_ = in_tv(0, BIG); _ZN4zmdp9StopWatch7restartEv((P)&w); ASSERT(w.sec == now_.sec && w.usec == now_.usec, "stopwatch start"); tv g = TV(_ZN4zmdp7getTimeEv()); ASSERT(g.sec == now_.sec && g.usec == now_.usec, "current time"); COVER("now"); }
CASE(watch_whole, "any start and stop times up to 2^31 s a whole number of seconds apart, bit-precise", "", "") {
  tv s, w; now_ = s = in_tv(0, 1L << 31); _ZN4zmdp9StopWatch7restartEv((P)&w); now_.sec = in_long(0, 1L << 31); double e = _ZN4zmdp9StopWatch11elapsedTimeEv((P)&w);
  ASSERT(e == (double)(now_.sec - s.sec), "elapsed time of whole seconds"); COVER("watch"); }
static const double qd[4] = {0, 1e-6, 0.5, 0.999999}; static const long ql[4] = {0, 1, 500000, 999999}; static const double rd[4] = {0, 0.000977, 0.007777, 0.015624}; static const long rl[4] = {0, 977, 7777, 15624};
CASE(watch_steps, "start at 4 positions within a second, stop at any of 256 positions of any later second up to 2^14, bit-precise", "", "") {
  tv w; int q = in_int(0, 3), j = in_int(0, 63), r = in_int(0, 3); long ds = in_long(0, 1L << 14); now_.sec = 5000; now_.usec = ql[q]; _ZN4zmdp9StopWatch7restartEv((P)&w);
  now_.sec = 5000 + ds; now_.usec = 15625L * j + rl[r]; double e = _ZN4zmdp9StopWatch11elapsedTimeEv((P)&w); double x = e - (double)ds - (double)j * 0.015625 - rd[r] + qd[q];
  ASSERT(x < 2e-6 && x > -2e-6, "elapsed time off by microseconds"); COVER("watch steps"); }
CASE(to_seconds, "times at any of 256 positions of any second within 2^31, bit-precise", "", "") {
  tv a; int j = in_int(0, 63), r = in_int(0, 3); a.sec = in_long(-(1L << 31), 1L << 31); a.usec = 15625L * j + rl[r]; double x = _ZN4zmdp16timevalToSecondsERK7timeval((P)&a) - (double)a.sec - (double)j * 0.015625 - rd[r];
  ASSERT(x < 1e-6 && x > -1e-6, "seconds of a time off by a microsecond"); COVER("to seconds"); }
CASE(to_any, "any time within 2^31 s, bit-precise: right second, order kept between whole seconds", "", "") {
  tv a = in_tv(-(1L << 31), 1L << 31); double x = _ZN4zmdp16timevalToSecondsERK7timeval((P)&a) - (double)a.sec; ASSERT(x >= 0 && x < 1.000001, "seconds of a time off by a second"); ASSERT(a.usec != 0 || x == 0, "whole seconds"); COVER("to any"); }
CASE(sleep_any, "any non-negative duration up to 2^31 - 1 s, bit-precise: normalised, right second", "", "") {
  double d = in_double(0, 2147483647.0); _ZN4zmdp6fsleepEd(d); ASSERT(slept_n == 1, "one sleep"); ASSERT(norm(slept_), "slept time not normalised"); double f = d - (double)slept_.sec; ASSERT(f >= 0 && f < 1, "slept time off by a second"); COVER("sleep any"); }
CASE(sleep, "any duration up to 2^31 - 1 s in steps of 2^-9 (2^-11) s, bit-precise: exact", "", "") {
  long s = in_long(0, (1L << 31) - 2), k = in_long(0, (1 << BITS) - 1); double d = (double)s + (double)k * (1.0 / (1 << BITS)); _ZN4zmdp6fsleepEd(d);
  ASSERT(slept_n == 1 && slept_.sec == s && slept_.usec == (k * M) >> BITS, "slept time is not the duration"); COVER("sleep"); }
