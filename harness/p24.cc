// P24: summary statistics and confidence intervals are what they claim
#include "zh.h"
#include <algorithm>
static dvector dv(const vec &x) { dvector v; v.resize(x.size()); for (size_t i = 0; i < x.size(); i++) v(i) = x[i]; return v; }
SYM_CASE(quantile, "2-5 (thorough 7) sorted values, any values, any p whose neighbours exist") {
  int n = sym_int("n", 2, sym_thorough() ? 7 : 5); vec x(n); for (int i = 0; i < n; i++) { x[i] = sym_doublef(-100, 100, "x%d", i); if (i) sym_assume_le(x[i - 1], x[i]); }
  int i = sym_int("cell", 0, n - 2); double f = sym_double("f", 0, 1); sym_assume(f < 1); double p = (i + 0.5 + f) / n;   // the value of rank i is the quantile of (i + 1/2) / n, linear in between
  double q = getQuantile(dv(x), p); sym_check_eq(q, x[i] + f * (x[i + 1] - x[i]), 1e-9, "quantile between values %d and %d", i, i + 1); sym_check_le(x[0], q, 1e-9, "below the smallest value"); sym_check_le(q, x[n - 1], 1e-9, "above the largest value"); sym_cover("quantile");
}
SYM_CASE(average, "1-4 (thorough 6) values, any values: mean and standard deviation") {
  int n = sym_int("n", 1, sym_thorough() ? 6 : 4); vec x(n); for (int i = 0; i < n; i++) x[i] = sym_doublef(-100, 100, "x%d", i);
  double a, s; dvector v = dv(x); calc_avg_stdev_collection(v.data.begin(), v.data.end(), a, s); double m = 0; for (double y : x) m = m + y; m = m / n; sym_check_eq(a, m, 1e-9, "mean");
  if (n == 1) sym_check_eq(s, -1, 0, "no standard deviation of one value"); else { double q = 0; for (double y : x) q = q + (y - m) * (y - m); sym_check_le(0, s, 1e-9, "standard deviation negative"); sym_check_eq(s * s * (n - 1), q, 1e-6, "standard deviation"); } sym_cover("average");
}
// n samples in m groups of random numbers; the interval of the bootstrap, against its definition
static void boot(int n, double alpha, int draws, int distinct) {
  vec x(n, 0.0); for (int i = 0; i < n; i++) x[i] = sym_doublef(-100, 100, "x%d", i);
  int rows = (int)(50 / (alpha / 2)); std::vector<double> fr; vec want(rows, 0.0); static const double F[] = {0, 1, 0.5, 0.25, 0.999, 0.75, 0.3, 0.6};
  // row i of the resampling uses one of `distinct` patterns of random numbers
  int seed = sym_int("pattern", 0, draws - 1);
  for (int i = 0; i < rows; i++) { double s = 0; for (int j = 0; j < n; j++) { double f = F[((i % distinct) * (j + 1) + seed * (j + 2) + (j & i % distinct)) % 8]; fr.push_back(f); int k = (int)(f * n); if (k >= n) k = n - 1; s = s + x[k]; } want[i] = s / n; }
  sym_rand_script(fr); double mean, q1, q2; calc_bootstrap_mean_quantile(dv(x), alpha, mean, q1, q2);
  sym_check((int)sym_rand_log().size() == rows * n, "%d random numbers drawn", (int)sym_rand_log().size());
  double m = 0, lo = x[0], hi = x[0]; for (double y : x) { m = m + y; lo = sym_min(lo, y); hi = sym_max(hi, y); } sym_check_eq(mean, m / n, 1e-9, "mean");
  sym_check_le(lo, q1, 1e-9, "interval starts below the smallest sample"); sym_check_le(q1, q2, 1e-9, "interval is upside down"); sym_check_le(q2, hi, 1e-9, "interval ends above the largest sample");
  std::sort(want.begin(), want.end());
  for (int e = 0; e < 2; e++) { double r = (e ? 1 - alpha / 2 : alpha / 2) * rows - 0.5; int i = (int)floor(r); sym_check_eq(e ? q2 : q1, want[i] + (r - i) * (want[i + 1] - want[i]), 1e-9, e ? "upper end of the interval" : "lower end of the interval"); }
  sym_cover("interval");
}
SYM_CASE(interval_small, "1-3 samples of any value, level 0.5, 8 patterns of random numbers including 0 and 1") { boot(sym_int("n", 1, 3), 0.5, 8, 3); }
SYM_CASE(interval_95, "2 samples of any value at the level the program uses (2000 resamples), 4 patterns of random numbers including 0 and 1") { boot(2, 0.05, 4, 4); }
SYM_CASE(index, "1-4 samples of any value; any random numbers of the first two resamples, all values of both") {
  int n = sym_int("n", 1, 4); vec x(n); for (int i = 0; i < n; i++) x[i] = i == 0 ? 0 : 1000.0 * (1 << i); double alpha = 0.999;   // sums identify the samples used
  std::vector<double> fr; int rows = (int)(50 / (alpha / 2)); double f = sym_double("f", 0, 1); for (int i = 0; i < rows * n; i++) fr.push_back(f); sym_rand_script(fr); double mean, q1, q2; calc_bootstrap_mean_quantile(dv(x), alpha, mean, q1, q2);
  int k = 0; for (int i = 1; i < n; i++) if (f * n >= i) k = i; sym_check_eq(q1, x[k], 1e-9, "the sample with the random number's index"); sym_check_eq(q2, x[k], 1e-9, "the sample with the random number's index"); sym_cover("index");
}
