// Concrete runtime: replays a counterexample against the ordinary build of the
// real sources (no instrumentation of floating point).
#include <math.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>
#include <gmpxx.h>
#include <map>
#include <string>
#include "sym.h"
static std::vector<SymCase *> &cases() { static std::vector<SymCase *> v; return v; }
SymCase::SymCase(const char *n, sym_case_fn f, const char *b, bool t) : name(n), fn(f), bounds(b), thoroughOnly(t) { cases().push_back(this); }
static std::map<std::string, double> VAL;
static std::map<std::string, int> NAMES;
static std::string scratch = "/tmp", repo;
static sym_exit_fn onExit = NULL;
static bool thorough = false;
static void out(const char *m) { fprintf(stderr, "REPLAY-VIOLATION %s\n", m); fflush(stderr); _exit(1); }
static double get(const char *n, double lo, double hi) {
  int k = NAMES[n]++;
  std::string nm = k ? std::string(n) + "#" + std::to_string(k) : n;
  auto it = VAL.find(nm);
  double v = it != VAL.end() ? it->second : (lo <= 0 && hi >= 0 ? 0 : lo);
  if (v < lo) v = lo;
  if (v > hi) v = hi;
  return v;
}
double sym_double(const char *n, double lo, double hi) { return get(n, lo, hi); }
double sym_doublef(double lo, double hi, const char *f, ...) { char b[128]; va_list ap; va_start(ap, f); vsnprintf(b, sizeof b, f, ap); va_end(ap); return get(b, lo, hi); }
int sym_int(const char *n, int lo, int hi) { return (int)lround(get(n, lo, hi)); }
bool sym_bool(const char *n) { return sym_int(n, 0, 1); }
static void killp() { fprintf(stderr, "REPLAY-ASSUME-FAILED\n"); _exit(3); }
void sym_assume(bool c) { if (!c) killp(); }
void sym_assume_le(double a, double b) { if (!(a <= b + 1e-9 * (1 + fabs(b)))) killp(); }
void sym_assume_eq(double a, double b) { if (!(fabs(a - b) <= 1e-9 * (1 + fabs(b)))) killp(); }
void sym_assume_ge_gap(double a, double b, double g) { if (!(fabs(a - b) >= g * (1 - 1e-9) - 1e-12)) killp(); }
#define MSG char m[600]; va_list ap; va_start(ap, f); vsnprintf(m, sizeof m, f, ap); va_end(ap);
void sym_check(bool c, const char *f, ...) { MSG if (!c) out(m); }
void sym_check_le(double a, double b, double tol, const char *f, ...) { MSG if (!(a <= b + tol)) { char q[700]; snprintf(q, sizeof q, "%s (%.17g > %.17g)", m, a, b); out(q); } }
void sym_check_eq(double a, double b, double tol, const char *f, ...) { MSG if (!(a == b || fabs(a - b) <= tol)) { char q[700]; snprintf(q, sizeof q, "%s (%.17g vs %.17g)", m, a, b); out(q); } }
void sym_fail(const char *f, ...) { MSG out(m); }
double sym_max(double a, double b) { return a < b ? b : a; }
double sym_min(double a, double b) { return b < a ? b : a; }
double sym_sel_lt(double a, double b, double x, double y) { return a < b ? x : y; }
void sym_cover(const char *) {}
void sym_end() { fprintf(stderr, "REPLAY-OK\n"); _exit(0); }
void sym_on_exit(sym_exit_fn f) { onExit = f; }
std::string sym_text(double v) { char b[64]; snprintf(b, sizeof b, "%.17g", v); return b; }
bool sym_is_symbolic(double) { return false; }
static std::vector<double> RS, RL; static size_t rp = 0; static bool rcy; static double rlo = 0, rhi = 1; static int rc = 0;
double sym_rand_range(double lo, double hi) { rlo = lo; rhi = hi; return 0; }
void sym_rand_script(const std::vector<double> &f, bool cycle) { RS = f; rp = 0; rcy = cycle && !f.empty(); }
std::vector<double> sym_rand_log() { return RL; }
static double vt = 1000, vs = 0;
void sym_set_time(double s, double st) { vt = s; vs = st; }
bool sym_thorough() { return thorough; }
bool sym_replaying() { return true; }
const char *sym_scratch() { return scratch.c_str(); }
const char *sym_repo() { return repo.c_str(); }
void sym_merge(int) {}
void sym_hash_exact(bool) {}
void sym_print_rounding(bool) {}
static void hang(int) { const char m[] = "REPLAY-VIOLATION hang: does not finish\n"; (void)!write(2, m, sizeof m - 1); _exit(1); }
void sym_must_finish(double c) { signal(SIGPROF, hang); struct itimerval it; memset(&it, 0, sizeof it); it.it_value.tv_sec = (long)(2 * c); setitimer(ITIMER_PROF, &it, NULL); }
void sym_note(const char *f, ...) { va_list ap; va_start(ap, f); vfprintf(stderr, f, ap); fputc('\n', stderr); va_end(ap); }
extern "C" {
int __r_rand() { double f; if (rcy && rp >= RS.size()) rp = 0; if (rp < RS.size()) f = RS[rp++]; else { char n[32]; snprintf(n, sizeof n, "rand%d", rc); f = get(n, rlo, rhi); } rc++; long k = lround(f * RAND_MAX); if (k < 0) k = 0; if (k > RAND_MAX) k = RAND_MAX; RL.push_back((double)k / RAND_MAX); return (int)k; }
void __r_srand(unsigned) {}
int __r_gettimeofday(struct timeval *tv, void *) { tv->tv_sec = (long)vt; tv->tv_usec = (long)((vt - (long)vt) * 1e6 + 0.5); if (tv->tv_usec > 999999) tv->tv_usec = 999999; vt += vs; return 0; }
int __r_clock_gettime(int, struct timespec *ts) { struct timeval tv; __r_gettimeofday(&tv, NULL); ts->tv_sec = tv.tv_sec; ts->tv_nsec = tv.tv_usec * 1000; return 0; }
long __r_ZNSt6chrono3_V212steady_clock3nowEv() { struct timespec ts; __r_clock_gettime(0, &ts); return ts.tv_sec * 1000000000L + ts.tv_nsec; }
long __r_ZNSt6chrono3_V212system_clock3nowEv() { return __r_ZNSt6chrono3_V212steady_clock3nowEv(); }
long __r_random() { return __r_rand(); }
long __r_time(long *t) { if (t) *t = (long)vt; return (long)vt; }
int __r_usleep(unsigned) { return 0; }
void __r_exit(int c) { if (onExit) { sym_exit_fn f = onExit; onExit = NULL; f(c); sym_end(); } char b[80]; snprintf(b, sizeof b, "unexpected exit(%d) of the code under test", c); out(b); }
void __r_assert_fail(const char *e, const char *f, unsigned, const char *) { if (onExit) __r_exit(134); char b[400]; snprintf(b, sizeof b, "assertion failed in the code under test: %s (%s)", e, f); out(b); }
void __r_abort() { if (onExit) __r_exit(134); out("unexpected abort"); }
}
static void crash(int s) { char b[64]; int n = snprintf(b, sizeof b, "REPLAY-VIOLATION crash: signal %d\n", s); (void)!write(2, b, n); _exit(1); }
static void alrm(int) { (void)!write(2, "REPLAY-TIMEOUT\n", 15); _exit(4); }
int main(int argc, char **argv) {
  std::string c, vf;
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i];
    if (a == "--case") c = argv[++i]; else if (a == "--values") vf = argv[++i];
    else if (a == "--scratch") scratch = argv[++i]; else if (a == "--repo") repo = argv[++i];
    else if (a == "--thorough") thorough = true;
  }
  FILE *f = fopen(vf.c_str(), "r");
  if (!f) return 9;
  static char l[70000];
  while (fgets(l, sizeof l, f)) {
    if (l[0] == '#') continue;
    char *sp = strrchr(l, ' '); if (!sp) continue; *sp = 0; char *nl = strchr(sp + 1, '\n'); if (nl) *nl = 0;
    std::string s = sp + 1; double v;
    if (s.find('/') != std::string::npos) { mpq_class q(s); q.canonicalize(); v = q.get_d(); mpq_class e = q - mpq_class(v); double w = nextafter(v, e > 0 ? INFINITY : -INFINITY); if (abs(mpq_class(w) - q) < abs(e)) v = w; }
    else v = atof(s.c_str());
    VAL[l] = v;
  }
  fclose(f);
  signal(SIGSEGV, crash); signal(SIGABRT, crash); signal(SIGFPE, crash); signal(SIGBUS, crash); signal(SIGINT, crash);
  signal(SIGALRM, alrm); alarm(60);
  for (auto k : cases()) if (c == k->name) { k->fn(); sym_end(); }
  fprintf(stderr, "no such case\n");
  return 9;
}
