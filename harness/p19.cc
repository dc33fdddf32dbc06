#include "zh.h"
#include "sla_mask.h"
// property P19: the sparse linear algebra equals its dense definition, for every sparsity pattern
static const double TOL = 1e-8;   // conversions drop entries up to 1e-10
typedef std::vector<vec> mat;     // mat[r][c]
// a vector with an arbitrary sparsity pattern and arbitrary values; full = values only
static vec anyv(const char *nm, int n, cvector &c, double lo = -10, double hi = 10) {
  int pat = sym_int(zfmt("%s_pattern", nm).c_str(), 0, (1 << n) - 1);
  vec v(n, 0.0); c.resize(n);
  for (int i = 0; i < n; i++) if (pat >> i & 1) { v[i] = sym_doublef(lo, hi, "%s%d", nm, i); c.push_back(i, v[i]); }
  return v;
}
static vec anyd(const char *nm, int n, dvector &d) { vec v(n); d.resize(n); for (int i = 0; i < n; i++) d(i) = v[i] = sym_doublef(-10, 10, "%s%d", nm, i); return v; }
// a matrix with an arbitrary pattern, built through the coordinate format in an arbitrary order
static mat anym(const char *nm, int R, int C, cmatrix &A, kmatrix *K = NULL) {
  int pat = sym_int(zfmt("%s_pattern", nm).c_str(), 0, (1 << (R * C)) - 1); bool rev = sym_bool(zfmt("%s_reversed", nm).c_str());
  mat m(R, vec(C, 0.0)); kmatrix k(R, C);
  for (int q = 0; q < R * C; q++) { int i = rev ? R * C - 1 - q : q, r = i / C, c = i % C; if (!(pat >> i & 1)) continue; m[r][c] = sym_doublef(0.5, 8, "%s%d%d", nm, r, c); if (sym_thorough() && i == 0) kmatrix_set_entry(k, r, c, 3); kmatrix_set_entry(k, r, c, m[r][c]); }
  if (K) *K = k;
  copy(A, k);
  return m;
}
static void isc(const cvector &c, const vec &want, const char *what) {
  sym_check(c.size() == want.size(), "%s: size %d instead of %d", what, (int)c.size(), (int)want.size());
  vec got(want.size(), 0.0); int last = -1;
  for (auto &e : c.data) { sym_check((int)e.index > last && e.index < want.size(), "%s: entry indexes out of order or range", what); last = e.index; if (e.index < want.size()) got[e.index] = e.value; }
  for (size_t i = 0; i < want.size(); i++) { sym_check_eq(got[i], want[i], TOL, "%s: entry %d", what, (int)i); sym_check_eq(c(i), want[i], TOL, "%s: element access %d", what, (int)i); }
}
static void isd(const dvector &d, const vec &want, const char *what) {
  sym_check(d.size() == want.size(), "%s: size %d instead of %d", what, (int)d.size(), (int)want.size());
  for (size_t i = 0; i < want.size() && i < d.size(); i++) sym_check_eq(d(i), want[i], TOL, "%s: entry %d", what, (int)i);
}
// results start out holding something else
static cvector junkc() { cvector c; c.resize(2); c.push_back(1, 7); return c; }
static dvector junkd() { dvector d; d.resize(2); d(0) = 5; d(1) = 6; return d; }
static void vv(int n) {
  cvector x, y; vec a = anyv("x", n, x), b = anyv("y", n, y);
  vec s(n), d(n), p(n); double ip = 0, sm = 0; for (int i = 0; i < n; i++) { s[i] = a[i] + b[i]; d[i] = a[i] - b[i]; p[i] = a[i] * b[i]; ip += p[i]; sm += a[i]; }
  cvector r = junkc(); add(r, x, y); isc(r, s, "add");
  r = junkc(); subtract(r, x, y); isc(r, d, "subtract");
  r = junkc(); emult(r, x, y); isc(r, p, "element-wise product");
  r = x; r += y; isc(r, s, "+="); r = x; r -= y; isc(r, d, "-="); r = x; r *= 3; { vec t(n); for (int i = 0; i < n; i++) t[i] = 3 * a[i]; isc(r, t, "*="); }
  r = junkc(); copy(r, x); isc(r, a, "copy");
  sym_check_eq(inner_prod(x, y), ip, TOL, "inner product"); sym_check_eq(sum(x), sm, TOL, "sum");
  dvector e = junkd(); copy(e, x); isd(e, a, "copy to dense");
  sym_check_eq(inner_prod(e, y), ip, TOL, "inner product of a dense and a sparse vector");
  dvector g = junkd(); emult(g, e, y); isd(g, p, "dense-sparse element-wise product");
  sym_cover("vectors");
}
SYM_CASE(vectors4, "two sparse vectors of 4 elements, every pattern, values in [-10,10]") { vv(4); }
SYM_CASE_THOROUGH(vectors6, "two sparse vectors of 6 elements, every pattern") { vv(6); }
SYM_CASE(norms, "3 elements, every pattern, values in [-10,10]") {
  cvector x; vec a = anyv("x", 3, x); dvector d; copy(d, x);
  double n1 = 0, ni = 0; for (double v : a) { double m = sym_max(v, -v); n1 += m; ni = sym_max(ni, m); }
  sym_check_eq(norm_1(x), n1, TOL, "1-norm"); sym_check_eq(norm_inf(x), ni, TOL, "max norm"); sym_check_eq(norm_inf(d), ni, TOL, "max norm, dense");
  double mx = a[0]; for (double v : a) mx = sym_max(mx, v);
  int k = argmax_elt(x), kd = argmax_elt(d);
  sym_check(k >= 0 && k < 3 && kd >= 0 && kd < 3, "argmax out of range");
  sym_check_eq(a[k], mx, TOL, "argmax of a sparse vector"); sym_check_eq(a[kd], mx, TOL, "argmax of a dense vector");
}
SYM_CASE(dense, "3 elements, values in [-10,10]") {
  const int n = 3; dvector x, y; vec a = anyd("x", n, x), b = anyd("y", n, y); vec s(n), d(n), p(n), m(n); double sm = 0; for (int i = 0; i < n; i++) { s[i] = a[i] + b[i]; d[i] = a[i] - b[i]; p[i] = a[i] * b[i]; m[i] = sym_max(a[i], b[i]); sm += a[i]; }
  dvector r = x; r += y; isd(r, s, "+="); r = x; r -= y; isd(r, d, "-="); r = x; r *= -2; { vec t(n); for (int i = 0; i < n; i++) t[i] = -2 * a[i]; isd(r, t, "*="); }
  r = junkd(); emult(r, x, y); isd(r, p, "product"); r = junkd(); emax(r, x, y); isd(r, m, "maximum"); r = x; max_assign(r, y); isd(r, m, "max_assign");
  sym_check_eq(sum(x), sm, TOL, "sum");
  cvector c = junkc(); copy(c, x); isc(c, a, "copy to sparse");
  r = junkd(); set_to_one(r, 3); isd(r, {1, 1, 1}, "ones"); c = junkc(); set_to_one(c, 3); isc(c, {1, 1, 1}, "sparse ones");
  r = x; set_to_zero(r); isd(r, {0, 0, 0}, "zero"); c = junkc(); c.resize(3); c.push_back(1, 2); set_to_zero(c); isc(c, {0, 0, 0}, "sparse zero");
}
static void dom(int n) {
  cvector x, y; vec a = anyv("x", n, x), b = anyv("y", n, y); dvector dx, dy; copy(dx, x); copy(dy, y);
  double eps = sym_double("eps", 0, 2), worst = b[0] - a[0]; for (int i = 1; i < n; i++) worst = sym_max(worst, b[i] - a[i]);
  sym_assume_ge_gap(worst, eps, 1e-6);
  bool c = dominates(x, y, eps), d = dominates(dx, dy, eps);
  if (c) sym_check_le(worst, eps, TOL, "sparse dominance reported although an element is smaller"); else sym_check_le(eps, worst, TOL, "sparse dominance denied");
  if (d) sym_check_le(worst, eps, TOL, "dense dominance reported although an element is smaller"); else sym_check_le(eps, worst, TOL, "dense dominance denied");
  sym_cover(c ? "dominates" : "does not dominate");
}
SYM_CASE(dominance, "two vectors of 3 elements, every pattern, any tolerance up to 2") { dom(3); }
SYM_CASE_THOROUGH(dominance4, "two vectors of 4 elements, every pattern, any tolerance up to 2") { dom(4); }
SYM_CASE(masks, "4 elements, every pattern of a vector, two masks; 3 elements for masked dominance") {
  const int n = 4; cvector x; vec a = anyv("x", n, x); int pm = sym_int("m_pattern", 0, 15); mvector m; m.resize(n); for (int i = 0; i < n; i++) if (pm >> i & 1) m.push_back(i, 1);
  int px = 0; for (auto &e : x.data) px |= 1 << e.index;
  sym_check(mask_subset(x, m) == !(px & ~pm), "mask subset test");
  vec w(n, 0.0); for (int i = 0; i < n; i++) if (pm >> i & 1) w[i] = a[i];
  cvector r = junkc(); mask_copy(r, x, m); isc(r, w, "masked copy"); dvector d; copy(d, x); r = junkc(); mask_copy(r, d, m); isc(r, w, "masked copy of a dense vector");
  for (auto &e : r.data) sym_check(pm >> e.index & 1, "masked copy sets an element outside the mask");
  r = junkc(); mask_set_to_one(r, x); vec o(n, 0.0); for (int i = 0; i < n; i++) if (px >> i & 1) o[i] = 1; isc(r, o, "mask of a vector");
  mvector all; mask_set_all(all, n); isc(all, vec(n, 1.0), "full mask");
}
SYM_CASE(mask_dominance, "3 elements, every pattern of both masks, any values") {
  const int n = 3; mvector xm, ym; xm.resize(n); ym.resize(n); int px = sym_int("xm", 0, 7), py = sym_int("ym", 0, 7);
  cvector x, y; x.resize(n); y.resize(n); vec a(n, 0.0), b(n, 0.0);
  for (int i = 0; i < n; i++) { if (px >> i & 1) { xm.push_back(i, 1); x.push_back(i, a[i] = sym_doublef(-5, 5, "x%d", i)); } if (py >> i & 1) { ym.push_back(i, 1); y.push_back(i, b[i] = sym_doublef(-5, 5, "y%d", i)); } }
  double worst = b[0] - a[0]; for (int i = 1; i < n; i++) worst = sym_max(worst, b[i] - a[i]);
  sym_assume_ge_gap(worst, 0.25, 1e-6);
  bool got = mask_dominates(x, y, 0.25, xm, ym);
  if (py & ~px) sym_check(!got, "dominance reported although the other plane applies to more states"); else if (got) sym_check_le(worst, 0.25, TOL, "masked dominance reported although an element is smaller"); else sym_check_le(0.25, worst, TOL, "masked dominance denied");
}
static void mv(int R, int C, double lo = 0.5) {
  cmatrix A; kmatrix K; mat m = anym("A", R, C, A, &K);
  for (int r = 0; r < R; r++) for (int c = 0; c < C; c++) { sym_check_eq(A(r, c), m[r][c], TOL, "compressed matrix element (%d,%d)", r, c); }
  sym_check((int)A.size1() == R && (int)A.size2() == C, "matrix size");
  cvector x, y; vec a = anyv("x", C, x, lo), b = anyv("y", R, y, lo);
  vec ax(R, 0.0), ya(C, 0.0); for (int r = 0; r < R; r++) for (int c = 0; c < C; c++) { ax[r] += m[r][c] * a[c]; ya[c] += b[r] * m[r][c]; }
  dvector d = junkd(); mult(d, A, x); isd(d, ax, "matrix * sparse vector, dense result");
  cvector e = junkc(); mult(e, A, x); isc(e, ax, "matrix * sparse vector, sparse result");
  d = junkd(); mult(d, y, A); isd(d, ya, "sparse vector * matrix, dense result");
  e = junkc(); mult(e, y, A); isc(e, ya, "sparse vector * matrix, sparse result");
  dvector yd; copy(yd, y); d = junkd(); mult(d, yd, A); isd(d, ya, "dense vector * matrix");
  sym_cover("products");
}
#define M "every sparsity pattern of matrix and vectors, entries in [0.5,10]"
SYM_CASE(mat22, "2x2 matrix, " M) { mv(2, 2); }
SYM_CASE(mat23, "2x3 matrix, " M) { mv(2, 3); }
SYM_CASE(mat32, "3x2 matrix, " M) { mv(3, 2); }
SYM_CASE(mat12neg, "1x2 matrix, vector values of either sign") { mv(1, 2, -10); }
SYM_CASE(mat21neg, "2x1 matrix, vector values of either sign") { mv(2, 1, -10); }
SYM_CASE_THOROUGH(mat22neg, "2x2 matrix, " M ", vector values of either sign") { mv(2, 2, -10); }
SYM_CASE_THOROUGH(mat33, "3x3 matrix, " M) { mv(3, 3); }
// the branch for very sparse operands
SYM_CASE(mat_sparse, "8x8 matrix with 3 entries anywhere in two columns, a vector with up to 2 entries") {
  const int N = 8; kmatrix k(N, N); mat m(N, vec(N, 0.0));
  int r[3] = {sym_int("r0", 0, N - 1), sym_int("r1", 0, N - 1), sym_int("r2", 0, N - 1)}; sym_assume(r[0] != r[1]); const int c[3] = {2, 2, 5};
  for (int i = 0; i < 3; i++) { m[r[i]][c[i]] = sym_doublef(0.5, 4, "A%d", i); kmatrix_set_entry(k, r[i], c[i], m[r[i]][c[i]]); }
  cmatrix A; copy(A, k); cvector x; x.resize(N); vec a(N, 0.0); int px = sym_int("x_pattern", 0, 5);   // 4, 5: with an empty column after or before
  if (px == 4 || px == 1 || px == 3) { x.push_back(2, a[2] = sym_double("x2", 0.5, 4)); }
  if (px == 5) { x.push_back(0, a[0] = 3); }
  if (px == 2 || px == 3 || px == 5) x.push_back(5, a[5] = sym_double("x5", -4, -0.5)); if (px == 4) x.push_back(7, a[7] = 3);
  vec ax(N, 0.0); for (int i = 0; i < N; i++) for (int j = 0; j < N; j++) ax[i] += m[i][j] * a[j];
  cvector e = junkc(); mult(e, A, x); isc(e, ax, "very sparse matrix * vector"); dvector d; mult(d, A, x); isd(d, ax, "very sparse matrix * vector, dense");
}
// columns, transposition, and entries set more than once
SYM_CASE(columns, "3x2 matrix, every pattern") {
  const int R = 3, C = 2; cmatrix A; mat m = anym("A", R, C, A); cvector x; vec a = anyv("x", R, x); dvector xd; copy(xd, x);
  for (int c = 0; c < C; c++) {
    vec col(R), pr(R); double ip = 0; int fill = 0; for (int r = 0; r < R; r++) { col[r] = m[r][c]; pr[r] = col[r] * a[r]; ip += pr[r]; if (sym_is_symbolic(col[r]) || col[r] != 0) fill++; }
    cvector e = junkc(); copy_from_column(e, A, c); isc(e, col, "column copy"); dvector d = junkd(); copy_from_column(d, A, c); isd(d, col, "dense column copy");
    e = junkc(); emult_column(e, A, c, x); isc(e, pr, "column product"); d = junkd(); emult_column(d, A, c, xd); isd(d, pr, "dense column product");
    sym_check_eq(inner_prod_column(A, c, x), ip, TOL, "column inner product"); sym_check((int)A.filled_in_column(c) == fill, "entries in column");
  }
}
SYM_CASE(kformat, "2x3 coordinate matrix, 4 entries set in any order, coordinates may repeat: the last one counts") {
  const int R = 2, C = 3; kmatrix k(R, C); mat m(R, vec(C, 0.0));
  for (int i = 0; i < 4; i++) { int q = sym_int(zfmt("at%d", i).c_str(), 0, R * C - 1); double v = i == 1 ? sym_double("v", -4, 4) : i == 2 ? 0.0 : i + 1.5; kmatrix_set_entry(k, q / C, q % C, v); m[q / C][q % C] = v; }
  kmatrix t = k; cmatrix A; copy(A, k);
  for (int r = 0; r < R; r++) for (int c = 0; c < C; c++) { sym_check_eq(A(r, c), m[r][c], TOL, "element (%d,%d)", r, c); sym_check_eq(k(r, c), m[r][c], TOL, "coordinate element (%d,%d)", r, c); }
  kmatrix_transpose_in_place(t); cmatrix B; copy(B, t);
  sym_check((int)B.size1() == C && (int)B.size2() == R, "transposed size");
  for (int r = 0; r < R; r++) for (int c = 0; c < C; c++) sym_check_eq(B(c, r), m[r][c], TOL, "transposed element (%d,%d)", c, r);
  unsigned last = 0; for (int c = 0; c < C; c++) { sym_check(A.col_starts[c] <= A.col_starts[c + 1], "column starts"); last = A.col_starts[c + 1]; } sym_check(last == A.data.size(), "column starts do not cover the entries");
}
// reading and writing
SYM_CASE(textform, "vectors and matrices of every pattern written and read") {
  cvector x; vec a = anyv("x", 3, x); dvector d; copy(d, x);
  std::string t = zfmt("3 %d\n", (int)x.filled()); for (auto &e : x.data) t += zfmt("%d ", e.index) + sym_text(e.value) + "\n";
  zwrite(zpath("v"), t); cvector y; read_from_file(y, zpath("v")); isc(y, a, "vector read from text");
  t = "3\n"; for (int i = 0; i < 3; i++) t += sym_text(a[i]) + "\n"; zwrite(zpath("d"), t); dvector e; read_from_file(e, zpath("d")); isd(e, a, "dense vector read from text");
}
// coordinate files list entries in any order; column-major files are what a matrix writes
SYM_CASE(matrix_text, "3x2 matrix, every pattern and order: read from text, written, read back; a dense vector written and read back") {
  int R = 3, C = 2, pat = sym_int("pattern", 0, 63), ord = sym_int("order", 0, 2), n = 0; mat m(R, vec(C, 0.0)); std::string b; bool k = sym_bool("coordinate form");
  for (int q = 0; q < R * C; q++) { int i = ord == 0 ? q : ord == 1 ? R * C - 1 - q : (q * 5 + 2) % (R * C), r = i / C, c = i % C; if (!(pat >> i & 1)) continue; m[r][c] = sym_doublef(-8, 8, "v%d%d", r, c); sym_assume_ge_gap(m[r][c], 0, 1e-3); b += zfmt("%d %d ", r, c) + sym_text(m[r][c]) + "\n"; n++; }
  zwrite(zpath("m"), zfmt("%d %d\n%d\n", R, C, n) + b); cmatrix A; kmatrix K; if (k) { read_from_file(K, zpath("m")); copy(A, K); } else read_from_file(A, zpath("m"));
  for (int round = 0; round < 2; round++) {
    sym_check((int)A.size1() == R && (int)A.size2() == C && (int)A.filled() == n, "round %d: %dx%d matrix with %d entries", round, (int)A.size1(), (int)A.size2(), (int)A.filled());
    for (int r = 0; r < R; r++) for (int c = 0; c < C; c++) sym_check_eq(A(r, c), m[r][c], round ? 1e-4 : TOL, "round %d: entry %d,%d", round, r, c);
    if (!round) { std::ofstream o(zpath("w").c_str()); A.write(o); o.close(); std::ifstream i(zpath("w").c_str()); A.read(i); }
  }
  dvector d, e; d.resize(R); for (int r = 0; r < R; r++) d(r) = m[r][1]; { std::ofstream o(zpath("d").c_str()); d.write(o); } std::ifstream i(zpath("d").c_str()); e.read(i); sym_check((int)e.size() == R, "dense vector size"); for (int r = 0; r < R; r++) sym_check_eq(e(r), m[r][1], 1e-4, "dense entry %d", r);
}
