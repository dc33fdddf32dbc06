/* property P28: names map one-to-one to indexes; encoded: src/parsers/parse_hash.c as it is */
#include "cb.h"
#include "parse_hash.h"
#ifdef __CPROVER
#include <string.h>
#include <stdlib.h>
#endif
int gNumStates, gNumActions, gNumObservations;
#ifdef THOROUGH
#define SA 0x41
#define SB 0x50
#define N 4
#define L 10
#else
#define SA 0x61
#define SB 0x64
#define N 3
#define L 9
#endif
static int letter(char c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z'); }
static int later(char c) { return letter(c) || (c >= '0' && c <= '9') || c == '_' || c == '-'; }
static int mode;   /* 0: one or two letters, any; 1: long names that differ in the letters the hash leaves out, and their prefixes; 2: three letters over a small alphabet */
static void name(char *s) {
  u64 w = in_u64(); char c[8]; for (int i = 0; i < 8; i++) c[i] = (char)(w >> (8 * i));
  for (int i = 0; i < L + 2; i++) s[i] = 0;
  if (mode == 0) { ASSUME(c[0] >= SA && c[0] <= SB && (c[1] == 0 || (c[1] >= SA && c[1] <= SB))); s[0] = c[0]; s[1] = c[1]; }
  else if (mode == 1) { int n = in_int(0, L - 4); s[0] = 'l'; s[1] = '0'; for (int i = 0; i < L - 4; i++) if (i < n) { ASSUME(later(c[i])); s[2 + i] = c[i]; } s[2 + n] = '-'; s[3 + n] = 'z'; }
  else { for (int i = 0; i < 3; i++) { ASSUME(c[i] == 'a' || c[i] == 'b' || (i > 0 && c[i] == '1')); s[i] = c[i]; } }
}
static int same(const char *a, const char *b) { for (int i = 0; i <= L; i++) { if (a[i] != b[i]) return 0; if (!a[i]) return 1; } return 1; }
static char nm[N][L + 2]; static int kind[N], num[N]; static int cnt[3], dups;
static void enters(int n) {
  for (int k = 0; k < n; k++) {
    name(nm[k]); kind[k] = in_int(0, 2); int dup = 0; for (int j = 0; j < k; j++) if (num[j] >= 0 && kind[j] == kind[k] && same(nm[j], nm[k])) dup = 1;
    char buf[L + 2]; for (int i = 0; i < L + 2; i++) buf[i] = nm[k][i];
    int r = H_enter(buf, (Mnemonic_Type)kind[k]); for (int i = 0; i < L + 1; i++) buf[i] = 'x';   /* the parser reuses its buffer */
    if (dup) { ASSERT(r == 0, "a duplicate name is accepted"); num[k] = -1; dups++; } else { ASSERT(r == 1, "a new name is rejected"); num[k] = cnt[kind[k]]++; }
    ASSERT(gNumStates == cnt[0] && gNumActions == cnt[1] && gNumObservations == cnt[2], "counts of names");
  }
}
static void lookups(int m) {
  mode = m; H_create(); enters(N); char q[L + 2]; name(q); int k = in_int(0, 2), want = -1; for (int j = 0; j < N; j++) if (num[j] >= 0 && kind[j] == k && same(nm[j], q)) want = num[j];
  int got = H_lookup(q, (Mnemonic_Type)k); if (want >= 0) { ASSERT(got == want, "a listed name has the wrong index"); COVER("found"); } else { ASSERT(got == -1, "an unknown name is found"); COVER("unknown"); } if (dups) COVER("duplicate"); }
CASE(short_names, "any 3 (thorough 4) one- or two-letter names of any kinds listed in any order, then any such name of any kind looked up", "--unwind 13", "--unwind 14") { lookups(0); }
CASE(long_names, "the same for names that share their hash and differ in length or in inner letters", "--unwind 13", "--unwind 14") { lookups(1); }
CASE(three_letters, "the same for three-letter names over a small alphabet, where orders of letters collide", "--unwind 13", "--unwind 14") { lookups(2); }
CASE(reuse, "a second model after any first one starts from nothing", "--unwind 13 --unwindset H_destroy.0:3 --unwindset H_destroy.1:257", "--unwind 14 --unwindset H_destroy.0:3 --unwindset H_destroy.1:257") {
  mode = 0; H_create(); enters(1); H_destroy(); H_create(); ASSERT(gNumStates == 0 && gNumActions == 0 && gNumObservations == 0, "counts not reset"); char q[L + 2]; name(q); int k = in_int(0, 2); ASSERT(H_lookup(q, (Mnemonic_Type)k) == -1, "a name of the previous model is found"); ASSERT(H_enter(q, (Mnemonic_Type)k) == 1 && H_lookup(q, (Mnemonic_Type)k) == 0, "first name of the second model"); COVER("reuse"); }
CASE(range, "the hash of every name of up to 6 letters (any letters) is inside the table: listing and finding it touches no memory outside", "--unwind 13", "") {
  char s[8]; u64 w = in_u64(); int n = in_int(1, 6); for (int i = 0; i < 8; i++) { char c = (char)(w >> (8 * i)); if (i < n) { ASSUME(later(c)); s[i] = c; } else s[i] = 0; } H_create(); ASSERT(H_enter(s, nt_state) == 1, "a name is rejected"); COVER("entered"); }
