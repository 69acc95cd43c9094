#include "common.h"
SEXP S_assume_ascii(SEXP b) { int bad = 0; for (long i = 0; i < XLENGTH(b); i++) bad |= (RAW(b)[i] == 0) | (RAW(b)[i] > 127); symr_api_assume(!bad); return R_NilValue; }
static int dig(unsigned char c) { return (c >= '0') & (c <= '9'); }
// length of s without its trailing "...<digits>" groups (at least one character is before them), branch-free
static long base_len(const unsigned char *s, long n) {
  long cut = n; int grp[64] = {0}; // grp[i]: the rest of the string from i is one or more suffix groups
  for (long i = n - 4; i >= 1; i--) {
    int g = 0, run = 1, dots = (s[i] == '.') & (s[i + 1] == '.') & (s[i + 2] == '.');
    for (long j = i + 3; j < n; j++) { run &= dig(s[j]); g |= run & ((j + 1 == n) | grp[j + 1]); }
    grp[i] = g & dots;
  }
  for (long i = n - 1; i >= 1; i--) cut = SEL(grp[i], i, cut);
  return cut;
}
// "..", digits... : names R reserves
static int reserved(const unsigned char *s, long n) { return n < 3 ? 0 : (n == 3) & (s[0] == '.') & (s[1] == '.') & (s[2] == '.'); }
static int lead_num(const unsigned char *s, long n, long from) { // the number at the start of s+from is not zero (as strtol reads it)
  int state = 0, nz = 0; // 0 blanks, 1 digits after optional sign, 2 stop
  for (long i = from; i < n; i++) {
    int c = s[i], sp = (c == ' ') | ((c >= 9) & (c <= 13)), sg = (c == '-') | (c == '+'), d = dig(c);
    int st0 = state == 0, st1 = state == 1;
    nz |= (st0 | st1) & d & (c != '0');
    state = (int)SEL(st0, SEL(sp, 0, SEL(sg | d, 1, 2)), SEL(st1, SEL(d, 1, 2), 2));
  }
  return nz;
}
static int needs(const unsigned char *s, long n) {
  if (n == 0) return 1; if (n < 3) return 0;
  int dd = (s[0] == '.') & (s[1] == '.'), third = s[2] == '.';
  int num = SEL(third, lead_num(s, n, 3), lead_num(s, n, 2));
  return reserved(s, n) | (dd & num);
}
static const unsigned char *bytes(SEXP x) { return (const unsigned char *)CHAR(STRING_ELT(x, 0)); }
// a single name x (n bytes) repaired to r, position pos, others distinct from it
SEXP S_unique_one(SEXP x, SEXP len, SEXP pos_, SEXP r) {
  long n = int1(len), pos = int1(pos_); const unsigned char *s = bytes(x), *t = (const unsigned char *)CHAR(STRING_ELT(r, pos - 1)); long m = LENGTH(STRING_ELT(r, pos - 1));
  int ns = needs(s, n); long b = base_len(s, n); ns |= n < 3 ? 0 : (b == 3) & (s[0] == '.') & (s[1] == '.') & (s[2] == '.'); b = SEL(ns, 0, b);
  const char *e = "names: a name that is unique without its suffix loses only the suffix", *f = "names: a name that cannot stand becomes ...<position>";
  int blank = b == 0;
  // expected: s[0..b) or "...<pos>"
  ASSERT(blank ? 1 : m == b, e);
  for (long i = 0; i < m && i < n; i++) ASSERT(blank | (i >= b) | (t[i] == s[i]), e);
  ASSERT(!blank | (m == 4), f); if (m == 4) ASSERT(!blank | ((t[0] == '.') & (t[1] == '.') & (t[2] == '.') & (t[3] == '0' + pos)), f);
  return R_NilValue;
}
SEXP S_is_unique_one(SEXP x, SEXP len, SEXP r) { long n = int1(len); ASSERT(flag(r) == !needs(bytes(x), n), "names: is unique exactly when no repair is needed"); return R_NilValue; }
SEXP S_same_bytes(SEXP a, SEXP b, SEXP msg) { // single strings
  const char *m = CHAR(STRING_ELT(msg, 0)); int ok = XLENGTH(a) == XLENGTH(b); ASSERT(ok, m); if (!ok) return R_NilValue;
  for (long k = 0; k < XLENGTH(a); k++) { SEXP p = STRING_ELT(a, k), q = STRING_ELT(b, k); ok = LENGTH(p) == LENGTH(q); ASSERT(ok, m); if (ok) for (long i = 0; i < LENGTH(p); i++) ASSERT(CHAR(p)[i] == CHAR(q)[i], m); }
  return R_NilValue;
}
SEXP S_assume_other(SEXP x, SEXP len, SEXP first) { // does not begin with this byte
  long n = int1(len); const unsigned char *s = bytes(x); int bad = n ? s[0] == RAW(first)[0] : 0; symr_api_assume(!bad); return R_NilValue;
}
