// Compiled with the instrumentation pass: natives re-implemented so that
// symbolic data flows through them.
#include <stddef.h>
#include <string.h>
void symr_w_qsort(void *base, size_t n, size_t sz, int (*cmp)(const void *, const void *)) {
  char *b = base; char t[256];
  if (sz > sizeof t) return;
  for (size_t i = 1; i < n; i++)
    for (size_t j = i; j > 0 && cmp(b + (j - 1) * sz, b + j * sz) > 0; j--) {
      memcpy(t, b + j * sz, sz); memcpy(b + j * sz, b + (j - 1) * sz, sz); memcpy(b + (j - 1) * sz, t, sz);
    }
}
int symr_w_memcmp(const void *a, const void *b, size_t n) {
  const unsigned char *x = a, *y = b;
  for (size_t i = 0; i < n; i++) if (x[i] != y[i]) return x[i] < y[i] ? -1 : 1;
  return 0;
}
long symr_w_strtol(const char *s, char **end, int base) { // base 10, no overflow beyond long within 18 digits
  while (*s == ' ' || (*s >= '\t' && *s <= '\r')) s++;
  int neg = 0; if (*s == '-') { neg = 1; s++; } else if (*s == '+') s++;
  long v = 0; int k = 0; for (; *s >= '0' && *s <= '9'; s++) if (k++ < 18) v = v * 10 + (*s - '0');
  return neg ? -v : v;
}
