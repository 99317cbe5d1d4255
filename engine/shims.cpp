// Instrumented stand-ins for C library routines that read program data, so the
// reads stay symbolic. Compiled with the pass.
#include <cstddef>
#include <cstdint>
#include <charconv>
#include <cerrno>
#include <system_error>
#include "symx.h"
#include <string>
extern "C" {
const char *symx_format_double(const char *fmt, double v);
std::string symx_shim_to_xstring(void *, size_t, const char *fmt, double v) {
  return symx_format_double(fmt, v);
}
void *symx_shim_memchr(const void *p, int c, size_t n) {
  const unsigned char *s = (const unsigned char *)p;
  for (size_t i = 0; i < n; i++)
    if (s[i] == (unsigned char)c)
      return (void *)(s + i);
  return nullptr;
}
size_t symx_shim_strlen(const char *s) {
  size_t n = 0;
  while (s[n])
    n++;
  return n;
}
int symx_shim_memcmp(const void *a, const void *b, size_t n) {
  const unsigned char *x = (const unsigned char *)a,
                      *y = (const unsigned char *)b;
  // branch-free: difference at the first differing byte
  int r = 0;
  for (size_t i = n; i-- > 0;) {
    int d = (int)x[i] - (int)y[i];
    r = (d != 0) ? d : r;
  }
  return r;
}
int symx_shim_strcmp(const char *a, const char *b) {
  size_t i = 0;
  while (a[i] && a[i] == b[i])
    i++;
  return (int)(unsigned char)a[i] - (int)(unsigned char)b[i];
}
int symx_shim_strncmp(const char *a, const char *b, size_t n) {
  for (size_t i = 0; i < n; i++) {
    if (a[i] != b[i])
      return (int)(unsigned char)a[i] - (int)(unsigned char)b[i];
    if (!a[i])
      return 0;
  }
  return 0;
}
#define IN(c, l, h) ((unsigned)((c) - (l)) <= (unsigned)((h) - (l)))
int symx_shim_isdigit(int c) { return IN(c, '0', '9'); }
int symx_shim_isupper(int c) { return IN(c, 'A', 'Z'); }
int symx_shim_islower(int c) { return IN(c, 'a', 'z'); }
int symx_shim_isalpha(int c) { return IN(c, 'A', 'Z') | IN(c, 'a', 'z'); }
int symx_shim_isalnum(int c) {
  return IN(c, 'A', 'Z') | IN(c, 'a', 'z') | IN(c, '0', '9');
}
int symx_shim_isspace(int c) { return IN(c, 9, 13) | (c == 32); }
int symx_shim_isxdigit(int c) {
  return IN(c, 'A', 'F') | IN(c, 'a', 'f') | IN(c, '0', '9');
}
int symx_shim_isprint(int c) { return IN(c, 32, 126); }
int symx_shim_iscntrl(int c) { return IN(c, 0, 31) | (c == 127); }
int symx_shim_ispunct(int c) {
  return IN(c, 33, 47) | IN(c, 58, 64) | IN(c, 91, 96) | IN(c, 123, 126);
}
int symx_shim_tolower(int c) { return IN(c, 'A', 'Z') ? c + 32 : c; }
int symx_shim_toupper(int c) { return IN(c, 'a', 'z') ? c - 32 : c; }
// Any hash function is a correct one; a constant keeps hashing independent of
// the symbolic bytes, lookups then decide by equality.
size_t symx_shim_hash_bytes(const void *, size_t, size_t) { return 7; }

// Decimal floating literals. The bytes scanned become concrete (one path per
// value) only when the harness asked for exact floats ("floats=1"); otherwise
// the value of the literal is abstracted to 0 and only its extent is computed.
double symx_native_strtod(const char *s);
float symx_native_strtof(const char *s);
static size_t scanFloat(const char *s, size_t max, char *buf, size_t cap,
                        bool exact) {
  size_t i = 0, k = 0;
  auto put = [&](char c) {
    if (exact && k + 1 < cap)
      buf[k++] = (char)symx_api_conc((unsigned char)c);
  };
  auto at = [&](size_t j) { return j < max ? s[j] : '\0'; };
  if (at(i) == '+' || at(i) == '-')
    put(at(i++));
  bool d = false;
  while (symx_shim_isdigit((unsigned char)at(i)))
    put(at(i++)), d = true;
  if (at(i) == '.') {
    put(at(i++));
    while (symx_shim_isdigit((unsigned char)at(i)))
      put(at(i++)), d = true;
  }
  if (!d) {
    buf[0] = 0;
    return 0;
  }
  if (at(i) == 'e' || at(i) == 'E') {
    size_t j = i + 1;
    if (at(j) == '+' || at(j) == '-')
      j++;
    if (symx_shim_isdigit((unsigned char)at(j))) {
      while (i < j)
        put(at(i++));
      while (symx_shim_isdigit((unsigned char)at(i)))
        put(at(i++));
    }
  }
  buf[k] = 0;
  return i;
}
double symx_shim_strtod(const char *s, char **end) {
  char buf[64];
  bool exact = symx_param("floats", 0);
  size_t n = scanFloat(s, (size_t)-1, buf, sizeof buf, exact);
  if (end)
    *end = (char *)s + n;
  return exact ? symx_native_strtod(buf) : 0.0;
}
float symx_shim_strtof(const char *s, char **end) {
  char buf[64];
  bool exact = symx_param("floats", 0);
  size_t n = scanFloat(s, (size_t)-1, buf, sizeof buf, exact);
  if (end)
    *end = (char *)s + n;
  return exact ? symx_native_strtof(buf) : 0.0f;
}
std::from_chars_result symx_shim_from_chars_d(const char *b, const char *e,
                                              double &v, std::chars_format) {
  char buf[64];
  bool exact = symx_param("floats", 0);
  size_t n = (b < e && *b == '+') ? 0 : scanFloat(b, e - b, buf, sizeof buf, exact);
  if (!n)
    return {b, std::errc::invalid_argument};
  v = exact ? symx_native_strtod(buf) : 0.0;
  return {b + n, std::errc{}};
}
std::from_chars_result symx_shim_from_chars_f(const char *b, const char *e,
                                              float &v, std::chars_format) {
  char buf[64];
  bool exact = symx_param("floats", 0);
  size_t n = (b < e && *b == '+') ? 0 : scanFloat(b, e - b, buf, sizeof buf, exact);
  if (!n)
    return {b, std::errc::invalid_argument};
  v = exact ? symx_native_strtof(buf) : 0.0f;
  return {b + n, std::errc{}};
}
static int digitOf(unsigned char c) {
  return IN(c, '0', '9') ? c - '0'
         : IN(c, 'a', 'z') ? c - 'a' + 10
         : IN(c, 'A', 'Z') ? c - 'A' + 10 : 99;
}
static uint64_t strtoany(const char *s, char **end, int base, bool &neg,
                         bool &over) {
  const char *p = s;
  neg = over = false;
  while (symx_shim_isspace((unsigned char)*p))
    p++;
  if (*p == '+' || *p == '-')
    neg = *p++ == '-';
  if ((base == 0 || base == 16) && p[0] == '0' && (p[1] | 32) == 'x' &&
      digitOf(p[2]) < 16) {
    p += 2;
    base = 16;
  } else if (base == 0)
    base = *p == '0' ? 8 : 10;
  uint64_t v = 0;
  bool any = false;
  for (;; p++) {
    int d = digitOf((unsigned char)*p);
    if (d >= base)
      break;
    any = true;
    uint64_t m;
    if (__builtin_mul_overflow(v, (uint64_t)base, &m) ||
        __builtin_add_overflow(m, (uint64_t)d, &m))
      over = true;
    v = m;
  }
  if (end)
    *end = (char *)(any ? p : s);
  return v;
}
long symx_shim_strtol(const char *s, char **end, int base) {
  bool neg, over;
  uint64_t v = strtoany(s, end, base, neg, over);
  if (over || v > (uint64_t)INT64_MAX + neg) {
    errno = ERANGE;
    return neg ? INT64_MIN : INT64_MAX;
  }
  return neg ? (long)(0 - v) : (long)v;
}
unsigned long symx_shim_strtoul(const char *s, char **end, int base) {
  bool neg, over;
  uint64_t v = strtoany(s, end, base, neg, over);
  if (over) {
    errno = ERANGE;
    return UINT64_MAX;
  }
  return neg ? 0 - v : v;
}
}
