/* C library parts for symbolic execution. */
typedef unsigned long size_t;
void *malloc(size_t); void vp_yield(void); void *memcpy(void *, const void *, size_t); void vp_putc(int);
size_t strlen(const char *s) { size_t n = 0; while (s[n]) n++; return n; }
int strcmp(const char *a, const char *b) { while (*a && *a == *b) a++, b++; return (unsigned char)*a - (unsigned char)*b; }
int strncmp(const char *a, const char *b, size_t n) { for (; n; n--, a++, b++) { if (*a != *b) return (unsigned char)*a - (unsigned char)*b; if (!*a) return 0; } return 0; }
void *memchr(const void *p, int c, size_t n) { const unsigned char *s = p; for (; n; n--, s++) if (*s == (unsigned char)c) return (void *)s; return 0; }
char *strcpy(char *d, const char *s) { char *r = d; while ((*d++ = *s++)) {} return r; }
char *strncpy(char *d, const char *s, size_t n) { size_t i = 0; for (; i < n && s[i]; i++) d[i] = s[i]; for (; i < n; i++) d[i] = 0; return d; }
char *strchr(const char *s, int c) { for (;; s++) { if (*s == (char)c) return (char *)s; if (!*s) return 0; } }
char *strdup(const char *s) { size_t n = strlen(s) + 1; char *r = malloc(n); memcpy(r, s, n); return r; }
int putchar(int c) { vp_putc(c); return c; }
int puts(const char *s) { for (; *s; s++) vp_putc(*s); vp_putc('\n'); return 0; }
int __cxa_guard_acquire(char *g) { return !*g; }
void __cxa_guard_release(char *g) { *g = 1; }
void __cxa_guard_abort(char *g) { (void)g; }
int nanosleep(const void *a, void *b) { (void)a; (void)b; vp_yield(); return 0; }
int usleep(unsigned u) { (void)u; vp_yield(); return 0; }
int sched_yield(void) { vp_yield(); return 0; }
__attribute__((weak)) void *localtime(const long *t) { static long b[16]; (void)t; return b; }
long time(long *t) { if (t) *t = 0; return 0; }
/* numbers from text, character classes */
int *__errno_location(void);
static int digit_(int c) { return c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'z' ? c - 'a' + 10 : c >= 'A' && c <= 'Z' ? c - 'A' + 10 : 99; }
static unsigned long number_(const char *s, char **e, int base, int *neg, int *big) {
  const char *p = s; unsigned long v = 0; int any = 0; *neg = *big = 0;
  while (*p == ' ' || (*p >= '\t' && *p <= '\r')) p++;
  if (*p == '-' || *p == '+') *neg = *p++ == '-';
  if ((base == 0 || base == 16) && p[0] == '0' && (p[1] == 'x' || p[1] == 'X') && digit_(p[2]) < 16) p += 2, base = 16;
  if (base == 0) base = *p == '0' ? 8 : 10;
  for (; digit_(*p) < base; p++) { unsigned long d = digit_(*p); any = 1; if (v > (~0ul - d) / base) *big = 1; v = v * base + d; }
  if (e) *e = (char *)(any ? p : s);
  return v;
}
__attribute__((weak)) unsigned long strtoul(const char *s, char **e, int b) { int neg, big; unsigned long v = number_(s, e, b, &neg, &big); if (big) { *__errno_location() = 34; return ~0ul; } return neg ? -v : v; }
__attribute__((weak)) unsigned long long strtoull(const char *s, char **e, int b) { return strtoul(s, e, b); }
__attribute__((weak)) long strtol(const char *s, char **e, int b) { int neg, big; unsigned long v = number_(s, e, b, &neg, &big); if (big || v > (~0ul >> 1) + neg) { *__errno_location() = 34; return neg ? (long)(1ul << 63) : (long)(~0ul >> 1); } return neg ? (long)-v : (long)v; }
__attribute__((weak)) long long strtoll(const char *s, char **e, int b) { return strtol(s, e, b); }
__attribute__((weak)) int atoi(const char *s) { return (int)strtol(s, 0, 10); }
__attribute__((weak)) long atol(const char *s) { return strtol(s, 0, 10); }
__attribute__((weak)) int isdigit(int c) { return c >= '0' && c <= '9'; }
__attribute__((weak)) int isspace(int c) { return c == ' ' || (c >= '\t' && c <= '\r'); }
__attribute__((weak)) int isalpha(int c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z'); }
__attribute__((weak)) int isalnum(int c) { return isalpha(c) || isdigit(c); }
__attribute__((weak)) int isxdigit(int c) { return digit_(c) < 16; }
__attribute__((weak)) int isupper(int c) { return c >= 'A' && c <= 'Z'; }
__attribute__((weak)) int islower(int c) { return c >= 'a' && c <= 'z'; }
__attribute__((weak)) int toupper(int c) { return islower(c) ? c - 32 : c; }
__attribute__((weak)) int tolower(int c) { return isupper(c) ? c + 32 : c; }
__attribute__((weak)) unsigned long __isoc23_strtoul(const char *s, char **e, int b) { return strtoul(s, e, b); }
__attribute__((weak)) unsigned long long __isoc23_strtoull(const char *s, char **e, int b) { return strtoul(s, e, b); }
__attribute__((weak)) long __isoc23_strtol(const char *s, char **e, int b) { return strtol(s, e, b); }
__attribute__((weak)) long long __isoc23_strtoll(const char *s, char **e, int b) { return strtol(s, e, b); }
