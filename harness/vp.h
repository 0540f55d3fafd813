// Interface between the harnesses and the checker. In a symbolic run the calls
// are modelled by engine/builtins.inc, in a replay by replay/vprt.cc.
#ifndef VP_H
#define VP_H
#include <cstddef>
#include <cstdint>
#include <cstring>
#include <string>
#include <vector>
typedef unsigned __int128 u128_t;
extern "C" {
unsigned long vp_sym(unsigned bits, const char *name);
void vp_sym128(void *p, unsigned bits, const char *name);
void vp_bytes(void *p, unsigned long n, const char *name);
void vp_field(void *p, const char *name);
unsigned long vp_range(unsigned long lo, unsigned long hi, const char *name);
long vp_choose(long lo, long hi, const char *name);
void vp_assume(int c);
void vp_assert(int c, const char *msg);
void vp_assert_sweep(int c, const char *msg);
void vp_assert_eq(const void *a, const void *b, unsigned long n, int sweep, const char *msg);
void vp_reach(const char *);
long vp_param(const char *name, long def);
void vp_observe(const char *name, unsigned long v);
void vp_view(const void *p);
void vp_view_reset(void);
void vp_indist(const char *msg);
int vp_thread(void (*f)(void *), void *a);
int vp_self(void);
void vp_yield(void);
void vp_block_while(int *);
void vp_noyield(int);
void vp_acq(void *);
void vp_rel(void *);
void vp_fail(const char *msg);
void vp_abort_ok(void (*f)(void));
void vp_end(void) __attribute__((noreturn));
void vp_log(const char *, unsigned long);
unsigned long vp_concrete(unsigned long);
int vp_issym(unsigned long);
void vp_main(void);
unsigned vp_sbox(unsigned);
}
static inline u128_t vp_u128(unsigned bits, const char *n) { u128_t r; vp_sym128(&r, bits, n); return r; }
static inline std::string vp_name(const char *p, long a) { char b[64]; size_t n = 0; while (p[n] && n < 40) { b[n] = p[n]; n++; } char d[24]; int k = 0; if (!a) d[k++] = '0'; while (a) { d[k++] = (char)('0' + a % 10); a /= 10; } while (k) b[n++] = d[--k]; return std::string(b, n); }
static inline std::string vp_name(const char *p, long a, long b) { return vp_name((vp_name(p, a) + "_").c_str(), b); }
static inline std::string vp_name(const char *p, long a, long b, long c) { return vp_name((vp_name(p, a, b) + "_").c_str(), c); }
// run f and report whether it threw
template <class F> static inline bool vp_throws(F f) { try { f(); } catch (...) { return true; } return false; }
#ifdef VP_SYM
std::string vp_file(const std::string &content);       // a readable file with that content
const std::string &vp_stdout();                        // what was printed so far
void vp_stdout_capture(bool on);
#else
std::string vp_file(const std::string &content);
const std::string &vp_stdout();
void vp_stdout_capture(bool on);
#endif
#endif
