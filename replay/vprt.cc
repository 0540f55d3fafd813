// Native side of harness/vp.h: runs a harness against the real, compiled code on
// the values (and the schedule) of one model.
//   REPLAY model-file [output-file]
// exit 0: the run held; 4: the model does not satisfy the harness's assumptions;
// anything else (assertion, sanitizer report, uncaught exception, crash): reproduced.
#include "vp.h"
#include <pthread.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <unistd.h>
#include <iostream>
#include <map>
#include <sstream>
typedef u128_t U;
static std::map<std::string, U> vals; static std::map<std::string, long> pars; static std::map<std::string, unsigned long> cnt;
static std::vector<int> sched; static size_t schedPos = 0; static std::vector<std::vector<U>> lams; static std::vector<U> view; static FILE *out = nullptr;
static unsigned fieldW = 61; static int nofiles = 0;
static U parseHex(const std::string &s) { U v = 0; for (char c : s) { int d = c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : -1; if (d >= 0) v = v * 16 + (U)d; } return v; }
static std::string hexs(U v) { char b[40]; if (v >> 64) snprintf(b, sizeof b, "%lx%016lx", (unsigned long)(v >> 64), (unsigned long)v); else snprintf(b, sizeof b, "%lx", (unsigned long)v); return b; }
static std::string uniq(const char *n) { unsigned long k = cnt[n]++; return k ? std::string(n) + "#" + std::to_string(k) : std::string(n); }
static bool find(const std::string &n, U &v) { auto it = vals.find(n); if (it == vals.end()) return false; v = it->second; return true; }
static U maskw(unsigned w) { return w >= 128 ? ~(U)0 : ((U)1 << w) - 1; }
static void finish(int rc) { if (out) fclose(out); fflush(stdout); fflush(stderr); _exit(rc); }
static void done() {
  if (out && view.size()) { U p = maskw(fieldW); auto mul = [&](U a, U b) { U r = 0; a %= p; while (b) { if (b & 1) { r += a; if (r >= p) r -= p; } a += a; if (a >= p) a -= p; b >>= 1; } return r; };
    for (auto &lam : lams) { U s = 0; for (size_t i = 0; i < view.size() && i < lam.size(); i++) { s += mul(view[i], lam[i] % p); if (s >= p) s -= p; } fprintf(out, "VIEW %s\n", hexs(s).c_str()); } }
  finish(0);
}
extern "C" {
unsigned long vp_sym(unsigned bits, const char *name) { U v = 0; find(uniq(name), v); return (unsigned long)(v & maskw(bits)); }
void vp_sym128(void *p, unsigned bits, const char *name) { U v = 0; find(uniq(name), v); v &= maskw(bits); memcpy(p, &v, 16); }
void vp_bytes(void *p, unsigned long n, const char *name) { std::string u = uniq(name); for (unsigned long i = 0, c = 0; i < n; i += 16, c++) { U v = 0; find(u + "." + std::to_string(c), v); memcpy((char *)p + i, &v, n - i < 16 ? n - i : 16); } }
void vp_field(void *p, const char *name) { U v = 0; find(uniq(name), v); v %= maskw(fieldW); memcpy(p, &v, fieldW == 61 ? 8 : 16); }
unsigned long vp_range(unsigned long lo, unsigned long hi, const char *name) { if (lo == hi) return lo; U v = 0; find(uniq(name), v); v += lo; if (v < lo || v > hi) { printf("value of %s outside its range\n", name); finish(4); } return (unsigned long)v; }
long vp_choose(long lo, long hi, const char *name) { U v; (void)hi; if (find(uniq(name), v)) return (long)v; return lo; }
void vp_assume(int c) { if (!c) { printf("assumption not satisfied\n"); finish(4); } }
void vp_assert(int c, const char *msg) { if (!c) { printf("ASSERTION FAILED: %s\n", msg); finish(1); } }
void vp_assert_sweep(int c, const char *msg) { vp_assert(c, msg); }
void vp_assert_eq(const void *a, const void *b, unsigned long n, int, const char *msg) { if (memcmp(a, b, n)) { unsigned long i = 0; while (((const char *)a)[i] == ((const char *)b)[i]) i++; printf("ASSERTION FAILED: %s (first difference at byte %lu of %lu)\n", msg, i, n); finish(1); } }
void vp_reach(const char *m) { if (out) fprintf(out, "REACH %s\n", m); }
long vp_param(const char *name, long def) { auto it = pars.find(name); return it == pars.end() ? def : it->second; }
void vp_observe(const char *name, unsigned long v) { if (out) fprintf(out, "OBS %s %lx\n", name, v); }
void vp_view(const void *p) { U v = 0; memcpy(&v, p, fieldW == 61 ? 8 : 16); view.push_back(v); }
void vp_view_reset(void) { view.clear(); }
void vp_indist(const char *) { if (lams.size()) done(); view.clear(); }
void vp_fail(const char *msg) { printf("FAILED: %s\n", msg); finish(1); }
static void (*abortFn)(void) = nullptr;
static void onabort(int) { if (abortFn) abortFn(); finish(0); }
void vp_abort_ok(void (*f)(void)) { abortFn = f; signal(SIGABRT, onabort); }
void vp_end(void) { done(); for (;;) {} }
void vp_log(const char *m, unsigned long v) { fprintf(stderr, "[log] %s %lx\n", m, v); }
unsigned long vp_concrete(unsigned long v) { return v; }
int vp_issym(unsigned long) { return 0; }
#ifdef VP_REAL
void __tsan_acquire(void *); void __tsan_release(void *);
void vp_acq(void *p) { __tsan_acquire(p); }
void vp_rel(void *p) { __tsan_release(p); }
#else
void vp_acq(void *) {}
void vp_rel(void *) {}
#endif
void *vp_current_exc(void) { return nullptr; }
void vp_rethrow(void *) { abort(); }
void vp_noyield(int);
}
#ifdef VP_REAL
// ---- real threads, for the confirmation of data races by ThreadSanitizer
static __thread int me = 0; static int nth = 0;
struct RT { void (*f)(void *); void *a; int id; }; static void *rmain(void *p) { RT t = *(RT *)p; delete (RT *)p; me = t.id; t.f(t.a); return nullptr; }
extern "C" {
int vp_thread(void (*f)(void *), void *a) { RT *t = new RT{f, a, ++nth}; pthread_t h; int id = t->id; pthread_create(&h, nullptr, rmain, t); pthread_detach(h); return id; }
int vp_self(void) { return me; }
void vp_noyield(int) {}
void vp_yield(void) { usleep(50); }
void vp_block_while(int *p) { while (__atomic_load_n(p, __ATOMIC_ACQUIRE)) usleep(50); }
#else
// ---- threads, run one at a time in the order the model prescribes
struct T { pthread_t h; pthread_cond_t c; volatile int *block; bool done; void (*f)(void *); void *a; int id; };
static std::vector<T *> th; static int cur = 0; static pthread_mutex_t mu = PTHREAD_MUTEX_INITIALIZER; static __thread int me = 0; static int noY = 0;
static T *mk() { T *t = new T(); pthread_cond_init(&t->c, nullptr); t->block = nullptr; t->done = false; t->id = (int)th.size(); th.push_back(t); return t; }
static bool enabled(int k) { return !th[(size_t)k]->done && (!th[(size_t)k]->block || !*th[(size_t)k]->block); }
static void pick() { // choose the next thread; called with mu held
  std::vector<int> en; for (int k = 0; k < (int)th.size(); k++) if (enabled(k)) en.push_back(k);
  if (en.empty()) { printf("DEADLOCK: no thread can make progress\n"); finish(1); }
  int nx = -1; bool curEn = false; for (int k : en) if (k == cur) curEn = true;
  if (en.size() > 1 && schedPos < sched.size()) { nx = sched[schedPos++]; bool ok = false; for (int k : en) if (k == nx) ok = true; if (!ok) { printf("the schedule does not fit the program\n"); finish(5); } }
  else nx = curEn ? cur : en[0];
  cur = nx; th[(size_t)nx]->block = nullptr; pthread_cond_signal(&th[(size_t)nx]->c);
}
static void waitTurn() { while (cur != me) pthread_cond_wait(&th[(size_t)me]->c, &mu); }
static void *tmain(void *p) { T *t = (T *)p; me = t->id; pthread_mutex_lock(&mu); waitTurn(); pthread_mutex_unlock(&mu); t->f(t->a); pthread_mutex_lock(&mu); t->done = true; pick(); pthread_mutex_unlock(&mu); return nullptr; }
extern "C" {
int vp_thread(void (*f)(void *), void *a) { pthread_mutex_lock(&mu); T *t = mk(); t->f = f; t->a = a; pthread_create(&t->h, nullptr, tmain, t); pthread_mutex_unlock(&mu); return t->id; }
int vp_self(void) { return me; }
void vp_noyield(int v) { noY = v; }
void vp_yield(void) { if (th.size() < 2 || noY) return; pthread_mutex_lock(&mu); pick(); waitTurn(); pthread_mutex_unlock(&mu); }
void vp_block_while(int *p) { if (!*(volatile int *)p) return; pthread_mutex_lock(&mu); th[(size_t)me]->block = p; pick(); waitTurn(); pthread_mutex_unlock(&mu); }
#endif
static const unsigned char *sbox() { static unsigned char s[256]; static bool init = false; if (!init) { init = true; unsigned char p = 1, q = 1; do { p = (unsigned char)(p ^ (p << 1) ^ ((p & 0x80) ? 0x1B : 0)); q ^= (unsigned char)(q << 1); q ^= (unsigned char)(q << 2); q ^= (unsigned char)(q << 4); if (q & 0x80) q ^= 0x09; auto r = [&](int k) { return (unsigned char)((q << k) | (q >> (8 - k))); }; s[p] = (unsigned char)(q ^ r(1) ^ r(2) ^ r(3) ^ r(4) ^ 0x63); } while (p != 1); s[0] = 0x63; } return s; }
unsigned vp_sbox(unsigned v) { return sbox()[v & 255]; }
}
std::string vp_file(const std::string &content) { std::string n = "vpfile" + std::to_string(nofiles++); FILE *f = fopen(n.c_str(), "wb"); fwrite(content.data(), 1, content.size(), f); fclose(f); return n; }
static std::ostringstream *cap = nullptr; static std::streambuf *old = nullptr; static std::string capS;
const std::string &vp_stdout() { if (cap) capS = cap->str(); return capS; }
void vp_stdout_capture(bool on) { if (on && !old) { if (!cap) cap = new std::ostringstream; old = std::cout.rdbuf(cap->rdbuf()); } else if (!on && old) { capS = cap->str(); std::cout.rdbuf(old); old = nullptr; } }
int main(int argc, char **argv) {
  if (argc < 2) { fprintf(stderr, "usage: %s model [out]\n", argv[0]); return 3; }
  FILE *f = fopen(argv[1], "r"); if (!f) return 3;
  static char line[1 << 16];
  while (fgets(line, sizeof line, f)) {
    std::string s = line; while (s.size() && (s.back() == '\n' || s.back() == '\r')) s.pop_back(); if (s.size() < 2 || s[0] == '#') continue;
    char k = s[0]; s = s.substr(2);
    if (k == 'S' || k == 'L') { if (k == 'L') lams.emplace_back(); size_t i = 0; while (i < s.size()) { size_t j = s.find(' ', i); if (j == std::string::npos) j = s.size(); std::string w = s.substr(i, j - i); if (w.size()) { if (k == 'S') sched.push_back(atoi(w.c_str())); else { auto &lam = lams.back(); size_t c = w.find(':'), at = lam.size(); if (c != std::string::npos) at = strtoul(w.c_str(), nullptr, 10); if (lam.size() <= at) lam.resize(at + 1, 0); lam[at] = parseHex(c == std::string::npos ? w : w.substr(c + 1)); } } i = j + 1; } continue; }
    size_t j = s.rfind(' '); std::string n = s.substr(0, j), v = s.substr(j + 1);
    if (k == 'P') { pars[n] = strtol(v.c_str(), nullptr, 0); if (n == "field") fieldW = pars[n] == 127 ? 127 : 61; } else if (k == 'V') vals[n] = parseHex(v);
  }
  fclose(f);
  if (argc > 2) out = fopen(argv[2], "w");
#ifndef VP_REAL
  mk(); me = 0; cur = 0;
#endif
  vp_main();
  done();
}
