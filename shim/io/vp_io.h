// Minimal stream library for symbolic execution: the subset of <iostream>,
// <sstream>, <iomanip> and <fstream> that the project uses.
#ifndef VP_IO_H
#define VP_IO_H
#include <iosfwd>
#include <string>
#include <cstdint>
#include <cstddef>
#include <ctime>
#include <vector>
#include <utility>
namespace std {
class ios_base {
 public:
  typedef unsigned fmtflags; typedef unsigned iostate; typedef unsigned openmode; typedef long long streamsize_;
  static constexpr fmtflags dec = 1, hex = 2, oct = 4, left = 8, right = 16, internal = 32, uppercase = 64, boolalpha = 128, showbase = 256, fixed = 512, scientific = 1024, basefield = 7, adjustfield = 56, floatfield = 1536, skipws = 2048, showpos = 4096, unitbuf = 8192;
  static constexpr iostate goodbit = 0, badbit = 1, eofbit = 2, failbit = 4;
  static constexpr openmode in = 1, out = 2, app = 4, ate = 8, trunc = 16, binary = 32;
  fmtflags f_ = dec | skipws; long w_ = 0; long p_ = 6; iostate s_ = 0; char fill_ = ' ';
  fmtflags flags() const { return f_; } fmtflags flags(fmtflags f) { auto o = f_; f_ = f; return o; }
  fmtflags setf(fmtflags f) { auto o = f_; f_ |= f; return o; } fmtflags setf(fmtflags f, fmtflags m) { auto o = f_; f_ = (f_ & ~m) | (f & m); return o; } void unsetf(fmtflags f) { f_ &= ~f; }
  long width() const { return w_; } long width(long w) { auto o = w_; w_ = w; return o; } long precision() const { return p_; } long precision(long p) { auto o = p_; p_ = p; return o; }
  virtual ~ios_base() {}
  static bool sync_with_stdio(bool = true) { return true; }
};
template <> class basic_ios<char, char_traits<char>> : public ios_base {
 public:
  bool good() const { return s_ == 0; } bool eof() const { return s_ & eofbit; } bool fail() const { return s_ & (failbit | badbit); } bool bad() const { return s_ & badbit; }
  iostate rdstate() const { return s_; } void clear(iostate s = 0) { s_ = s; } void setstate(iostate s) { s_ |= s; }
  explicit operator bool() const { return !fail(); } bool operator!() const { return fail(); }
  char fill() const { return fill_; } char fill(char c) { char o = fill_; fill_ = c; return o; }
};
inline ios_base &hex(ios_base &b) { b.setf(ios_base::hex, ios_base::basefield); return b; }
inline ios_base &dec(ios_base &b) { b.setf(ios_base::dec, ios_base::basefield); return b; }
inline ios_base &oct(ios_base &b) { b.setf(ios_base::oct, ios_base::basefield); return b; }
inline ios_base &uppercase(ios_base &b) { b.setf(ios_base::uppercase); return b; }
inline ios_base &nouppercase(ios_base &b) { b.unsetf(ios_base::uppercase); return b; }
inline ios_base &boolalpha(ios_base &b) { b.setf(ios_base::boolalpha); return b; }
inline ios_base &left(ios_base &b) { b.setf(ios_base::left, ios_base::adjustfield); return b; }
inline ios_base &right(ios_base &b) { b.setf(ios_base::right, ios_base::adjustfield); return b; }
inline ios_base &fixed(ios_base &b) { b.setf(ios_base::fixed, ios_base::floatfield); return b; }
inline ios_base &showbase(ios_base &b) { b.setf(ios_base::showbase); return b; }

template <> class basic_ostream<char, char_traits<char>> : virtual public basic_ios<char, char_traits<char>> {
 public:
  virtual void put_(const char *p, size_t n) = 0;
  void pad_(const char *p, size_t n, size_t sign = 0) {
    long w = w_; w_ = 0;
    if (w > 0 && (size_t)w > n) {
      size_t k = (size_t)w - n; string z(k, fill_);
      if ((f_ & adjustfield) == left) { put_(p, n); put_(z.data(), k); }
      else if ((f_ & adjustfield) == internal) { put_(p, sign); put_(z.data(), k); put_(p + sign, n - sign); }
      else { put_(z.data(), k); put_(p, n); }
    } else put_(p, n);
  }
  void num_(unsigned long v, bool neg) {
    char b[40]; size_t n = 0; int h = 0;
    if (f_ & hex) { int d = 1; while (d < 16 && (v >> (4 * d))) d++; for (int i = d - 1; i >= 0; i--) { unsigned x = (unsigned)(v >> (4 * i)) & 15; b[n++] = (char)(x + (x < 10 ? '0' : (f_ & uppercase ? 'A' : 'a') - 10)); } pad_(b, n, 0); return; }
    if (f_ & oct) { int d = 1; while (d < 22 && (v >> (3 * d))) d++; for (int i = d - 1; i >= 0; i--) b[n++] = (char)('0' + ((v >> (3 * i)) & 7)); pad_(b, n, 0); return; }
    if (neg) { b[n++] = '-'; h = 1; } else if (f_ & showpos) { b[n++] = '+'; h = 1; }
    int d = 1; unsigned long p = 10; while (d < 20 && v >= p) { d++; p *= 10; }
    unsigned long w = v; for (int i = d - 1; i >= 0; i--) { b[n + i] = (char)('0' + w % 10); w /= 10; }
    pad_(b, n + d, h);
  }
  basic_ostream &operator<<(long v) { if ((f_ & (hex | oct)) || v >= 0) num_((unsigned long)v, false); else num_(0ul - (unsigned long)v, true); return *this; }
  basic_ostream &operator<<(unsigned long v) { num_(v, false); return *this; }
  basic_ostream &operator<<(long long v) { return *this << (long)v; }
  basic_ostream &operator<<(unsigned long long v) { return *this << (unsigned long)v; }
  basic_ostream &operator<<(int v) { if (f_ & (hex | oct)) num_((unsigned)v, false); else *this << (long)v; return *this; }
  basic_ostream &operator<<(unsigned v) { num_(v, false); return *this; }
  basic_ostream &operator<<(short v) { if (f_ & (hex | oct)) num_((unsigned short)v, false); else *this << (long)v; return *this; }
  basic_ostream &operator<<(unsigned short v) { num_(v, false); return *this; }
  basic_ostream &operator<<(bool v) { if (f_ & boolalpha) { if (v) pad_("true", 4); else pad_("false", 5); } else num_(v, false); return *this; }
  basic_ostream &operator<<(double v) { long i = (long)v; return *this << i; }
  basic_ostream &operator<<(float v) { return *this << (double)v; }
  basic_ostream &operator<<(const void *) { pad_("0x1", 3); return *this; }
  basic_ostream &operator<<(basic_ostream &(*f)(basic_ostream &)) { return f(*this); }
  basic_ostream &operator<<(ios_base &(*f)(ios_base &)) { f(*this); return *this; }
  basic_ostream &put(char c) { put_(&c, 1); return *this; }
  basic_ostream &write(const char *p, long n) { put_(p, (size_t)n); return *this; }
  basic_ostream &flush() { return *this; }
};
inline ostream &operator<<(ostream &o, char c) { o.pad_(&c, 1); return o; }
inline ostream &operator<<(ostream &o, signed char c) { return o << (char)c; }
inline ostream &operator<<(ostream &o, unsigned char c) { return o << (char)c; }
inline ostream &operator<<(ostream &o, const char *s) { size_t n = 0; while (s[n]) n++; o.pad_(s, n); return o; }
inline ostream &operator<<(ostream &o, const string &s) { o.pad_(s.data(), s.size()); return o; }
inline ostream &endl(ostream &o) { char c = '\n'; o.put_(&c, 1); return o; }
inline ostream &flush(ostream &o) { return o; }

template <> class basic_istream<char, char_traits<char>> : virtual public basic_ios<char, char_traits<char>> {
 public:
  virtual int peek_() = 0; virtual int get_() = 0; // -1 at the end
  int get() { int c = get_(); if (c < 0) setstate(eofbit | failbit); return c; }
  int peek() { int c = peek_(); if (c < 0) setstate(eofbit); return c; }
  basic_istream &get(char &c) { int x = get(); if (x >= 0) c = (char)x; return *this; }
  basic_istream &read(char *p, long n) { for (long i = 0; i < n; i++) { int c = get_(); if (c < 0) { setstate(eofbit | failbit); break; } p[i] = (char)c; } return *this; }
  template <class T> basic_istream &rdint_(T &v) {
    int c; while ((c = peek_()) == ' ' || c == '\n' || c == '\t' || c == '\r') get_();
    bool neg = false; if (c == '-' || c == '+') { neg = c == '-'; get_(); c = peek_(); }
    if (c < '0' || c > '9') { if (c < 0) setstate(eofbit); setstate(failbit); v = 0; return *this; }
    T x = 0; while ((c = peek_()) >= '0' && c <= '9') { x = x * 10 + (T)(c - '0'); get_(); } if (c < 0) setstate(eofbit);
    v = neg ? (T)(0 - x) : x; return *this;
  }
  basic_istream &operator>>(int &v) { return rdint_(v); } basic_istream &operator>>(unsigned &v) { return rdint_(v); }
  basic_istream &operator>>(long &v) { return rdint_(v); } basic_istream &operator>>(unsigned long &v) { return rdint_(v); }
  basic_istream &operator>>(unsigned short &v) { return rdint_(v); }
};
inline istream &getline(istream &is, string &s, char d) {
  s.clear(); if (is.s_) { is.setstate(ios_base::failbit); return is; }
  size_t n = 0; while (true) { int c = is.get_(); if (c < 0) { is.setstate(ios_base::eofbit); if (!n) is.setstate(ios_base::failbit); break; } n++; if ((char)c == d) break; s.push_back((char)c); }
  return is;
}
inline istream &getline(istream &is, string &s) { return getline(is, s, '\n'); }
inline istream &getline(istream &&is, string &s) { return getline(is, s, '\n'); }
inline istream &operator>>(istream &is, string &s) {
  s.clear(); int c; while ((c = is.peek_()) == ' ' || c == '\n' || c == '\t' || c == '\r') is.get_();
  if (c < 0) { is.setstate(ios_base::eofbit | ios_base::failbit); return is; }
  while ((c = is.peek_()) >= 0 && c != ' ' && c != '\n' && c != '\t' && c != '\r') { s.push_back((char)c); is.get_(); } if (c < 0) is.setstate(ios_base::eofbit);
  return is;
}
inline istream &ws(istream &is) { int c; while ((c = is.peek_()) == ' ' || c == '\n' || c == '\t' || c == '\r') is.get_(); return is; }
template <> class basic_iostream<char, char_traits<char>> : public basic_istream<char>, public basic_ostream<char> {};
struct vp_buf { string s; size_t g = 0; void put(const char *p, size_t n) { s.append(p, n); } int peek() { return g < s.size() ? (int)(unsigned char)s[g] : -1; } int get() { return g < s.size() ? (int)(unsigned char)s[g++] : -1; } };
template <> class basic_stringstream<char, char_traits<char>, allocator<char>> : public basic_iostream<char> {
  vp_buf b;
 public:
  basic_stringstream() {} explicit basic_stringstream(const string &s, openmode = 3) { b.s = s; } explicit basic_stringstream(openmode) {}
  void put_(const char *p, size_t n) override { b.put(p, n); } int peek_() override { return b.peek(); } int get_() override { return b.get(); }
  string str() const { return b.s; } void str(const string &s) { b.s = s; b.g = 0; }
};
template <> class basic_ostringstream<char, char_traits<char>, allocator<char>> : public basic_ostream<char> {
  vp_buf b;
 public:
  basic_ostringstream() {} explicit basic_ostringstream(const string &s, openmode = 2) { b.s = s; }
  void put_(const char *p, size_t n) override { b.put(p, n); }
  string str() const { return b.s; } void str(const string &s) { b.s = s; }
};
template <> class basic_istringstream<char, char_traits<char>, allocator<char>> : public basic_istream<char> {
  vp_buf b;
 public:
  basic_istringstream() {} explicit basic_istringstream(const string &s, openmode = 1) { b.s = s; }
  int peek_() override { return b.peek(); } int get_() override { return b.get(); }
  string str() const { return b.s; } void str(const string &s) { b.s = s; b.g = 0; }
};
struct vp_sink : basic_ostream<char> { void (*sink)(const char *, size_t) = nullptr; void put_(const char *p, size_t n) override { if (sink) sink(p, n); } };
extern ostream &vp_cout(); extern ostream &vp_cerr();
static ostream &cout = vp_cout(); static ostream &cerr = vp_cerr(); static ostream &clog = vp_cerr();
extern vector<pair<string, string>> &vp_files();
template <> class basic_ifstream<char, char_traits<char>> : public basic_istream<char> {
  vp_buf b; bool open_ = false;
 public:
  basic_ifstream() {} explicit basic_ifstream(const string &n, openmode = 1) { open(n); } explicit basic_ifstream(const char *n, openmode = 1) { open(string(n)); }
  void open(const string &n, openmode = 1) { for (auto &f : vp_files()) if (f.first == n) { b.s = f.second; b.g = 0; open_ = true; return; } setstate(failbit); }
  bool is_open() const { return open_; } void close() { open_ = false; }
  int peek_() override { return open_ ? b.peek() : -1; } int get_() override { return open_ ? b.get() : -1; }
};
template <> class basic_ofstream<char, char_traits<char>> : public basic_ostream<char> {
 public: basic_ofstream() {} explicit basic_ofstream(const string &, openmode = 2) {} void open(const string &, openmode = 2) {} bool is_open() const { return true; } void close() {} void put_(const char *, size_t) override {}
};
struct vp_setw { int n; }; struct vp_setfill { char c; }; struct vp_setprec { int n; };
inline vp_setw setw(int n) { return {n}; } inline vp_setfill setfill(char c) { return {c}; } inline vp_setprec setprecision(int n) { return {n}; }
inline ostream &operator<<(ostream &o, vp_setw w) { o.width(w.n); return o; } inline ostream &operator<<(ostream &o, vp_setfill c) { o.fill(c.c); return o; } inline ostream &operator<<(ostream &o, vp_setprec w) { o.precision(w.n); return o; }
struct vp_put_time { const int *t; const char *f; }; inline vp_put_time put_time(const struct tm *t, const char *f) { return {(const int *)t, f}; } // sec, min, hour come first in struct tm
inline ostream &operator<<(ostream &o, vp_put_time p) { string r; auto two = [&](int v) { r += (char)('0' + v / 10 % 10); r += (char)('0' + v % 10); }; for (const char *f = p.f; *f; f++) { if (*f != '%' || !f[1]) { r += *f; continue; } switch (*++f) { case 'T': two(p.t[2]); r += ':'; two(p.t[1]); r += ':'; two(p.t[0]); break; case 'R': two(p.t[2]); r += ':'; two(p.t[1]); break; case 'H': two(p.t[2]); break; case 'M': two(p.t[1]); break; case 'S': two(p.t[0]); break; case '%': r += '%'; break; default: r += '?'; } } for (char c : r) o << c; return o; }
}  // namespace std
#endif
