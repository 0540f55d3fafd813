// Log messages (C30).
#include "vp.h"
#include <time.h>
#include <iostream>
#include "frn/lib/logging.h"
#include "frn/lib/logging/logger.h"
#include "frn/lib/logging/nowhere.h"
#include "frn/lib/logging/stdout.h"
using namespace frn::lib::logging; using std::string;
static struct tm now;
extern "C" {
struct tm *localtime(const time_t *) { return &now; }
struct tm *localtime_r(const time_t *, struct tm *r) { *r = now; return r; }
struct tm *gmtime(const time_t *) { static struct tm other; return &other; }
}
// a logger that records what it is told
struct Spy : Logger { using L = Level; string seen, text; int marks = 0; string ToString() const override { return "Spy"; }
  static char name(Level l) { return l == L::eInfo ? 'i' : l == L::eWarn ? 'w' : 'e'; }
  void LogBegin(Level l) override { seen += 'b'; seen += name(l); } void Log(const string &s) override { seen += 'l'; text += s; } void LogEnd(Level l) override { seen += 'e'; seen += name(l); } };
static string sym(const char *n, int max, bool exact) { int len = exact ? max : (int)vp_choose(0, max, (string(n) + "len").c_str()); string s(len, 'x'); for (int i = 0; i < len; i++) { s[i] = (char)vp_sym(8, vp_name(n, i).c_str()); vp_assume(s[i] != 0); } return s; }
static string dec(long v) { if (v < 0) return "-" + dec(-v); string r; do r = string(1, char('0' + v % 10)) + r; while (v /= 10); return r; }
static string two(int v) { return string(1, char('0' + v / 10)) + string(1, char('0' + v % 10)); }
// what a call should produce
static string expect(const string &m, const std::vector<string> &a) { string r; size_t k = 0; for (char c : m) { if (c == '%' && k < a.size()) r += a[k++]; else if (c == '%') { r += c; } else r += c; } return r; }
// arguments left over when the placeholders ran out are dropped
static void same(const string &a, const string &b, const char *what) { vp_assert(a.size() == b.size(), what); if (a.size() == b.size() && a.size()) vp_assert_eq(a.data(), b.data(), a.size(), 1, what); }
template <class Lg, class... A> static void call(Lg &l, int level, const string &m, A &&...a) { switch (level) { case 0: l.Info(m.c_str(), std::forward<A>(a)...); break; case 1: l.Warn(m.c_str(), std::forward<A>(a)...); break; default: l.Error(m.c_str(), std::forward<A>(a)...); } }
template <class Lg, class... A> static void macros(const std::shared_ptr<Lg> &l, int level, const string &m, A &&...a) { switch (level) { case 0: LOG_INFO(l, m.c_str(), std::forward<A>(a)...); break; case 1: LOG_WARN(l, m.c_str(), std::forward<A>(a)...); break; default: LOG_ERROR(l, m.c_str(), std::forward<A>(a)...); } }
// the calls themselves: every mixture of arguments used here
template <class F> static std::vector<string> with(int count, int mix, const char *tag, F f) {
  string T = tag; string s = sym((T + "str").c_str(), 2, true), p = sym((T + "lit").c_str(), 2, true); char c = (char)vp_sym(8, (T + "chr").c_str()); vp_assume(c != 0);
  static const long nums[] = {0, 7, -1, 42, -2147483647 - 1, 2147483647, 1000}; int i = (int)nums[vp_param("num", 3)]; unsigned long u = 18446744073709551615ul; const string cs = s; const char *lit = p.c_str();
  switch (mix) {
    case 0: switch (count) { case 0: f(); return {}; case 1: f(s); return {s}; case 2: f(s, c); return {s, string(1, c)}; case 3: f(s, c, i); return {s, string(1, c), dec(i)}; default: f(s, c, i, lit); return {s, string(1, c), dec(i), p}; }
    case 1: switch (count) { case 0: f(); return {}; case 1: f(lit); return {p}; case 2: f(i, cs); return {dec(i), s}; case 3: f(c, string(p), lit); return {string(1, c), p, p}; default: f(u, s, string("%"), c); return {"18446744073709551615", s, "%", string(1, c)}; }
    default: switch (count) { case 0: f(); return {}; case 1: f("%%"); return {"%%"}; case 2: f("", s); return {"", s}; case 3: f("a%b", 'x', s); return {"a%b", "x", s}; default: f(s, "", "%", i); return {s, "", "%", dec(i)}; }
  }
}
extern "C" void vp_main() {
  int part = (int)vp_param("part", 0), max = (int)vp_param("max", 5), mix = (int)vp_param("mix", 0), calls = (int)vp_param("calls", 1), stamp = (int)vp_param("stamp", 0), many = (int)vp_param("args", 4); bool mac = vp_param("macro", 0);
  static const char *marks[] = {"[ ] ", "[W] ", "[E] "}; string want; std::vector<int> lv;
  memset(&now, 0, sizeof now); now.tm_mday = 1;
  if (stamp) { now.tm_hour = (int)vp_choose(0, 2, "hour") * 11 + 1; now.tm_min = (int)vp_choose(0, 1, "min") * 54 + 5; now.tm_sec = (int)vp_choose(0, 1, "sec") * 51 + 9; }
  if (part == 0 || part == 2) { // to the standard output, or to nowhere
    auto o = stamp ? create_logger<StdoutLogger>(true) : create_logger<StdoutLogger>(); auto v = create_logger<VoidLogger>(); vp_stdout_capture(true);
    for (int k = 0; k < calls; k++) {
      string T = vp_name("k", k); int level = (int)vp_choose(0, 2, (T + "level").c_str()), count = (int)vp_choose(0, many, (T + "args").c_str()); string m = sym((T + "msg").c_str(), max, false);
      if (part == 2) { with(count, mix, T.c_str(), [&](auto &&...a) { call(*v, level, m, std::forward<decltype(a)>(a)...); }); continue; }
      auto as = with(count, mix, T.c_str(), [&](auto &&...a) { if (mac) macros(o, level, m, std::forward<decltype(a)>(a)...); else call(*o, level, m, std::forward<decltype(a)>(a)...); });
      want += marks[level]; if (stamp) want += "[" + two(now.tm_hour) + ":" + two(now.tm_min) + ":" + two(now.tm_sec) + "] "; want += expect(m, as) + "\n";
    }
    vp_stdout_capture(false); string got = vp_stdout(); if (part == 2) vp_assert(got.empty(), "the silent logger prints nothing"); else same(got, want, "the printed lines"); vp_reach("end"); return;
  }
  Spy spy; string seen, text; Logger &l = spy;
  for (int k = 0; k < calls; k++) {
    string T = vp_name("k", k); int level = (int)vp_choose(0, 2, (T + "level").c_str()), count = (int)vp_choose(0, many, (T + "args").c_str()); string m = sym((T + "msg").c_str(), max, false);
    auto as = with(count, mix, T.c_str(), [&](auto &&...a) { call(l, level, m, std::forward<decltype(a)>(a)...); });
    seen += string("b") + "iwe"[level] + "le" + "iwe"[level]; text += expect(m, as);
  }
  vp_assert(spy.seen == seen, "begin, the text and end are delivered once per call, with its level"); same(spy.text, text, "the text delivered"); vp_reach("end");
}
