// Decimal text.
#include "vp.h"
#include <sstream>
#include "frn/lib/math/fp.h"
#include "frn/lib/math/p.h"
#ifndef P
#define P frn::lib::math::Mp61
#endif
typedef frn::lib::math::FpElement<P> E; typedef P::ValueType U;
extern "C" void vp_main() {
  switch (vp_param("part", 0)) {
    case 0: { // parse any digits
      size_t n = (size_t)vp_param("len", 5); std::string s(n, '0'); E want(0), ten(10);
      for (size_t i = 0; i < n; i++) { unsigned long d = vp_range('0', '9', vp_name("d", (long)i).c_str()); s[i] = (char)d; want = want * ten + E((U)(d - '0')); }
      E got(s); vp_assert(got == want, "the parsed element is the number modulo the prime"); break;
    }
    case 1: { // print and parse back: every element
      E e; vp_field(&e, "v"); std::string s = e.ToString(); std::ostringstream os; os << e; vp_assert(os.str() == s, "streaming prints the same text");
      vp_assert(s.size() >= 1, "non-empty"); E f(s); vp_assert(f == e, "parsing inverts printing");
      for (char c : s) vp_assert((c >= '0') & (c <= '9'), "only digits"); vp_assert(s.size() == 1 || s[0] != '0', "no leading zero"); break;
    }
  }
  vp_reach("end");
}
