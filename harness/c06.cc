// Vectors and matrices against their definitions.
#include "proto.h"
#include "frn/lib/math/mat.h"
#include "frn/lib/math/vec.h"
using namespace frn::lib::math;
typedef Matrix<F> M;
static std::vector<F> vec(const char *n, size_t k) { std::vector<F> v; for (size_t i = 0; i < k; i++) v.push_back(fsym(vp_name(n, (long)i))); return v; }
static M mat(const char *n, size_t r, size_t c) { M m(r, c); for (size_t i = 0; i < r; i++) for (size_t j = 0; j < c; j++) m(i, j) = fsym(vp_name(n, (long)i, (long)j)); return m; }
static void same(const std::vector<F> &a, const std::vector<F> &b, const char *msg) { vp_assert(a.size() == b.size(), msg); for (size_t i = 0; i < a.size(); i++) vp_assert(a[i] == b[i], msg); }
static void same(const M &a, const M &b, const char *msg) { vp_assert(a.RowCount() == b.RowCount() && a.ColumnCount() == b.ColumnCount(), msg); for (size_t i = 0; i < a.RowCount(); i++) for (size_t j = 0; j < a.ColumnCount(); j++) vp_assert(a(i, j) == b(i, j), msg); }
extern "C" void vp_main() {
  long part = vp_param("part", 0);
  if (part == 0) { // vectors of lengths m and n
    size_t m = (size_t)vp_choose(0, vp_param("max", 3), "m"), n = (size_t)vp_choose(0, vp_param("max", 3), "n"); auto a = vec("a", m), b = vec("b", n); F c = fsym("c");
    const auto a0 = a, b0 = b;
    if (m != n) {
      vp_assert(vp_throws([&] { vector::Add(a, b); }) && vp_throws([&] { vector::AddInto(a, b); }) && vp_throws([&] { vector::Subtract(a, b); }) && vp_throws([&] { vector::SubtractInto(a, b); }) && vp_throws([&] { vector::Multiply(a, b); }) && vp_throws([&] { vector::MultiplyInto(a, b); }) && vp_throws([&] { vector::Dot(a, b); }), "different sizes are refused");
      same(a, a0, "a refused operation changes nothing");
    } else {
      std::vector<F> s, d, p; F dot(0); for (size_t i = 0; i < m; i++) { s.push_back(a[i] + b[i]); d.push_back(a[i] - b[i]); p.push_back(a[i] * b[i]); dot = dot + a[i] * b[i]; }
      same(vector::Add(a, b), s, "vector sum"); same(vector::Subtract(a, b), d, "vector difference"); same(vector::Multiply(a, b), p, "entry-wise product"); vp_assert(vector::Dot(a, b) == dot, "dot product");
      same(a, a0, "operands are unchanged"); same(b, b0, "operands are unchanged");
      auto x = a; auto &xr = vector::AddInto(x, b); same(x, s, "vector sum in place"); vp_assert(&xr == &x, "in place returns its operand"); x = a; vector::SubtractInto(x, b); same(x, d, "vector difference in place"); x = a; vector::MultiplyInto(x, b); same(x, p, "entry-wise product in place");
      x = a; vector::AddInto(x, x); for (size_t i = 0; i < m; i++) vp_assert(x[i] == a[i] + a[i], "adding a vector to itself"); x = a; vector::SubtractInto(x, x); for (size_t i = 0; i < m; i++) vp_assert(x[i] == F(0), "subtracting a vector from itself"); x = a; vector::MultiplyInto(x, x); for (size_t i = 0; i < m; i++) vp_assert(x[i] == a[i] * a[i], "multiplying a vector by itself");
    }
    std::vector<F> sc; F sum(0); for (size_t i = 0; i < m; i++) { sc.push_back(a[i] * c); sum = sum + a[i]; }
    same(vector::Scale(a, c), sc, "scaled vector"); same(a, a0, "operands are unchanged"); vp_assert(vector::Sum(a) == sum, "vector sum of entries"); auto y = a; vector::ScaleBy(y, c); same(y, sc, "vector scaled in place");
    if (m) { auto z = a; vector::ScaleBy(z, z[0]); for (size_t i = 0; i < m; i++) vp_assert(z[i] == a[i] * a[0], "vector scaled in place by one of its own entries"); same(vector::Scale(a, a[m - 1]), vector::Scale(a, F(a[m - 1])), "vector scaled by one of its own entries"); }
  } else if (part == 1) { // entry-wise matrix operations
    long mx = vp_param("max", 2); size_t r = (size_t)vp_choose(1, mx, "r"), c = (size_t)vp_choose(1, mx, "c"), r2 = (size_t)vp_choose(1, mx, "r2"), c2 = (size_t)vp_choose(1, mx, "c2");
    M a = mat("a", r, c), b = mat("b", r2, c2); F k = fsym("k"); const M a0 = a;
    if (r != r2 || c != c2) {
      vp_assert(vp_throws([&] { a.Add(b); }) && vp_throws([&] { a.AddInto(b); }) && vp_throws([&] { a.Subtract(b); }) && vp_throws([&] { a.SubtractInto(b); }) && vp_throws([&] { a.Multiply(b); }) && vp_throws([&] { a.MultiplyInto(b); }), "different dimensions are refused"); same(a, a0, "a refused operation changes nothing");
    } else {
      M s(r, c), d(r, c), p(r, c); for (size_t i = 0; i < r; i++) for (size_t j = 0; j < c; j++) { s(i, j) = a(i, j) + b(i, j); d(i, j) = a(i, j) - b(i, j); p(i, j) = a(i, j) * b(i, j); }
      same(a.Add(b), s, "matrix sum"); same(a.Subtract(b), d, "matrix difference"); same(a.Multiply(b), p, "entry-wise matrix product"); same(a, a0, "operands are unchanged");
      M x = a; x.AddInto(b); same(x, s, "matrix sum in place"); x = a; x.SubtractInto(b); same(x, d, "matrix difference in place"); x = a; x.MultiplyInto(b); same(x, p, "entry-wise matrix product in place");
    }
    M sc(r, c); for (size_t i = 0; i < r; i++) for (size_t j = 0; j < c; j++) sc(i, j) = a(i, j) * k; same(a.Scale(k), sc, "scaled matrix"); M y = a; y.ScaleBy(k); same(y, sc, "matrix scaled in place");
    M z = a; z.ScaleBy(z(0, 0)); same(z, a.Scale(a0(0, 0)), "matrix scaled in place by one of its own entries");
  } else if (part == 2) { // matrix product
    long mx = vp_param("max", 2); size_t n = (size_t)vp_choose(1, mx, "n"), p = (size_t)vp_choose(1, mx, "p"), q = (size_t)vp_choose(1, mx, "q"), m = (size_t)vp_choose(1, mx, "m");
    M a = mat("a", n, p), b = mat("b", q, m); const M a0 = a;
    if (p != q) vp_assert(vp_throws([&] { a.MatMul(b); }), "products of incompatible matrices are refused");
    else { M c = a.MatMul(b); vp_assert(c.RowCount() == n && c.ColumnCount() == m, "product dimensions"); for (size_t i = 0; i < n; i++) for (size_t j = 0; j < m; j++) { F e(0); for (size_t k = 0; k < p; k++) e = e + a(i, k) * b(k, j); vp_assert(c(i, j) == e, "matrix product"); } same(a, a0, "operands are unchanged"); if (n == p) { M sq = a.MatMul(a); for (size_t i = 0; i < n; i++) for (size_t j = 0; j < n; j++) { F e(0); for (size_t k = 0; k < n; k++) e = e + a0(i, k) * a0(k, j); vp_assert(sq(i, j) == e, "square of a matrix"); } } }
  } else if (part == 3) { // sub-matrices; any offsets
    long mx = vp_param("max", 3); size_t r = (size_t)vp_choose(1, mx, "r"), c = (size_t)vp_choose(1, mx, "c"); M a = mat("a", r, c);
    size_t rb = vp_sym(64, "rb"), re = vp_sym(64, "re"), cb = vp_sym(64, "cb"), ce = vp_sym(64, "ce");
    bool ok = rb < re && re <= r && cb < ce && ce <= c; bool threw = false;
    try { M s = a.extract_submatrix(rb, re, cb, ce); vp_assert(ok, "ranges outside the matrix or empty are refused"); rb = vp_concrete(rb); re = vp_concrete(re); cb = vp_concrete(cb); ce = vp_concrete(ce); vp_assert(s.RowCount() == re - rb && s.ColumnCount() == ce - cb, "sub-matrix dimensions"); for (size_t i = 0; i < re - rb; i++) for (size_t j = 0; j < ce - cb; j++) vp_assert(s(i, j) == a(rb + i, cb + j), "sub-matrix entries"); }
    catch (const std::exception &) { threw = true; }
    if (threw) vp_assert(!ok, "ranges inside the matrix are accepted");
  } else if (part == 4) { // Vandermonde; empty matrices
    size_t n = (size_t)vp_choose(0, vp_param("max", 3), "n"), m = (size_t)vp_choose(0, vp_param("max", 3), "m"); auto al = vec("al", n); F base = fsym("base");
    vp_assert(vp_throws([&] { M x(n, m); }) == (n == 0 || m == 0), "exactly empty matrices are refused");
    if (!n || !m) vp_assert(vp_throws([&] { create_vandermonde_matrix(al, m); }) && vp_throws([&] { create_vandermonde_matrix(base, n, m); }), "empty Vandermonde matrices are refused");
    else { M v = create_vandermonde_matrix(al, m), w = create_vandermonde_matrix(base, n, m); vp_assert(v.RowCount() == n && v.ColumnCount() == m && w.RowCount() == n && w.ColumnCount() == m, "Vandermonde dimensions"); for (size_t i = 0; i < n; i++) { F e(1), f(1); for (size_t j = 0; j < m; j++) { vp_assert(v(i, j) == e, "Vandermonde entries"); vp_assert(w(i, j) == f, "Vandermonde entries over consecutive points"); e = e * al[i]; f = f * (base + F(i)); } }
      M z(n, m); for (size_t i = 0; i < n; i++) for (size_t j = 0; j < m; j++) vp_assert(z(i, j) == F(0), "fresh matrices are zero"); }
  } else { // printing: entries in row-major order, one bracketed row per line
    size_t r = (size_t)vp_choose(1, vp_param("max", 3), "r"), c = (size_t)vp_choose(1, vp_param("max", 3), "c"); M a(r, c); unsigned long e[16]; for (size_t i = 0; i < r * c; i++) { e[i] = vp_concrete(vp_sym(1, vp_name("e", (long)i).c_str())) ? 10 + i : i; a(i / c, i % c) = F(e[i]); }
    std::string s = a.ToString(); size_t at = 0; auto skip = [&] { while (at < s.size() && (s[at] == ' ' || s[at] == '\n')) at++; };
    for (size_t i = 0; i < r; i++) { skip(); vp_assert(at < s.size() && s[at] == '[', "a row starts with a bracket"); at++; for (size_t j = 0; j < c; j++) { skip(); unsigned long v = 0; size_t d = 0; while (at < s.size() && s[at] >= '0' && s[at] <= '9') { v = v * 10 + (unsigned long)(s[at] - '0'); at++; d++; } vp_assert(d && v == e[i * c + j], "printed entries in row order"); } skip(); vp_assert(at < s.size() && s[at] == ']', "a row ends with a bracket"); at++; }
    skip(); vp_assert(at == s.size(), "nothing after the last row");
  }
  vp_reach("end");
}
