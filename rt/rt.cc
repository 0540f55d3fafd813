// Parts of the C and C++ runtime libraries that live outside the headers,
// for symbolic execution.
#include <cstddef>
#include <cstdint>
#include <exception>
#include <iosfwd>
#include <new>
#include <stdexcept>
#include <string>
#include <system_error>
#include <typeinfo>
#include <iostream>
#include <fstream>
#include <sstream>
#include <map>
#include <list>
#include <cerrno>
#include <unordered_map>
#include <cstring>
#include "vp.h"
template class std::basic_string<char>;
// standard exceptions and errors --------------------------------------------
namespace std {
exception::~exception() noexcept {} const char *exception::what() const noexcept { return "std::exception"; }
bad_exception::~bad_exception() noexcept {} const char *bad_exception::what() const noexcept { return "bad_exception"; }
bad_alloc::~bad_alloc() noexcept {} const char *bad_alloc::what() const noexcept { return "bad_alloc"; }
bad_array_new_length::~bad_array_new_length() noexcept {} const char *bad_array_new_length::what() const noexcept { return "bad_array_new_length"; }
bad_cast::~bad_cast() noexcept {} const char *bad_cast::what() const noexcept { return "bad_cast"; }
bad_typeid::~bad_typeid() noexcept {} const char *bad_typeid::what() const noexcept { return "bad_typeid"; }
static char *dup_(const char *s) { size_t n = 0; while (s[n]) n++; char *r = new char[n + 1]; memcpy(r, s, n + 1); return r; }
static void set_(__cow_string &c, const char *s) { *(char **)(void *)&c = dup_(s); }
static const char *get_(const __cow_string &c) { return *(char *const *)(const void *)&c; }
__cow_string::__cow_string() { set_(*this, ""); } __cow_string::__cow_string(const string &s) { set_(*this, s.c_str()); } __cow_string::__cow_string(const char *s, size_t) { set_(*this, s); }
__cow_string::__cow_string(const __cow_string &o) noexcept { set_(*this, get_(o)); } __cow_string &__cow_string::operator=(const __cow_string &o) noexcept { if (this != &o) { delete[] (char *)get_(*this); set_(*this, get_(o)); } return *this; }
__cow_string::~__cow_string() { delete[] (char *)get_(*this); } __cow_string::__cow_string(__cow_string &&o) noexcept { set_(*this, get_(o)); } __cow_string &__cow_string::operator=(__cow_string &&o) noexcept { return *this = (const __cow_string &)o; }
#define EXC(E, B) E::E(const string &s) : B(s) {} E::E(const char *s) : B(s) {} E::~E() noexcept {}
logic_error::logic_error(const string &s) : _M_msg(s) {} logic_error::logic_error(const char *s) : _M_msg(s, 0) {} logic_error::~logic_error() noexcept {} const char *logic_error::what() const noexcept { return get_(_M_msg); }
logic_error::logic_error(logic_error &&o) noexcept = default; logic_error &logic_error::operator=(logic_error &&) noexcept = default; logic_error::logic_error(const logic_error &) noexcept = default; logic_error &logic_error::operator=(const logic_error &) noexcept = default;
runtime_error::runtime_error(const string &s) : _M_msg(s) {} runtime_error::runtime_error(const char *s) : _M_msg(s, 0) {} runtime_error::~runtime_error() noexcept {} const char *runtime_error::what() const noexcept { return get_(_M_msg); }
runtime_error::runtime_error(runtime_error &&o) noexcept = default; runtime_error &runtime_error::operator=(runtime_error &&) noexcept = default; runtime_error::runtime_error(const runtime_error &) noexcept = default; runtime_error &runtime_error::operator=(const runtime_error &) noexcept = default;
EXC(domain_error, logic_error) EXC(invalid_argument, logic_error) EXC(length_error, logic_error) EXC(out_of_range, logic_error)
EXC(range_error, runtime_error) EXC(overflow_error, runtime_error) EXC(underflow_error, runtime_error)
void __throw_logic_error(const char *s) { throw logic_error(s); }
void __throw_domain_error(const char *s) { throw domain_error(s); }
void __throw_invalid_argument(const char *s) { throw invalid_argument(s); }
void __throw_length_error(const char *s) { throw length_error(s); }
void __throw_out_of_range(const char *s) { throw out_of_range(s); }
void __throw_out_of_range_fmt(const char *s, ...) { throw out_of_range(s); }
void __throw_runtime_error(const char *s) { throw runtime_error(s); }
void __throw_range_error(const char *s) { throw range_error(s); }
void __throw_overflow_error(const char *s) { throw overflow_error(s); }
void __throw_bad_alloc() { throw bad_alloc(); }
void __throw_bad_array_new_length() { throw bad_array_new_length(); }
void __throw_bad_cast() { throw bad_cast(); }
struct vp_bad_function_call : exception { const char *what() const noexcept override { return "bad_function_call"; } };
void __throw_bad_function_call() { throw vp_bad_function_call(); }
void __throw_bad_optional_access_() { throw logic_error("bad optional access"); }
void __throw_system_error(int e) { throw system_error(e, generic_category()); }
void __glibcxx_assert_fail(const char *, int, const char *, const char *) noexcept { vp_fail("libstdc++ assertion"); __builtin_unreachable(); }
// error categories
inline namespace _V2 {
error_category::~error_category() {}
bool error_category::equivalent(int i, const error_condition &c) const noexcept { return default_error_condition(i) == c; }
bool error_category::equivalent(const error_code &c, int i) const noexcept { return *this == c.category() && c.value() == i; }
error_condition error_category::default_error_condition(int i) const noexcept { return error_condition(i, *this); }
__cow_string error_category::_M_message(int) const { return __cow_string("error", 5); }
struct vp_gen : error_category { const char *name() const noexcept override { return "generic"; } string message(int) const override { return "error"; } };
struct vp_sys : error_category { const char *name() const noexcept override { return "system"; } string message(int) const override { return "error"; } };
const error_category &generic_category() noexcept { static vp_gen g; return g; }
const error_category &system_category() noexcept { static vp_sys g; return g; }
}
system_error::~system_error() noexcept {}
// containers
namespace { typedef _Rb_tree_node_base NB;
void rotL(NB *x, NB *&root) { NB *y = x->_M_right; x->_M_right = y->_M_left; if (y->_M_left) y->_M_left->_M_parent = x; y->_M_parent = x->_M_parent; if (x == root) root = y; else if (x == x->_M_parent->_M_left) x->_M_parent->_M_left = y; else x->_M_parent->_M_right = y; y->_M_left = x; x->_M_parent = y; }
void rotR(NB *x, NB *&root) { NB *y = x->_M_left; x->_M_left = y->_M_right; if (y->_M_right) y->_M_right->_M_parent = x; y->_M_parent = x->_M_parent; if (x == root) root = y; else if (x == x->_M_parent->_M_right) x->_M_parent->_M_right = y; else x->_M_parent->_M_left = y; y->_M_right = x; x->_M_parent = y; } }
NB *_Rb_tree_increment(NB *x) noexcept { if (x->_M_right) { x = x->_M_right; while (x->_M_left) x = x->_M_left; } else { NB *y = x->_M_parent; while (x == y->_M_right) { x = y; y = y->_M_parent; } if (x->_M_right != y) x = y; } return x; }
const NB *_Rb_tree_increment(const NB *x) noexcept { return _Rb_tree_increment(const_cast<NB *>(x)); }
NB *_Rb_tree_decrement(NB *x) noexcept { if (x->_M_color == _S_red && x->_M_parent->_M_parent == x) x = x->_M_right; else if (x->_M_left) { NB *y = x->_M_left; while (y->_M_right) y = y->_M_right; x = y; } else { NB *y = x->_M_parent; while (x == y->_M_left) { x = y; y = y->_M_parent; } x = y; } return x; }
const NB *_Rb_tree_decrement(const NB *x) noexcept { return _Rb_tree_decrement(const_cast<NB *>(x)); }
void _Rb_tree_insert_and_rebalance(const bool left, NB *x, NB *p, NB &h) noexcept {
  NB *&root = h._M_parent; x->_M_parent = p; x->_M_left = x->_M_right = 0; x->_M_color = _S_red;
  if (left) { p->_M_left = x; if (p == &h) { h._M_parent = x; h._M_right = x; } else if (p == h._M_left) h._M_left = x; } else { p->_M_right = x; if (p == h._M_right) h._M_right = x; }
  while (x != root && x->_M_parent->_M_color == _S_red) {
    NB *const xpp = x->_M_parent->_M_parent;
    if (x->_M_parent == xpp->_M_left) { NB *const y = xpp->_M_right; if (y && y->_M_color == _S_red) { x->_M_parent->_M_color = _S_black; y->_M_color = _S_black; xpp->_M_color = _S_red; x = xpp; } else { if (x == x->_M_parent->_M_right) { x = x->_M_parent; rotL(x, root); } x->_M_parent->_M_color = _S_black; xpp->_M_color = _S_red; rotR(xpp, root); } }
    else { NB *const y = xpp->_M_left; if (y && y->_M_color == _S_red) { x->_M_parent->_M_color = _S_black; y->_M_color = _S_black; xpp->_M_color = _S_red; x = xpp; } else { if (x == x->_M_parent->_M_left) { x = x->_M_parent; rotR(x, root); } x->_M_parent->_M_color = _S_black; xpp->_M_color = _S_red; rotL(xpp, root); } }
  }
  root->_M_color = _S_black;
}
NB *_Rb_tree_rebalance_for_erase(NB *const z, NB &h) noexcept {
  NB *&root = h._M_parent, *&lm = h._M_left, *&rm = h._M_right; NB *y = z, *x = 0, *xp = 0;
  if (!y->_M_left) x = y->_M_right; else if (!y->_M_right) x = y->_M_left; else { y = y->_M_right; while (y->_M_left) y = y->_M_left; x = y->_M_right; }
  if (y != z) { z->_M_left->_M_parent = y; y->_M_left = z->_M_left; if (y != z->_M_right) { xp = y->_M_parent; if (x) x->_M_parent = y->_M_parent; y->_M_parent->_M_left = x; y->_M_right = z->_M_right; z->_M_right->_M_parent = y; } else xp = y; if (root == z) root = y; else if (z->_M_parent->_M_left == z) z->_M_parent->_M_left = y; else z->_M_parent->_M_right = y; y->_M_parent = z->_M_parent; std::swap(y->_M_color, z->_M_color); y = z; }
  else { xp = y->_M_parent; if (x) x->_M_parent = y->_M_parent; if (root == z) root = x; else if (z->_M_parent->_M_left == z) z->_M_parent->_M_left = x; else z->_M_parent->_M_right = x;
    if (lm == z) { if (!z->_M_right) lm = z->_M_parent; else { NB *m = x; while (m->_M_left) m = m->_M_left; lm = m; } } if (rm == z) { if (!z->_M_left) rm = z->_M_parent; else { NB *m = x; while (m->_M_right) m = m->_M_right; rm = m; } } }
  if (y->_M_color != _S_red) {
    while (x != root && (!x || x->_M_color == _S_black))
      if (x == xp->_M_left) { NB *w = xp->_M_right; if (w->_M_color == _S_red) { w->_M_color = _S_black; xp->_M_color = _S_red; rotL(xp, root); w = xp->_M_right; } if ((!w->_M_left || w->_M_left->_M_color == _S_black) && (!w->_M_right || w->_M_right->_M_color == _S_black)) { w->_M_color = _S_red; x = xp; xp = xp->_M_parent; } else { if (!w->_M_right || w->_M_right->_M_color == _S_black) { w->_M_left->_M_color = _S_black; w->_M_color = _S_red; rotR(w, root); w = xp->_M_right; } w->_M_color = xp->_M_color; xp->_M_color = _S_black; if (w->_M_right) w->_M_right->_M_color = _S_black; rotL(xp, root); break; } }
      else { NB *w = xp->_M_left; if (w->_M_color == _S_red) { w->_M_color = _S_black; xp->_M_color = _S_red; rotR(xp, root); w = xp->_M_left; } if ((!w->_M_right || w->_M_right->_M_color == _S_black) && (!w->_M_left || w->_M_left->_M_color == _S_black)) { w->_M_color = _S_red; x = xp; xp = xp->_M_parent; } else { if (!w->_M_left || w->_M_left->_M_color == _S_black) { w->_M_right->_M_color = _S_black; w->_M_color = _S_red; rotL(w, root); w = xp->_M_left; } w->_M_color = xp->_M_color; xp->_M_color = _S_black; if (w->_M_left) w->_M_left->_M_color = _S_black; rotR(xp, root); break; } }
    if (x) x->_M_color = _S_black;
  }
  return y;
}
namespace __detail {
void _List_node_base::_M_hook(_List_node_base *const p) noexcept { _M_next = p; _M_prev = p->_M_prev; p->_M_prev->_M_next = this; p->_M_prev = this; }
void _List_node_base::_M_unhook() noexcept { _M_next->_M_prev = _M_prev; _M_prev->_M_next = _M_next; }
void _List_node_base::_M_transfer(_List_node_base *const f, _List_node_base *const l) noexcept { if (this != l) { l->_M_prev->_M_next = this; f->_M_prev->_M_next = l; this->_M_prev->_M_next = f; _List_node_base *t = this->_M_prev; this->_M_prev = l->_M_prev; l->_M_prev = f->_M_prev; f->_M_prev = t; } }
void _List_node_base::swap(_List_node_base &x, _List_node_base &y) noexcept { std::swap(x, y); }
}
namespace __detail {
size_t _Prime_rehash_policy::_M_next_bkt(size_t n) const { static const size_t ps[] = {1, 2, 5, 11, 23, 47, 97, 199, 409, 823, 1741, 3739, 7517, 15173, 30727, 62233}; for (size_t p : ps) if (p >= n) { _M_next_resize = p; return p; } _M_next_resize = n; return n; }
pair<bool, size_t> _Prime_rehash_policy::_M_need_rehash(size_t nb, size_t ne, size_t ni) const { if (ne + ni > _M_next_resize || ne + ni > nb) { size_t w = nb * 2 > ne + ni ? nb * 2 : ne + ni; return {true, _M_next_bkt(w)}; } return {false, 0}; }
}
size_t _Hash_bytes(const void *p, size_t n, size_t seed) { const unsigned char *c = (const unsigned char *)p; size_t h = seed ^ 14695981039346656037ull; for (size_t i = 0; i < n; i++) h = (h ^ c[i]) * 1099511628211ull; return h; }
// streams
static string &vp_out_() { static string *s = new string; return *s; }
static bool vp_cap_ = false;
static void vp_sink_out(const char *p, size_t n) { if (vp_cap_) vp_out_().append(p, n); }
ostream &vp_cout() { static vp_sink *s = [] { auto *x = new vp_sink; x->sink = vp_sink_out; return x; }(); return *s; }
ostream &vp_cerr() { static vp_sink *s = new vp_sink; return *s; }
vector<pair<string, string>> &vp_files() { static auto *v = new vector<pair<string, string>>; return *v; }
}  // namespace std
std::string vp_file(const std::string &content) { auto &v = std::vp_files(); std::string n = vp_name("/vp/file", (long)v.size()); v.push_back({n, content}); return n; }
const std::string &vp_stdout() { return std::vp_out_(); }
void vp_stdout_capture(bool on) { std::vp_cap_ = on; }
extern "C" void vp_putc(int c) { std::cout << (char)c; }
