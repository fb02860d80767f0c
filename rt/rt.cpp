// Runtime models linked into the bitcode: the parts of libc/libstdc++ that exist only as machine code.
#include <cstddef>
#include <cstdint>
#include <cstdlib>
#include <cerrno>
#include <cstdarg>
#include <string>
#include <vector>
#include <list>
#include <map>
#include <unordered_map>
#include <stdexcept>
#include <new>
#include <functional>
#include <typeinfo>
#include <system_error>

extern "C" {
char __libc_single_threaded = 1;
uint64_t sx_host_strtod(const char *p, char **e);

size_t strlen(const char *s) { size_t n = 0; while (s[n]) n++; return n; }
int memcmp(const void *a, const void *b, size_t n) { auto x = (const unsigned char *)a, y = (const unsigned char *)b; for (size_t i = 0; i < n; i++) if (x[i] != y[i]) return x[i] < y[i] ? -1 : 1; return 0; }
int bcmp(const void *a, const void *b, size_t n) { auto x = (const unsigned char *)a, y = (const unsigned char *)b; unsigned char d = 0; for (size_t i = 0; i < n; i++) d |= x[i] ^ y[i]; return d != 0; }
int strcmp(const char *a, const char *b) { while (*a && *a == *b) a++, b++; return (unsigned char)*a - (unsigned char)*b; }
int strncmp(const char *a, const char *b, size_t n) { for (; n; n--, a++, b++) { if (*a != *b) return (unsigned char)*a - (unsigned char)*b; if (!*a) return 0; } return 0; }
char *strcpy(char *d, const char *s) { char *r = d; while ((*d++ = *s++)) ; return r; }
char *strncpy(char *d, const char *s, size_t n) { size_t i = 0; for (; i < n && s[i]; i++) d[i] = s[i]; for (; i < n; i++) d[i] = 0; return d; }
char *strcat(char *d, const char *s) { strcpy(d + strlen(d), s); return d; }
char *strchr(const char *s, int c) { for (;; s++) { if (*s == (char)c) return (char *)s; if (!*s) return nullptr; } }
char *strrchr(const char *s, int c) { const char *r = nullptr; for (;; s++) { if (*s == (char)c) r = s; if (!*s) return (char *)r; } }
char *strstr(const char *h, const char *n) { size_t k = strlen(n); for (;; h++) { if (strncmp(h, n, k) == 0) return (char *)h; if (!*h) return nullptr; } }
void *memchr(const void *s, int c, size_t n) { auto x = (const unsigned char *)s; for (size_t i = 0; i < n; i++) if (x[i] == (unsigned char)c) return (void *)(x + i); return nullptr; }
char *strdup(const char *s) { size_t n = strlen(s) + 1; char *r = (char *)malloc(n); for (size_t i = 0; i < n; i++) r[i] = s[i]; return r; }
size_t wcslen(const wchar_t *s) { size_t n = 0; while (s[n]) n++; return n; }
// "C" locale (the code never calls setlocale): only ASCII is representable
size_t wcstombs(char *d, const wchar_t *s, size_t n) {
  size_t i = 0;
  for (;; i++) { if (d && i >= n) return i; wchar_t c = s[i]; if ((unsigned)c >= 0x80) { errno = EILSEQ; return (size_t)-1; } if (d) d[i] = (char)c; if (!c) return i; }
}
int isalnum(int c) { return (c >= '0' && c <= '9') || (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z'); }
int isalpha(int c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z'); }
int isdigit(int c) { return c >= '0' && c <= '9'; }
int isspace(int c) { return c == ' ' || (c >= 9 && c <= 13); }
int tolower(int c) { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
int toupper(int c) { return c >= 'a' && c <= 'z' ? c - 32 : c; }
int abs(int x) { return x < 0 ? -x : x; }
long labs(long x) { return x < 0 ? -x : x; }
long long llabs(long long x) { return x < 0 ? -x : x; }
static double p10(int k) { double r = 1; while (k-- > 0) r *= 10; return r; }
// Exact (correctly rounded) for [+-]digits[.digits] with at most 15 digits; anything else: host strtod on a concrete string.
double strtod(const char *s, char **e) {
  const char *p = s; bool neg = false; uint64_t m = 0; int nd = 0, k = 0; bool any = false, ok = true;
  if (*p == '+' || *p == '-') { neg = *p == '-'; p++; }
  while (*p >= '0' && *p <= '9') { m = m * 10 + (uint64_t)(*p - '0'); nd++; p++; any = true; if (nd > 15) { ok = false; break; } }
  if (ok && *p == '.') { p++; while (*p >= '0' && *p <= '9') { m = m * 10 + (uint64_t)(*p - '0'); nd++; k++; p++; any = true; if (nd > 15) { ok = false; break; } } }
  if (ok && any && *p == 0) { double v = (double)m; if (k) v = v / p10(k); if (e) *e = (char *)p; return neg ? -v : v; }
  uint64_t b = sx_host_strtod(s, e); double d; __builtin_memcpy(&d, &b, 8);
  if (d == __builtin_inf() || d == -__builtin_inf()) errno = ERANGE;   // out of range texts (no "inf" literal reaches this code)
  return d;
}
float strtof(const char *s, char **e) { return (float)strtod(s, e); }
double atof(const char *s) { return strtod(s, nullptr); }
unsigned long long strtoull(const char *s, char **e, int base) {
  const char *p = s; bool neg = false, any = false, ovf = false; while (isspace(*p)) p++; if (*p == '+' || *p == '-') { neg = *p == '-'; p++; }
  unsigned long long v = 0; while (*p >= '0' && *p <= '9') { unsigned long long n; if (__builtin_mul_overflow(v, 10ull, &n) || __builtin_add_overflow(n, (unsigned long long)(*p - '0'), &n)) ovf = true; v = n; p++; any = true; }
  if (e) *e = (char *)(any ? p : s); if (ovf) { errno = ERANGE; return ~0ull; } return neg ? -v : v;
}
long long strtoll(const char *s, char **e, int base) {
  const char *p = s; bool neg = false, any = false, ovf = false; while (isspace(*p)) p++; if (*p == '+' || *p == '-') { neg = *p == '-'; p++; }
  long long v = 0; while (*p >= '0' && *p <= '9') { int d = *p - '0'; if (__builtin_mul_overflow(v, 10ll, &v) || __builtin_sub_overflow(v, (long long)d, &v)) ovf = true; p++; any = true; }
  if (e) *e = (char *)(any ? p : s); if (ovf || (!neg && v == (-__LONG_LONG_MAX__ - 1))) { errno = ERANGE; return neg ? (-__LONG_LONG_MAX__ - 1) : __LONG_LONG_MAX__; } return neg ? v : -v;
}
long strtol(const char *s, char **e, int base) { return strtoll(s, e, base); }
unsigned long strtoul(const char *s, char **e, int base) { return strtoull(s, e, base); }
int atoi(const char *s) { return (int)strtol(s, nullptr, 10); }
}

namespace std {
// red-black tree primitives: a plain binary search tree keeps the same in-order sequence; colours are kept for header detection
_Rb_tree_node_base *_Rb_tree_increment(_Rb_tree_node_base *x) throw() {
  if (x->_M_right) { x = x->_M_right; while (x->_M_left) x = x->_M_left; }
  else { auto y = x->_M_parent; while (x == y->_M_right) { x = y; y = y->_M_parent; } if (x->_M_right != y) x = y; }
  return x;
}
const _Rb_tree_node_base *_Rb_tree_increment(const _Rb_tree_node_base *x) throw() { return _Rb_tree_increment(const_cast<_Rb_tree_node_base *>(x)); }
_Rb_tree_node_base *_Rb_tree_decrement(_Rb_tree_node_base *x) throw() {
  if (x->_M_color == _S_red && x->_M_parent->_M_parent == x) x = x->_M_right;
  else if (x->_M_left) { x = x->_M_left; while (x->_M_right) x = x->_M_right; }
  else { auto y = x->_M_parent; while (x == y->_M_left) { x = y; y = y->_M_parent; } x = y; }
  return x;
}
const _Rb_tree_node_base *_Rb_tree_decrement(const _Rb_tree_node_base *x) throw() { return _Rb_tree_decrement(const_cast<_Rb_tree_node_base *>(x)); }
static void rot_l(_Rb_tree_node_base *const x, _Rb_tree_node_base *&root) {
  auto y = x->_M_right; x->_M_right = y->_M_left; if (y->_M_left) y->_M_left->_M_parent = x; y->_M_parent = x->_M_parent;
  if (x == root) root = y; else if (x == x->_M_parent->_M_left) x->_M_parent->_M_left = y; else x->_M_parent->_M_right = y; y->_M_left = x; x->_M_parent = y;
}
static void rot_r(_Rb_tree_node_base *const x, _Rb_tree_node_base *&root) {
  auto y = x->_M_left; x->_M_left = y->_M_right; if (y->_M_right) y->_M_right->_M_parent = x; y->_M_parent = x->_M_parent;
  if (x == root) root = y; else if (x == x->_M_parent->_M_right) x->_M_parent->_M_right = y; else x->_M_parent->_M_left = y; y->_M_right = x; x->_M_parent = y;
}
void _Rb_tree_insert_and_rebalance(const bool left, _Rb_tree_node_base *x, _Rb_tree_node_base *p, _Rb_tree_node_base &h) throw() {
  auto &root = h._M_parent; x->_M_parent = p; x->_M_left = 0; x->_M_right = 0; x->_M_color = _S_red;
  if (left) { p->_M_left = x; if (p == &h) { h._M_parent = x; h._M_right = x; } else if (p == h._M_left) h._M_left = x; }
  else { p->_M_right = x; if (p == h._M_right) h._M_right = x; }
  while (x != root && x->_M_parent->_M_color == _S_red) {
    auto xpp = x->_M_parent->_M_parent;
    if (x->_M_parent == xpp->_M_left) {
      auto y = xpp->_M_right;
      if (y && y->_M_color == _S_red) { x->_M_parent->_M_color = _S_black; y->_M_color = _S_black; xpp->_M_color = _S_red; x = xpp; }
      else { if (x == x->_M_parent->_M_right) { x = x->_M_parent; rot_l(x, root); } x->_M_parent->_M_color = _S_black; xpp->_M_color = _S_red; rot_r(xpp, root); }
    } else {
      auto y = xpp->_M_left;
      if (y && y->_M_color == _S_red) { x->_M_parent->_M_color = _S_black; y->_M_color = _S_black; xpp->_M_color = _S_red; x = xpp; }
      else { if (x == x->_M_parent->_M_left) { x = x->_M_parent; rot_r(x, root); } x->_M_parent->_M_color = _S_black; xpp->_M_color = _S_red; rot_l(xpp, root); }
    }
  }
  root->_M_color = _S_black;
}
_Rb_tree_node_base *_Rb_tree_rebalance_for_erase(_Rb_tree_node_base *const z, _Rb_tree_node_base &h) throw() {
  auto &root = h._M_parent; auto &leftmost = h._M_left; auto &rightmost = h._M_right; auto y = z; _Rb_tree_node_base *x = 0, *xp = 0;
  if (y->_M_left == 0) x = y->_M_right; else if (y->_M_right == 0) x = y->_M_left; else { y = y->_M_right; while (y->_M_left != 0) y = y->_M_left; x = y->_M_right; }
  if (y != z) {
    z->_M_left->_M_parent = y; y->_M_left = z->_M_left;
    if (y != z->_M_right) { xp = y->_M_parent; if (x) x->_M_parent = y->_M_parent; y->_M_parent->_M_left = x; y->_M_right = z->_M_right; z->_M_right->_M_parent = y; } else xp = y;
    if (root == z) root = y; else if (z->_M_parent->_M_left == z) z->_M_parent->_M_left = y; else z->_M_parent->_M_right = y;
    y->_M_parent = z->_M_parent; std::swap(y->_M_color, z->_M_color); y = z;
  } else {
    xp = y->_M_parent; if (x) x->_M_parent = y->_M_parent;
    if (root == z) root = x; else if (z->_M_parent->_M_left == z) z->_M_parent->_M_left = x; else z->_M_parent->_M_right = x;
    if (leftmost == z) { if (z->_M_right == 0) leftmost = z->_M_parent; else { auto m = x; while (m->_M_left) m = m->_M_left; leftmost = m; } }
    if (rightmost == z) { if (z->_M_left == 0) rightmost = z->_M_parent; else { auto m = x; while (m->_M_right) m = m->_M_right; rightmost = m; } }
  }
  if (y->_M_color != _S_red) {
    while (x != root && (x == 0 || x->_M_color == _S_black))
      if (x == xp->_M_left) {
        auto w = xp->_M_right;
        if (w->_M_color == _S_red) { w->_M_color = _S_black; xp->_M_color = _S_red; rot_l(xp, root); w = xp->_M_right; }
        if ((w->_M_left == 0 || w->_M_left->_M_color == _S_black) && (w->_M_right == 0 || w->_M_right->_M_color == _S_black)) { w->_M_color = _S_red; x = xp; xp = xp->_M_parent; }
        else { if (w->_M_right == 0 || w->_M_right->_M_color == _S_black) { w->_M_left->_M_color = _S_black; w->_M_color = _S_red; rot_r(w, root); w = xp->_M_right; } w->_M_color = xp->_M_color; xp->_M_color = _S_black; if (w->_M_right) w->_M_right->_M_color = _S_black; rot_l(xp, root); break; }
      } else {
        auto w = xp->_M_left;
        if (w->_M_color == _S_red) { w->_M_color = _S_black; xp->_M_color = _S_red; rot_r(xp, root); w = xp->_M_left; }
        if ((w->_M_right == 0 || w->_M_right->_M_color == _S_black) && (w->_M_left == 0 || w->_M_left->_M_color == _S_black)) { w->_M_color = _S_red; x = xp; xp = xp->_M_parent; }
        else { if (w->_M_left == 0 || w->_M_left->_M_color == _S_black) { w->_M_right->_M_color = _S_black; w->_M_color = _S_red; rot_l(w, root); w = xp->_M_left; } w->_M_color = xp->_M_color; xp->_M_color = _S_black; if (w->_M_left) w->_M_left->_M_color = _S_black; rot_r(xp, root); break; }
      }
    if (x) x->_M_color = _S_black;
  }
  return y;
}
namespace __detail {
void _List_node_base::_M_hook(_List_node_base *const p) noexcept { _M_next = p; _M_prev = p->_M_prev; p->_M_prev->_M_next = this; p->_M_prev = this; }
void _List_node_base::_M_unhook() noexcept { auto n = _M_next, p = _M_prev; p->_M_next = n; n->_M_prev = p; }
void _List_node_base::_M_transfer(_List_node_base *const f, _List_node_base *const l) noexcept { if (this != l) { l->_M_prev->_M_next = this; f->_M_prev->_M_next = l; this->_M_prev->_M_next = f; auto t = this->_M_prev; this->_M_prev = l->_M_prev; l->_M_prev = f->_M_prev; f->_M_prev = t; } }
void _List_node_base::_M_reverse() noexcept { auto t = this; do { std::swap(t->_M_next, t->_M_prev); t = t->_M_prev; } while (t != this); }
void _List_node_base::swap(_List_node_base &x, _List_node_base &y) noexcept {
  if (x._M_next != &x) { if (y._M_next != &y) { std::swap(x._M_next, y._M_next); std::swap(x._M_prev, y._M_prev); x._M_next->_M_prev = x._M_prev->_M_next = &x; y._M_next->_M_prev = y._M_prev->_M_next = &y; }
    else { y._M_next = x._M_next; y._M_prev = x._M_prev; y._M_next->_M_prev = y._M_prev->_M_next = &y; x._M_next = x._M_prev = &x; } }
  else if (y._M_next != &y) { x._M_next = y._M_next; x._M_prev = y._M_prev; x._M_next->_M_prev = x._M_prev->_M_next = &x; y._M_next = y._M_prev = &y; }
}
// same growth policy as libstdc++ (max load factor 1), so bucket order matches the real container
static const unsigned primes[] = {2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37, 41, 43, 47, 53, 59, 61, 67, 71, 73, 79, 83, 89, 97, 103, 109, 113, 127, 137, 139, 149, 157, 167, 179, 193, 199, 211, 227, 241, 257, 277, 293, 313, 337, 359, 383, 409, 439, 467, 503, 541, 577, 619, 661, 709, 761, 823, 887, 953, 1031, 1109, 1193, 1289, 1381, 1493, 1613, 1741, 1879, 2029, 2179, 2357, 2549, 2753, 2971, 3209, 3469, 3739, 4027, 4349, 4703, 5087, 5503, 5953, 6427, 6949, 7517, 8123, 8783, 9497, 10273};
size_t _Prime_rehash_policy::_M_next_bkt(size_t n) const {
  static const unsigned char fast[] = {2, 2, 2, 3, 5, 5, 7, 7, 11, 11, 11, 11, 13, 13};
  if (n < sizeof fast) { if (n == 0) return 1; _M_next_resize = fast[n]; return fast[n]; }
  for (unsigned p : primes) if (p >= n) { _M_next_resize = p; return p; }
  __builtin_trap();
}
std::pair<bool, size_t> _Prime_rehash_policy::_M_need_rehash(size_t nb, size_t ne, size_t ni) const {
  if (ne + ni > _M_next_resize) { size_t m = ne + ni; if (!_M_next_resize && m < 11) m = 11; if (m >= nb) return {true, _M_next_bkt(std::max(m + 1, nb * 2))}; _M_next_resize = nb; return {false, 0}; }
  return {false, 0};
}
} // namespace __detail
// any function of the bytes is admissible; a fixed one makes every look-up compare keys
size_t _Hash_bytes(const void *p, size_t n, size_t seed) { return 0x5bd1e995; }
size_t _Fnv_hash_bytes(const void *p, size_t n, size_t seed) { return 0x5bd1e995; }

// exceptions
exception::~exception() noexcept {} const char *exception::what() const noexcept { return "std::exception"; }
bad_exception::~bad_exception() noexcept {} const char *bad_exception::what() const noexcept { return "std::bad_exception"; }
bad_alloc::~bad_alloc() noexcept {} const char *bad_alloc::what() const noexcept { return "std::bad_alloc"; }
bad_array_new_length::~bad_array_new_length() noexcept {} const char *bad_array_new_length::what() const noexcept { return "std::bad_array_new_length"; }
bad_cast::~bad_cast() noexcept {} const char *bad_cast::what() const noexcept { return "std::bad_cast"; }
bad_typeid::~bad_typeid() noexcept {} const char *bad_typeid::what() const noexcept { return "std::bad_typeid"; }
bad_function_call::~bad_function_call() noexcept {} const char *bad_function_call::what() const noexcept { return "bad_function_call"; }
static char *cow(const char *s, size_t n) { char *r = (char *)malloc(n + 1); for (size_t i = 0; i < n; i++) r[i] = s[i]; r[n] = 0; return r; }
__cow_string::__cow_string() { _M_p = cow("", 0); }
__cow_string::__cow_string(const std::string &s) { _M_p = cow(s.c_str(), s.size()); }
__cow_string::__cow_string(const char *s, size_t n) { _M_p = cow(s, n); }
__cow_string::__cow_string(const __cow_string &o) noexcept { _M_p = cow(o._M_p, strlen(o._M_p)); }
__cow_string &__cow_string::operator=(const __cow_string &o) noexcept { if (this != &o) { free((void *)_M_p); _M_p = cow(o._M_p, strlen(o._M_p)); } return *this; }
__cow_string::~__cow_string() { free((void *)_M_p); }
__cow_string::__cow_string(__cow_string &&o) noexcept { _M_p = cow(o._M_p, strlen(o._M_p)); }
__cow_string &__cow_string::operator=(__cow_string &&o) noexcept { return *this = (const __cow_string &)o; }
#define EXC2(T) T::T(const string &s) : _M_msg(s) {} T::T(const char *s) : _M_msg(s, strlen(s)) {} T::T(const T &o) noexcept : _M_msg(o._M_msg) {} T::T(T &&o) noexcept : _M_msg(o._M_msg) {} T &T::operator=(const T &o) noexcept { _M_msg = o._M_msg; return *this; } T &T::operator=(T &&o) noexcept { _M_msg = o._M_msg; return *this; } T::~T() noexcept {} const char *T::what() const noexcept { return _M_msg._M_p; }
EXC2(logic_error) EXC2(runtime_error)
#define EXC(T, B) T::T(const string &s) : B(s) {} T::T(const char *s) : B(s) {} T::~T() noexcept {}
EXC(domain_error, logic_error) EXC(invalid_argument, logic_error) EXC(length_error, logic_error) EXC(out_of_range, logic_error)
EXC(range_error, runtime_error) EXC(overflow_error, runtime_error) EXC(underflow_error, runtime_error)
type_info::~type_info() {}
void __throw_bad_alloc() { throw bad_alloc(); }
void __throw_bad_array_new_length() { throw bad_array_new_length(); }
void __throw_bad_cast() { throw bad_cast(); }
void __throw_bad_exception() { throw bad_exception(); }
void __throw_bad_function_call() { throw bad_function_call(); }
void __throw_logic_error(const char *s) { throw logic_error(s); }
void __throw_domain_error(const char *s) { throw domain_error(s); }
void __throw_invalid_argument(const char *s) { throw invalid_argument(s); }
void __throw_length_error(const char *s) { throw length_error(s); }
void __throw_out_of_range(const char *s) { throw out_of_range(s); }
void __throw_out_of_range_fmt(const char *s, ...) { throw out_of_range(s); }
void __throw_runtime_error(const char *s) { throw runtime_error(s); }
void __throw_range_error(const char *s) { throw range_error(s); }
void __throw_overflow_error(const char *s) { throw overflow_error(s); }
void __throw_bad_optional_access() { throw bad_exception(); }
void __throw_bad_variant_access(unsigned) { throw bad_exception(); }
} // namespace std
extern "C" float nextafterf(float x, float y) {
  if (x != x || y != y) return x + y; if (x == y) return y;
  union { float f; unsigned u; } v; v.f = x;
  if (x == 0) { v.u = 1; return y > 0 ? v.f : -v.f; }
  if ((x < y) == (x > 0)) v.u++; else v.u--;
  return v.f;
}
