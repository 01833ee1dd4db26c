// The part of the C++ runtime library that lives out of line, as source, so that it is executed like the rest of the program.
// Behaviourally equivalent to libstdc++ (hash values and bucket counts included); tree operations are not rebalanced.
#include <cstddef>
#include <cstring>
#include <cstdlib>
#include <string>
#include <vector>
#include <list>
#include <map>
#include <unordered_map>
#include <stdexcept>
#include <new>
#include <typeinfo>
#include <functional>
#include <system_error>
#include <memory>
#include <pthread.h>
#include <strings.h>
#include <cctype>
template class std::basic_string<char>;

namespace std {
exception::~exception() noexcept {}
const char *exception::what() const noexcept { return "std::exception"; }
bad_exception::~bad_exception() noexcept {}
const char *bad_exception::what() const noexcept { return "std::bad_exception"; }
bad_alloc::~bad_alloc() noexcept {}
const char *bad_alloc::what() const noexcept { return "std::bad_alloc"; }
bad_array_new_length::~bad_array_new_length() noexcept {}
const char *bad_array_new_length::what() const noexcept { return "std::bad_array_new_length"; }
bad_cast::~bad_cast() noexcept {}
const char *bad_cast::what() const noexcept { return "std::bad_cast"; }
bad_typeid::~bad_typeid() noexcept {}
const char *bad_typeid::what() const noexcept { return "std::bad_typeid"; }
bad_function_call::~bad_function_call() noexcept {}
const char *bad_function_call::what() const noexcept { return "bad_function_call"; }
__cow_string::__cow_string() : _M_p("") {}
__cow_string::__cow_string(const std::string &s) : _M_p("") {}
__cow_string::__cow_string(const char *s, size_t) : _M_p(s) {}
__cow_string::__cow_string(const __cow_string &o) noexcept : _M_p(o._M_p) {}
__cow_string &__cow_string::operator=(const __cow_string &o) noexcept { _M_p = o._M_p; return *this; }
__cow_string::~__cow_string() {}
__cow_string::__cow_string(__cow_string &&o) noexcept : _M_p(o._M_p) {}
__cow_string &__cow_string::operator=(__cow_string &&o) noexcept { _M_p = o._M_p; return *this; }
logic_error::logic_error(const std::string &s) : _M_msg(s) {}
logic_error::logic_error(const char *s) : _M_msg(s, 0) {}
logic_error::logic_error(const logic_error &o) noexcept : exception(o), _M_msg(o._M_msg) {}
logic_error &logic_error::operator=(const logic_error &) noexcept { return *this; }
logic_error::~logic_error() noexcept {}
const char *logic_error::what() const noexcept { return _M_msg._M_p; }
runtime_error::runtime_error(const std::string &s) : _M_msg(s) {}
runtime_error::runtime_error(const char *s) : _M_msg(s, 0) {}
runtime_error::runtime_error(const runtime_error &o) noexcept : exception(o), _M_msg(o._M_msg) {}
runtime_error &runtime_error::operator=(const runtime_error &) noexcept { return *this; }
runtime_error::~runtime_error() noexcept {}
const char *runtime_error::what() const noexcept { return _M_msg._M_p; }
#define DWEX(C, B) C::C(const std::string &s) : B(s) {} C::C(const char *s) : B(s) {} C::~C() noexcept {}
DWEX(domain_error, logic_error) DWEX(invalid_argument, logic_error) DWEX(length_error, logic_error) DWEX(out_of_range, logic_error)
DWEX(range_error, runtime_error) DWEX(overflow_error, runtime_error) DWEX(underflow_error, runtime_error)

void __throw_bad_exception() { throw bad_exception(); }
void __throw_bad_alloc() { throw bad_alloc(); }
void __throw_bad_array_new_length() { throw bad_array_new_length(); }
void __throw_bad_cast() { throw bad_cast(); }
void __throw_bad_typeid() { throw bad_typeid(); }
void __throw_logic_error(const char *s) { throw logic_error(s); }
void __throw_domain_error(const char *s) { throw domain_error(s); }
void __throw_invalid_argument(const char *s) { throw invalid_argument(s); }
void __throw_length_error(const char *s) { throw length_error(s); }
void __throw_out_of_range(const char *s) { throw out_of_range(s); }
void __throw_out_of_range_fmt(const char *s, ...) { throw out_of_range(s); }
void __throw_runtime_error(const char *s) { throw runtime_error(s); }
void __throw_range_error(const char *s) { throw range_error(s); }
void __throw_overflow_error(const char *s) { throw overflow_error(s); }
void __throw_underflow_error(const char *s) { throw underflow_error(s); }
void __throw_bad_function_call() { throw bad_function_call(); }

// murmur hash, as in libstdc++
static inline size_t unalignedLoad(const char *p) { size_t r = 0; for (int i = 7; i >= 0; i--) r = (r << 8) | (unsigned char)p[i]; return r; }
static inline size_t loadBytes(const char *p, int n) { size_t r = 0; --n; do r = (r << 8) + static_cast<unsigned char>(p[n]); while (--n >= 0); return r; }
static inline size_t shiftMix(size_t v) { return v ^ (v >> 47); }
size_t _Hash_bytes(const void *ptr, size_t len, size_t seed) {
  static const size_t mul = (((size_t)0xc6a4a793UL) << 32UL) + (size_t)0x5bd1e995UL;
  const char *const buf = static_cast<const char *>(ptr);
  const size_t aligned = len & ~(size_t)0x7; const char *const end = buf + aligned;
  size_t hash = seed ^ (len * mul);
  for (const char *p = buf; p != end; p += 8) { const size_t data = shiftMix(unalignedLoad(p) * mul) * mul; hash ^= data; hash *= mul; }
  if ((len & 0x7) != 0) { const size_t data = loadBytes(end, len & 0x7); hash ^= data; hash *= mul; }
  hash = shiftMix(hash) * mul; hash = shiftMix(hash); return hash;
}
namespace __detail {
static const unsigned long primes[] = {2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37, 41, 43, 47, 53, 59, 61, 67, 71, 73, 79, 83, 89, 97, 103, 109, 113, 127, 137, 139, 149, 157, 167, 179, 193, 199, 211, 227, 241, 257, 277, 293, 313, 337, 359, 383, 409, 439, 467, 503, 541, 577, 619, 661, 709, 761, 823, 887, 953, 1031, 1109, 1193, 1289, 1381, 1493, 1613, 1741, 1879, 2029, 2179, 2357, 2549, 2753, 2971, 3209, 3469, 3739, 4027, 4349, 4703, 5087, 5503, 5953, 6427, 6949, 7517, 8123};
size_t _Prime_rehash_policy::_M_next_bkt(size_t n) const {
  static const unsigned char fast[] = {2, 2, 2, 3, 5, 5, 7, 7, 11, 11, 11, 11, 13, 13};
  if (n < sizeof(fast)) { if (n == 0) return 1; _M_next_resize = (size_t)((double)fast[n] * (double)_M_max_load_factor); return fast[n]; }
  for (unsigned long p : primes) if (p >= n) { _M_next_resize = p; return p; }
  return n;
}
pair<bool, size_t> _Prime_rehash_policy::_M_need_rehash(size_t nb, size_t ne, size_t ni) const {
  if (ne + ni > _M_next_resize) {
    size_t want = ne + ni; if (_M_next_resize == 0 && want < 11) want = 11;
    if (want >= nb) { size_t g = want + 1; if (g < nb * 2) g = nb * 2; return {true, _M_next_bkt(g)}; }
    _M_next_resize = nb; return {false, 0};
  }
  return {false, 0};
}
void _List_node_base::_M_hook(_List_node_base *const p) noexcept { _M_next = p; _M_prev = p->_M_prev; p->_M_prev->_M_next = this; p->_M_prev = this; }
void _List_node_base::_M_unhook() noexcept { _List_node_base *const n = _M_next, *const p = _M_prev; p->_M_next = n; n->_M_prev = p; }
void _List_node_base::_M_transfer(_List_node_base *const first, _List_node_base *const last) noexcept {
  if (this != last) { last->_M_prev->_M_next = this; first->_M_prev->_M_next = last; _M_prev->_M_next = first; auto *const t = _M_prev; _M_prev = last->_M_prev; last->_M_prev = first->_M_prev; first->_M_prev = t; }
}
}
_Rb_tree_node_base *_Rb_tree_increment(_Rb_tree_node_base *x) noexcept {
  if (x->_M_right) { x = x->_M_right; while (x->_M_left) x = x->_M_left; }
  else { auto *y = x->_M_parent; while (x == y->_M_right) { x = y; y = y->_M_parent; } if (x->_M_right != y) x = y; }
  return x;
}
const _Rb_tree_node_base *_Rb_tree_increment(const _Rb_tree_node_base *x) noexcept { return _Rb_tree_increment(const_cast<_Rb_tree_node_base *>(x)); }
_Rb_tree_node_base *_Rb_tree_decrement(_Rb_tree_node_base *x) noexcept {
  if (x->_M_color == _S_red && x->_M_parent && x->_M_parent->_M_parent == x) return x->_M_right;    // header
  if (x->_M_left) { auto *y = x->_M_left; while (y->_M_right) y = y->_M_right; return y; }
  auto *y = x->_M_parent; while (x == y->_M_left) { x = y; y = y->_M_parent; } return y;
}
const _Rb_tree_node_base *_Rb_tree_decrement(const _Rb_tree_node_base *x) noexcept { return _Rb_tree_decrement(const_cast<_Rb_tree_node_base *>(x)); }
void _Rb_tree_insert_and_rebalance(const bool left, _Rb_tree_node_base *x, _Rb_tree_node_base *p, _Rb_tree_node_base &h) noexcept {
  x->_M_parent = p; x->_M_left = x->_M_right = nullptr; x->_M_color = _S_black;
  if (left) { p->_M_left = x; if (p == &h) { h._M_parent = x; h._M_right = x; } else if (p == h._M_left) h._M_left = x; }
  else { p->_M_right = x; if (p == h._M_right) h._M_right = x; }
}
_Rb_tree_node_base *_Rb_tree_rebalance_for_erase(_Rb_tree_node_base *const z, _Rb_tree_node_base &h) noexcept {
  auto repl = [&](_Rb_tree_node_base *u, _Rb_tree_node_base *v) { if (h._M_parent == u) h._M_parent = v; else if (u == u->_M_parent->_M_left) u->_M_parent->_M_left = v; else u->_M_parent->_M_right = v; if (v) v->_M_parent = u->_M_parent; };
  if (h._M_left == z) h._M_left = z->_M_right || z->_M_parent != &h ? _Rb_tree_increment(z) : &h;
  if (h._M_right == z) { if (z->_M_left) { auto *y = z->_M_left; while (y->_M_right) y = y->_M_right; h._M_right = y; } else h._M_right = z->_M_parent; }
  if (!z->_M_left) repl(z, z->_M_right);
  else if (!z->_M_right) repl(z, z->_M_left);
  else {
    auto *y = z->_M_right; while (y->_M_left) y = y->_M_left;
    if (y->_M_parent != z) { repl(y, y->_M_right); y->_M_right = z->_M_right; y->_M_right->_M_parent = y; }
    repl(z, y); y->_M_left = z->_M_left; y->_M_left->_M_parent = y;
  }
  return z;
}
const nothrow_t nothrow{};
}
extern "C" __attribute__((used)) void dw_rt_throw_bad_alloc() { throw std::bad_alloc(); }
// ---- plain C library functions
#define USED extern "C" __attribute__((used, noinline))
USED char *strcpy(char *d, const char *s) noexcept { char *r = d; while ((*d++ = *s++)) ; return r; }
USED char *strncpy(char *d, const char *s, size_t n) noexcept { size_t i = 0; for (; i < n && s[i]; i++) d[i] = s[i]; for (; i < n; i++) d[i] = 0; return d; }
USED char *strcat(char *d, const char *s) noexcept { char *r = d; while (*d) d++; while ((*d++ = *s++)) ; return r; }
USED char *strdup(const char *s) noexcept { size_t n = 0; while (s[n]) n++; char *r = (char *)__builtin_malloc(n + 1); for (size_t i = 0; i <= n; i++) r[i] = s[i]; return r; }
USED int tolower(int c) noexcept { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
USED int toupper(int c) noexcept { return c >= 'a' && c <= 'z' ? c - 32 : c; }
USED int isdigit(int c) noexcept { return c >= '0' && c <= '9'; }
USED int isalpha(int c) noexcept { return (c >= 'A' && c <= 'Z') || (c >= 'a' && c <= 'z'); }
USED int isalnum(int c) noexcept { return isdigit(c) || isalpha(c); }
USED int isupper(int c) noexcept { return c >= 'A' && c <= 'Z'; }
USED int islower(int c) noexcept { return c >= 'a' && c <= 'z'; }
USED int isspace(int c) noexcept { return c == ' ' || (c >= 9 && c <= 13); }
USED int strcasecmp(const char *a, const char *b) noexcept { for (;; a++, b++) { int x = tolower((unsigned char)*a), y = tolower((unsigned char)*b); if (x != y || !x) return x - y; } }
USED int pthread_mutex_lock(pthread_mutex_t *) noexcept { return 0; }
USED int pthread_mutex_unlock(pthread_mutex_t *) noexcept { return 0; }
USED int pthread_mutex_trylock(pthread_mutex_t *) noexcept { return 0; }
USED int pthread_rwlock_rdlock(pthread_rwlock_t *) noexcept { return 0; }
USED int pthread_rwlock_wrlock(pthread_rwlock_t *) noexcept { return 0; }
USED int pthread_rwlock_unlock(pthread_rwlock_t *) noexcept { return 0; }
USED int pthread_once(pthread_once_t *o, void (*f)()) { if (!*o) { *o = 1; f(); } return 0; }
// decimal numbers as text
static const char *dw_sign(const char *s, bool &neg) { while (isspace((unsigned char)*s)) s++; neg = *s == '-'; if (*s == '-' || *s == '+') s++; return s; }
static bool dw_digit(char c) { return c >= '0' && c <= '9'; }
USED double strtod(const char *s0, char **end) noexcept {
  bool neg; const char *s = dw_sign(s0, neg), *b = s; double v = 0, f = 1; while (dw_digit(*s)) v = v * 10 + (*s++ - '0'); if (*s == '.') { s++; while (dw_digit(*s)) { f /= 10; v += (*s++ - '0') * f; } }
  if (s > b && (*s == 'e' || *s == 'E')) { bool en; const char *t = dw_sign(s + 1, en); if (dw_digit(*t)) { int e = 0; while (dw_digit(*t)) e = e * 10 + (*t++ - '0'); for (; e > 0; e--) v = en ? v / 10 : v * 10; s = t; } }
  if (end) *end = (char *)(s > b ? s : s0); return neg ? -v : v;
}
USED float strtof(const char *s, char **e) noexcept { return (float)strtod(s, e); }
USED long strtol(const char *s0, char **end, int) noexcept { bool neg; const char *s = dw_sign(s0, neg), *b = s; long v = 0; while (dw_digit(*s)) v = v * 10 + (*s++ - '0'); if (end) *end = (char *)(s > b ? s : s0); return neg ? -v : v; }
static int dw_errno; USED int *__errno_location() noexcept { return &dw_errno; }
