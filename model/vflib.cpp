// Models of the parts of libstdc++ that live in the shared library.
#include <map>
#include <set>
#include <list>
#include <unordered_map>
#include <string>
#include "vf.h"
namespace std {
_Rb_tree_node_base* _Rb_tree_increment(_Rb_tree_node_base* x) throw() {
  if (x->_M_right) { x = x->_M_right; while (x->_M_left) x = x->_M_left; }
  else { _Rb_tree_node_base* y = x->_M_parent; while (x == y->_M_right) { x = y; y = y->_M_parent; } if (x->_M_right != y) x = y; }
  return x;
}
const _Rb_tree_node_base* _Rb_tree_increment(const _Rb_tree_node_base* x) throw() { return _Rb_tree_increment(const_cast<_Rb_tree_node_base*>(x)); }
_Rb_tree_node_base* _Rb_tree_decrement(_Rb_tree_node_base* x) throw() {
  if (x->_M_color == _S_red && x->_M_parent->_M_parent == x) x = x->_M_right;
  else if (x->_M_left) { _Rb_tree_node_base* y = x->_M_left; while (y->_M_right) y = y->_M_right; x = y; }
  else { _Rb_tree_node_base* y = x->_M_parent; while (x == y->_M_left) { x = y; y = y->_M_parent; } x = y; }
  return x;
}
const _Rb_tree_node_base* _Rb_tree_decrement(const _Rb_tree_node_base* x) throw() { return _Rb_tree_decrement(const_cast<_Rb_tree_node_base*>(x)); }
// plain binary search tree (no rebalancing): all nodes black, header red
void _Rb_tree_insert_and_rebalance(const bool insert_left, _Rb_tree_node_base* x, _Rb_tree_node_base* p, _Rb_tree_node_base& header) throw() {
  x->_M_parent = p; x->_M_left = 0; x->_M_right = 0; x->_M_color = _S_black;
  if (insert_left) {
    p->_M_left = x;
    if (p == &header) { header._M_parent = x; header._M_right = x; }
    else if (p == header._M_left) header._M_left = x;
  } else { p->_M_right = x; if (p == header._M_right) header._M_right = x; }
}
_Rb_tree_node_base* _Rb_tree_rebalance_for_erase(_Rb_tree_node_base* const z, _Rb_tree_node_base& header) throw() {
  _Rb_tree_node_base *&root = header._M_parent, *&leftmost = header._M_left, *&rightmost = header._M_right;
  _Rb_tree_node_base *y = z, *x = 0;
  if (y->_M_left == 0) x = y->_M_right; else if (y->_M_right == 0) x = y->_M_left; else { y = y->_M_right; while (y->_M_left) y = y->_M_left; x = y->_M_right; }
  if (y != z) {
    z->_M_left->_M_parent = y; y->_M_left = z->_M_left;
    if (y != z->_M_right) { if (x) x->_M_parent = y->_M_parent; y->_M_parent->_M_left = x; y->_M_right = z->_M_right; z->_M_right->_M_parent = y; }
    if (root == z) root = y; else if (z->_M_parent->_M_left == z) z->_M_parent->_M_left = y; else z->_M_parent->_M_right = y;
    y->_M_parent = z->_M_parent; y->_M_color = z->_M_color; y = z;
  } else {
    if (x) x->_M_parent = y->_M_parent;
    if (root == z) root = x; else if (z->_M_parent->_M_left == z) z->_M_parent->_M_left = x; else z->_M_parent->_M_right = x;
    if (leftmost == z) { if (z->_M_right == 0) leftmost = z->_M_parent; else { _Rb_tree_node_base* q = x; while (q->_M_left) q = q->_M_left; leftmost = q; } }
    if (rightmost == z) { if (z->_M_left == 0) rightmost = z->_M_parent; else { _Rb_tree_node_base* q = x; while (q->_M_right) q = q->_M_right; rightmost = q; } }
  }
  return y;
}
namespace __detail {
static size_t nextPrime(size_t n) { static const size_t p[] = {1, 2, 5, 11, 13, 29, 59, 127, 257, 541, 1109, 2357, 5087, 10273, 20753, 42043, 85229, 172933}; for (size_t q : p) if (q >= n) return q; return n | 1; }
size_t _Prime_rehash_policy::_M_next_bkt(size_t n) const { size_t r = nextPrime(n); _M_next_resize = (size_t)(r * (double)_M_max_load_factor); return r; }
pair<bool, size_t> _Prime_rehash_policy::_M_need_rehash(size_t n_bkt, size_t n_elt, size_t n_ins) const {
  if (n_elt + n_ins > _M_next_resize) {
    size_t need = n_elt + n_ins; if (_M_next_resize == 0 && need < 11) need = 11;
    if (need >= n_bkt) { size_t want = need + 1 > n_bkt * 2 ? need + 1 : n_bkt * 2; return {true, _M_next_bkt(want)}; }
    _M_next_resize = n_bkt; return {false, 0};
  }
  return {false, 0};
}
void _List_node_base::_M_hook(_List_node_base* const p) noexcept { _M_next = p; _M_prev = p->_M_prev; p->_M_prev->_M_next = this; p->_M_prev = this; }
void _List_node_base::_M_unhook() noexcept { _List_node_base *n = _M_next, *p = _M_prev; p->_M_next = n; n->_M_prev = p; }
void _List_node_base::_M_transfer(_List_node_base* const first, _List_node_base* const last) noexcept {
  if (this != last) { last->_M_prev->_M_next = this; first->_M_prev->_M_next = last; _M_prev->_M_next = first; _List_node_base* t = _M_prev; _M_prev = last->_M_prev; last->_M_prev = first->_M_prev; first->_M_prev = t; }
}
void _List_node_base::_M_reverse() noexcept { _List_node_base* t = this; do { _List_node_base* n = t->_M_next; t->_M_next = t->_M_prev; t->_M_prev = n; t = n; } while (t != this); }
void _List_node_base::swap(_List_node_base& x, _List_node_base& y) noexcept {
  if (x._M_next != &x) { if (y._M_next != &y) { _List_node_base* t = x._M_next; x._M_next = y._M_next; y._M_next = t; t = x._M_prev; x._M_prev = y._M_prev; y._M_prev = t; x._M_next->_M_prev = x._M_prev->_M_next = &x; y._M_next->_M_prev = y._M_prev->_M_next = &y; } else { y._M_next = x._M_next; y._M_prev = x._M_prev; y._M_next->_M_prev = y._M_prev->_M_next = &y; x._M_next = x._M_prev = &x; } }
  else if (y._M_next != &y) { x._M_next = y._M_next; x._M_prev = y._M_prev; x._M_next->_M_prev = x._M_prev->_M_next = &x; y._M_next = y._M_prev = &y; }
}
}  // namespace __detail
size_t _Hash_bytes(const void* ptr, size_t len, size_t seed) { size_t h = seed ^ 1469598103934665603ull; const unsigned char* p = (const unsigned char*)ptr; for (size_t i = 0; i < len; i++) { h ^= p[i]; h *= 1099511628211ull; } return h; }
}  // namespace std
extern "C" {
char* strcpy(char* d, const char* s) { char* r = d; while ((*d++ = *s++)) {} return r; }
char* strncpy(char* d, const char* s, size_t n) { size_t i = 0; for (; i < n && s[i]; i++) d[i] = s[i]; for (; i < n; i++) d[i] = 0; return d; }
char* strcat(char* d, const char* s) { char* r = d; while (*d) d++; while ((*d++ = *s++)) {} return r; }
int strncmp(const char* a, const char* b, size_t n) { for (size_t i = 0; i < n; i++) { if (a[i] != b[i]) return (unsigned char)a[i] < (unsigned char)b[i] ? -1 : 1; if (!a[i]) return 0; } return 0; }
char* strchr(const char* s, int c) { for (;; s++) { if (*s == (char)c) return (char*)s; if (!*s) return 0; } }
double modf(double x, double* ip) { double t = (double)(long)x; *ip = t; return x - t; }
}
#include <string>
template class std::basic_string<char>;
#include <stdlib.h>
extern "C" {
div_t div(int a, int b) __THROW { return {a / b, a % b}; }
ldiv_t ldiv(long a, long b) __THROW { return {a / b, a % b}; }
lldiv_t lldiv(long long a, long long b) __THROW { return {a / b, a % b}; }
}
extern "C" _Complex double __muldc3(double a, double b, double c, double d) { return __builtin_complex(a * c - b * d, a * d + b * c); }
extern "C" _Complex double __divdc3(double a, double b, double c, double d) { double n = c * c + d * d; return __builtin_complex((a * c + b * d) / n, (b * c - a * d) / n); }
static int vfErrno;
extern "C" {
int* __errno_location() __THROW { return &vfErrno; }
static unsigned long vfDigits(const char* s, char** e, int base, bool* neg, bool* over, unsigned long limP, unsigned long limN) {
  const char* p = s; *neg = *over = false; while (*p == ' ' || (*p >= 9 && *p <= 13)) ++p; if (*p == '+' || *p == '-') *neg = *p++ == '-';
  if (base == 0) base = 10; unsigned long v = 0; bool any = false; unsigned long lim = *neg ? limN : limP;
  for (; *p >= '0' && *p < '0' + base && *p <= '9'; ++p) { any = true; unsigned long d = *p - '0'; if (v > (lim - d) / base) *over = true; else v = v * base + d; }
  if (e) *e = (char*)(any ? p : s); if (*over) { vfErrno = 34; v = lim; } return v;
}
long strtol(const char* s, char** e, int b) __THROW { bool n, o; unsigned long v = vfDigits(s, e, b, &n, &o, 0x7fffffffffffffffUL, 0x8000000000000000UL); return (long)(n ? 0 - v : v); }
long long strtoll(const char* s, char** e, int b) __THROW { return strtol(s, e, b); }
unsigned long strtoul(const char* s, char** e, int b) __THROW { bool n, o; unsigned long v = vfDigits(s, e, b, &n, &o, ~0UL, ~0UL); return n && !o ? 0 - v : v; }
unsigned long long strtoull(const char* s, char** e, int b) __THROW { return strtoul(s, e, b); }
__attribute__((weak)) int close(int) { return 0; }
}
extern "C" void bzero(void* p, size_t n) __THROW { __builtin_memset(p, 0, n); }
