// Bitcode runtime: pieces of libstdc++.so / libc that the library under test calls
// out of line.  Compiled to bitcode and linked with every harness.
#include <string>
#include <stdexcept>
#include <functional>
#include <new>
#include <typeinfo>
#include <map>
#include <list>
#include <cstring>
#include <variant>
#include <optional>
#include <unordered_map>
template class std::basic_string<char>;
namespace std {
void __throw_length_error(const char *s) { throw length_error(s); }
void __throw_logic_error(const char *s) { throw logic_error(s); }
void __throw_out_of_range(const char *s) { throw out_of_range(s); }
void __throw_out_of_range_fmt(const char *s, ...) { throw out_of_range(s); }
void __throw_invalid_argument(const char *s) { throw invalid_argument(s); }
void __throw_runtime_error(const char *s) { throw runtime_error(s); }
void __throw_bad_alloc() { throw bad_alloc(); }
void __throw_bad_array_new_length() { throw bad_alloc(); }
void __throw_bad_function_call() { throw bad_function_call(); }
void __throw_bad_cast() { throw bad_cast(); }
// red-black tree primitives: an unbalanced search tree is observationally equal
_Rb_tree_node_base *_Rb_tree_increment(_Rb_tree_node_base *x) noexcept {
  if (x->_M_right) { x = x->_M_right; while (x->_M_left) x = x->_M_left; }
  else { _Rb_tree_node_base *y = x->_M_parent; while (x == y->_M_right) { x = y; y = y->_M_parent; } if (x->_M_right != y) x = y; }
  return x;
}
const _Rb_tree_node_base *_Rb_tree_increment(const _Rb_tree_node_base *x) noexcept { return _Rb_tree_increment(const_cast<_Rb_tree_node_base *>(x)); }
_Rb_tree_node_base *_Rb_tree_decrement(_Rb_tree_node_base *x) noexcept {
  if (x->_M_color == _S_red && x->_M_parent && x->_M_parent->_M_parent == x) x = x->_M_right;
  else if (x->_M_left) { x = x->_M_left; while (x->_M_right) x = x->_M_right; }
  else { _Rb_tree_node_base *y = x->_M_parent; while (x == y->_M_left) { x = y; y = y->_M_parent; } x = y; }
  return x;
}
const _Rb_tree_node_base *_Rb_tree_decrement(const _Rb_tree_node_base *x) noexcept { return _Rb_tree_decrement(const_cast<_Rb_tree_node_base *>(x)); }
void _Rb_tree_insert_and_rebalance(const bool left, _Rb_tree_node_base *x, _Rb_tree_node_base *p, _Rb_tree_node_base &h) noexcept {
  x->_M_parent = p; x->_M_left = nullptr; x->_M_right = nullptr; x->_M_color = _S_black;
  if (left) { p->_M_left = x; if (p == &h) { h._M_parent = x; h._M_right = x; } else if (p == h._M_left) h._M_left = x; }
  else { p->_M_right = x; if (p == h._M_right) h._M_right = x; }
}
// hashing: any deterministic function will do
size_t _Hash_bytes(const void *p, size_t n, size_t seed) {
  const unsigned char *b = (const unsigned char *)p; size_t h = seed ^ (n * 0xc6a4a7935bd1e995ul);
  for (size_t i = 0; i < n; i++) h = (h ^ b[i]) * 0x100000001b3ul;
  return h;
}
namespace __detail {
size_t _Prime_rehash_policy::_M_next_bkt(size_t n) const { size_t b = 1; while (b < n) b = b * 2 + 1; _M_next_resize = b; return b; }
pair<bool, size_t> _Prime_rehash_policy::_M_need_rehash(size_t nb, size_t ne, size_t ni) const {
  if (ne + ni > nb || (_M_next_resize == 0 && nb <= 1)) return {true, _M_next_bkt(nb * 2 > ne + ni ? nb * 2 : ne + ni + 3)};
  return {false, 0};
}
void _List_node_base::_M_hook(_List_node_base *const p) noexcept { _M_next = p; _M_prev = p->_M_prev; p->_M_prev->_M_next = this; p->_M_prev = this; }
void _List_node_base::_M_unhook() noexcept { _List_node_base *n = _M_next, *p = _M_prev; p->_M_next = n; n->_M_prev = p; }
}
}
