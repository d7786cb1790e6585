// Run time functions of libstdc++ that headers declare but whose source is not installed: the ordered-tree helpers.
// The tree is kept ordered but not balanced; nothing in the contracts depends on balance.
#include <map>
#include <unordered_map>
#include <string>
template class std::__cxx11::basic_string<char>;
namespace std {
static _Rb_tree_node_base* inc(_Rb_tree_node_base* x) {
  if (x->_M_right) { x = x->_M_right; while (x->_M_left) x = x->_M_left; }
  else { _Rb_tree_node_base* y = x->_M_parent; while (x == y->_M_right) { x = y; y = y->_M_parent; } if (x->_M_right != y) x = y; }
  return x;
}
static _Rb_tree_node_base* dec(_Rb_tree_node_base* x) {
  if (x->_M_color == _S_red && x->_M_parent->_M_parent == x) x = x->_M_right;
  else if (x->_M_left) { x = x->_M_left; while (x->_M_right) x = x->_M_right; }
  else { _Rb_tree_node_base* y = x->_M_parent; while (x == y->_M_left) { x = y; y = y->_M_parent; } x = y; }
  return x;
}
_Rb_tree_node_base* _Rb_tree_increment(_Rb_tree_node_base* x) throw() { return inc(x); }
const _Rb_tree_node_base* _Rb_tree_increment(const _Rb_tree_node_base* x) throw() { return inc(const_cast<_Rb_tree_node_base*>(x)); }
_Rb_tree_node_base* _Rb_tree_decrement(_Rb_tree_node_base* x) throw() { return dec(x); }
const _Rb_tree_node_base* _Rb_tree_decrement(const _Rb_tree_node_base* x) throw() { return dec(const_cast<_Rb_tree_node_base*>(x)); }
void _Rb_tree_insert_and_rebalance(const bool left, _Rb_tree_node_base* x, _Rb_tree_node_base* p, _Rb_tree_node_base& h) throw() {
  x->_M_parent = p; x->_M_left = nullptr; x->_M_right = nullptr; x->_M_color = _S_black;
  if (p == &h) { h._M_parent = x; h._M_left = x; h._M_right = x; h._M_color = _S_red; }
  else if (left) { p->_M_left = x; if (p == h._M_left) h._M_left = x; }
  else { p->_M_right = x; if (p == h._M_right) h._M_right = x; }
}
_Rb_tree_node_base* _Rb_tree_rebalance_for_erase(_Rb_tree_node_base* const z, _Rb_tree_node_base& h) throw() {
  _Rb_tree_node_base* nxt = inc(z); _Rb_tree_node_base* prv = (z == h._M_left) ? nullptr : dec(z);
  _Rb_tree_node_base* r;                      // what takes the place of z
  if (!z->_M_left) r = z->_M_right;
  else if (!z->_M_right) r = z->_M_left;
  else {
    _Rb_tree_node_base* s = z->_M_right; while (s->_M_left) s = s->_M_left;
    if (s != z->_M_right) {
      s->_M_parent->_M_left = s->_M_right; if (s->_M_right) s->_M_right->_M_parent = s->_M_parent;
      s->_M_right = z->_M_right; z->_M_right->_M_parent = s;
    }
    s->_M_left = z->_M_left; z->_M_left->_M_parent = s; r = s;
  }
  if (r) r->_M_parent = z->_M_parent;
  if (z == h._M_parent) h._M_parent = r;
  else if (z->_M_parent->_M_left == z) z->_M_parent->_M_left = r; else z->_M_parent->_M_right = r;
  if (!h._M_parent) { h._M_left = &h; h._M_right = &h; }
  else { if (h._M_left == z) h._M_left = nxt; if (h._M_right == z) h._M_right = prv; }
  return z;
}
namespace __detail {
// one bucket: a hash table is then a list, which has the same meaning
size_t _Prime_rehash_policy::_M_next_bkt(size_t) const { return 1; }
pair<bool, size_t> _Prime_rehash_policy::_M_need_rehash(size_t, size_t, size_t) const { return {false, 0}; }
}
}
