// Compiled-in versions of the few container routines that libstdc++ keeps in its shared object: without them MemorySanitizer
// does not see the links they write and every map or list would look uninitialised.
#if defined(__has_feature)
#if __has_feature(memory_sanitizer)
#define VF_MSAN 1
#include <map>
#include <list>
#include <string>
template class std::basic_string<char>;
namespace std {
static inline void rot(_Rb_tree_node_base* x, _Rb_tree_node_base*& root, bool left) {
  _Rb_tree_node_base* y = left ? x->_M_right : x->_M_left;
  if (left) { x->_M_right = y->_M_left; if (y->_M_left) y->_M_left->_M_parent = x; }
  else { x->_M_left = y->_M_right; if (y->_M_right) y->_M_right->_M_parent = x; }
  y->_M_parent = x->_M_parent;
  if (x == root) root = y; else if (x == x->_M_parent->_M_left) x->_M_parent->_M_left = y; else x->_M_parent->_M_right = y;
  if (left) y->_M_left = x; else y->_M_right = x;
  x->_M_parent = y;
}
void _Rb_tree_insert_and_rebalance(const bool left, _Rb_tree_node_base* x, _Rb_tree_node_base* p, _Rb_tree_node_base& h) throw() {
  _Rb_tree_node_base*& root = h._M_parent; x->_M_parent = p; x->_M_left = 0; x->_M_right = 0; x->_M_color = _S_red;
  if (left) { p->_M_left = x; if (p == &h) { h._M_parent = x; h._M_right = x; } else if (p == h._M_left) h._M_left = x; }
  else { p->_M_right = x; if (p == h._M_right) h._M_right = x; }
  while (x != root && x->_M_parent->_M_color == _S_red) {
    _Rb_tree_node_base* g = x->_M_parent->_M_parent; bool l = x->_M_parent == g->_M_left; _Rb_tree_node_base* u = l ? g->_M_right : g->_M_left;
    if (u && u->_M_color == _S_red) { x->_M_parent->_M_color = _S_black; u->_M_color = _S_black; g->_M_color = _S_red; x = g; continue; }
    if (x == (l ? x->_M_parent->_M_right : x->_M_parent->_M_left)) { x = x->_M_parent; rot(x, root, l); }
    x->_M_parent->_M_color = _S_black; g->_M_color = _S_red; rot(g, root, !l);
  }
  root->_M_color = _S_black;
}
_Rb_tree_node_base* _Rb_tree_rebalance_for_erase(_Rb_tree_node_base* const z, _Rb_tree_node_base& h) throw() {
  _Rb_tree_node_base *&root = h._M_parent, *&lm = h._M_left, *&rm = h._M_right, *y = z, *x = 0, *xp = 0;
  if (!y->_M_left) x = y->_M_right; else if (!y->_M_right) x = y->_M_left; else { y = y->_M_right; while (y->_M_left) y = y->_M_left; x = y->_M_right; }
  if (y != z) {
    z->_M_left->_M_parent = y; y->_M_left = z->_M_left;
    if (y != z->_M_right) { xp = y->_M_parent; if (x) x->_M_parent = y->_M_parent; y->_M_parent->_M_left = x; y->_M_right = z->_M_right; z->_M_right->_M_parent = y; } else xp = y;
    if (root == z) root = y; else if (z->_M_parent->_M_left == z) z->_M_parent->_M_left = y; else z->_M_parent->_M_right = y;
    y->_M_parent = z->_M_parent; std::swap(y->_M_color, z->_M_color); y = z;
  } else {
    xp = y->_M_parent; if (x) x->_M_parent = y->_M_parent;
    if (root == z) root = x; else if (z->_M_parent->_M_left == z) z->_M_parent->_M_left = x; else z->_M_parent->_M_right = x;
    if (lm == z) { if (!z->_M_right) lm = z->_M_parent; else { _Rb_tree_node_base* q = x; while (q->_M_left) q = q->_M_left; lm = q; } }
    if (rm == z) { if (!z->_M_left) rm = z->_M_parent; else { _Rb_tree_node_base* q = x; while (q->_M_right) q = q->_M_right; rm = q; } }
  }
  if (y->_M_color != _S_red) {
    while (x != root && (!x || x->_M_color == _S_black)) {
      bool l = x == xp->_M_left; _Rb_tree_node_base* w = l ? xp->_M_right : xp->_M_left;
      if (w->_M_color == _S_red) { w->_M_color = _S_black; xp->_M_color = _S_red; rot(xp, root, l); w = l ? xp->_M_right : xp->_M_left; }
      _Rb_tree_node_base *&wn = l ? w->_M_left : w->_M_right, *&wf = l ? w->_M_right : w->_M_left;
      if ((!wn || wn->_M_color == _S_black) && (!wf || wf->_M_color == _S_black)) { w->_M_color = _S_red; x = xp; xp = xp->_M_parent; continue; }
      if (!wf || wf->_M_color == _S_black) { wn->_M_color = _S_black; w->_M_color = _S_red; rot(w, root, !l); w = l ? xp->_M_right : xp->_M_left; }
      w->_M_color = xp->_M_color; xp->_M_color = _S_black; { _Rb_tree_node_base* f = l ? w->_M_right : w->_M_left; if (f) f->_M_color = _S_black; } rot(xp, root, l); break;
    }
    if (x) x->_M_color = _S_black;
  }
  return y;
}
namespace __detail {
void _List_node_base::_M_hook(_List_node_base* const p) throw() { _M_next = p; _M_prev = p->_M_prev; p->_M_prev->_M_next = this; p->_M_prev = this; }
void _List_node_base::_M_unhook() throw() { _List_node_base *n = _M_next, *p = _M_prev; p->_M_next = n; n->_M_prev = p; }
void _List_node_base::_M_transfer(_List_node_base* const f, _List_node_base* const l) throw() {
  if (this != l) { l->_M_prev->_M_next = this; f->_M_prev->_M_next = l; _M_prev->_M_next = f; _List_node_base* t = _M_prev; _M_prev = l->_M_prev; l->_M_prev = f->_M_prev; f->_M_prev = t; }
}
void _List_node_base::_M_reverse() throw() { _List_node_base* t = this; do { std::swap(t->_M_next, t->_M_prev); t = t->_M_prev; } while (t != this); }
void _List_node_base::swap(_List_node_base& x, _List_node_base& y) throw() {
  if (x._M_next != &x) { if (y._M_next != &y) { std::swap(x._M_next, y._M_next); std::swap(x._M_prev, y._M_prev); x._M_next->_M_prev = x._M_prev->_M_next = &x; y._M_next->_M_prev = y._M_prev->_M_next = &y; }
    else { y._M_next = x._M_next; y._M_prev = x._M_prev; y._M_next->_M_prev = y._M_prev->_M_next = &y; x._M_next = x._M_prev = &x; } }
  else if (y._M_next != &y) { x._M_next = y._M_next; x._M_prev = y._M_prev; x._M_next->_M_prev = x._M_prev->_M_next = &x; y._M_next = y._M_prev = &y; }
}
}
}
#endif
#endif
