// the out-of-line parts of libstdc++'s node-based containers, by their documented behaviour (trees are not rebalanced)
#include <bits/stl_tree.h>
#include <bits/stl_list.h>
#include <list>
#include <unordered_map>
#include <cmath>
namespace std _GLIBCXX_VISIBILITY(default) {
static _Rb_tree_node_base* nextnode(_Rb_tree_node_base* x) {
    if (x->_M_right) { x = x->_M_right; while (x->_M_left) x = x->_M_left; return x; }
    _Rb_tree_node_base* y = x->_M_parent;
    while (x == y->_M_right) { x = y; y = y->_M_parent; }
    return x->_M_right != y ? y : x;
}
static _Rb_tree_node_base* prevnode(_Rb_tree_node_base* x) {
    if (x->_M_color == _S_red && x->_M_parent && x->_M_parent->_M_parent == x) return x->_M_right;
    if (x->_M_left) { x = x->_M_left; while (x->_M_right) x = x->_M_right; return x; }
    _Rb_tree_node_base* y = x->_M_parent;
    while (x == y->_M_left) { x = y; y = y->_M_parent; }
    return y;
}
__attribute__((pure)) _Rb_tree_node_base* _Rb_tree_increment(_Rb_tree_node_base* x) throw() { return nextnode(x); }
__attribute__((pure)) const _Rb_tree_node_base* _Rb_tree_increment(const _Rb_tree_node_base* x) throw() { return nextnode(const_cast<_Rb_tree_node_base*>(x)); }
__attribute__((pure)) _Rb_tree_node_base* _Rb_tree_decrement(_Rb_tree_node_base* x) throw() { return prevnode(x); }
__attribute__((pure)) const _Rb_tree_node_base* _Rb_tree_decrement(const _Rb_tree_node_base* x) throw() { return prevnode(const_cast<_Rb_tree_node_base*>(x)); }
void _Rb_tree_insert_and_rebalance(const bool left, _Rb_tree_node_base* x, _Rb_tree_node_base* p, _Rb_tree_node_base& h) throw() {
    x->_M_parent = p;
    x->_M_left = 0;
    x->_M_right = 0;
    x->_M_color = _S_black;     // only the header is red
    if (left) {
        p->_M_left = x;
        if (p == &h) { h._M_parent = x; h._M_right = x; }
        else if (p == h._M_left) h._M_left = x;
    } else {
        p->_M_right = x;
        if (p == h._M_right) h._M_right = x;
    }
}
_Rb_tree_node_base* _Rb_tree_rebalance_for_erase(_Rb_tree_node_base* const z, _Rb_tree_node_base& h) throw() {
    if (h._M_left == z) h._M_left = z->_M_right || z->_M_parent != &h ? nextnode(z) : &h;
    if (h._M_right == z) h._M_right = z->_M_left || z->_M_parent != &h ? prevnode(z) : &h;
    _Rb_tree_node_base* r;
    if (!z->_M_left) r = z->_M_right;
    else if (!z->_M_right) r = z->_M_left;
    else {
        r = z->_M_right;
        while (r->_M_left) r = r->_M_left;
        if (r != z->_M_right) {
            r->_M_parent->_M_left = r->_M_right;
            if (r->_M_right) r->_M_right->_M_parent = r->_M_parent;
            r->_M_right = z->_M_right;
            r->_M_right->_M_parent = r;
        }
        r->_M_left = z->_M_left;
        r->_M_left->_M_parent = r;
    }
    if (r) r->_M_parent = z->_M_parent;
    if (h._M_parent == z) h._M_parent = r;
    else if (z->_M_parent->_M_left == z) z->_M_parent->_M_left = r;
    else z->_M_parent->_M_right = r;
    return z;
}
namespace __detail {
void _List_node_base::_M_hook(_List_node_base* const p) throw() { _M_next = p; _M_prev = p->_M_prev; p->_M_prev->_M_next = this; p->_M_prev = this; }
void _List_node_base::_M_unhook() throw() { _M_next->_M_prev = _M_prev; _M_prev->_M_next = _M_next; }
void _List_node_base::_M_transfer(_List_node_base* const f, _List_node_base* const l) throw() {
    if (this == l) return;
    l->_M_prev->_M_next = this; f->_M_prev->_M_next = l; _M_prev->_M_next = f;
    _List_node_base* const t = _M_prev;
    _M_prev = l->_M_prev; l->_M_prev = f->_M_prev; f->_M_prev = t;
}
void _List_node_base::_M_reverse() throw() {
    _List_node_base* t = this;
    do { _List_node_base* n = t->_M_next; t->_M_next = t->_M_prev; t->_M_prev = n; t = n; } while (t != this);
}
void _List_node_base::swap(_List_node_base& x, _List_node_base& y) throw() {
    bool xe = x._M_next == &x, ye = y._M_next == &y;
    _List_node_base a = x, b = y;
    if (ye) { x._M_next = x._M_prev = &x; } else { x = b; x._M_next->_M_prev = x._M_prev->_M_next = &x; }
    if (xe) { y._M_next = y._M_prev = &y; } else { y = a; y._M_next->_M_prev = y._M_prev->_M_next = &y; }
}
size_t _Prime_rehash_policy::_M_next_bkt(size_t n) const {
    size_t p = 13;
    while (p < n) p = p * 2 + 3;
    const_cast<_Prime_rehash_policy*>(this)->_M_next_resize = p;
    return p;
}
std::pair<bool, size_t> _Prime_rehash_policy::_M_need_rehash(size_t bkt, size_t elt, size_t ins) const {
    if (elt + ins > _M_next_resize || bkt == 1) { if (elt + ins > bkt || bkt == 1) return { true, _M_next_bkt((elt + ins) * 2) }; }
    return { false, 0 };
}
}
size_t _Hash_bytes(const void* p, size_t n, size_t seed) {
    const unsigned char* c = static_cast<const unsigned char*>(p);
    size_t h = seed;
    for (size_t i = 0; i < n; i++) h = h * 31 + c[i];
    return h;
}
}
extern "C" char __libc_single_threaded = 1;
