// The node functions of the standard ordered containers (std::map, std::set) live in the C++ runtime library, not in
// its headers. Their contracts: ordinary binary search tree operations (no rebalancing: balance is not observable).
#pragma once
#ifndef VC_NATIVE
#include "vc.h"
typedef std::_Rb_tree_node_base RbNode;
static RbNode *rb_next(RbNode *x)
{
    if (x->_M_right) { x = x->_M_right; while (x->_M_left) x = x->_M_left; return x; }
    RbNode *y = x->_M_parent;
    while (x == y->_M_right) { x = y; y = y->_M_parent; }
    if (x->_M_right != y) x = y;
    return x;
}
static RbNode *rb_prev(RbNode *x)
{
    if (x->_M_color == std::_S_red && x->_M_parent->_M_parent == x) return x->_M_right;
    if (x->_M_left) { RbNode *y = x->_M_left; while (y->_M_right) y = y->_M_right; return y; }
    RbNode *y = x->_M_parent;
    while (x == y->_M_left) { x = y; y = y->_M_parent; }
    return y;
}
static void rb_insert(const bool left, RbNode *x, RbNode *p, RbNode &h)
{
    x->_M_parent = p; x->_M_left = 0; x->_M_right = 0; x->_M_color = std::_S_black;
    if (left)
    {
        p->_M_left = x;
        if (p == &h) { h._M_parent = x; h._M_right = x; }
        else if (p == h._M_left) h._M_left = x;
    }
    else { p->_M_right = x; if (p == h._M_right) h._M_right = x; }
}
static void rb_graft(RbNode *x, RbNode *by, RbNode &h)
{
    if (h._M_parent == x) h._M_parent = by;
    else if (x->_M_parent->_M_left == x) x->_M_parent->_M_left = by;
    else x->_M_parent->_M_right = by;
    if (by) by->_M_parent = x->_M_parent;
}
static RbNode *rb_erase(RbNode *z, RbNode &h)
{
    if (h._M_left == z) h._M_left = rb_next(z);
    if (h._M_right == z) h._M_right = z->_M_left || z->_M_parent != &h ? rb_prev(z) : &h;
    if (!z->_M_left) rb_graft(z, z->_M_right, h);
    else if (!z->_M_right) rb_graft(z, z->_M_left, h);
    else
    {
        RbNode *y = z->_M_right; while (y->_M_left) y = y->_M_left;
        if (y->_M_parent != z) { rb_graft(y, y->_M_right, h); y->_M_right = z->_M_right; y->_M_right->_M_parent = y; }
        rb_graft(z, y, h);
        y->_M_left = z->_M_left; y->_M_left->_M_parent = y;
    }
    return z;
}
VC_CONTRACT(rbnext, ".", "^std::_Rb_tree_increment\\(", rb_next)
VC_CONTRACT(rbprev, ".", "^std::_Rb_tree_decrement\\(", rb_prev)
VC_CONTRACT(rbins, ".", "^std::_Rb_tree_insert_and_rebalance\\(", rb_insert)
VC_CONTRACT(rbers, ".", "^std::_Rb_tree_rebalance_for_erase\\(", rb_erase)
#endif
