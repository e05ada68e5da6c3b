// Verification-only definitions of the out-of-line libstdc++ functions the code links against.
#include <bits/stl_tree.h>
#include <unordered_map>
#include <cstdint>
#include <cstring>

namespace std {
// ---- hashing
_GLIBCXX_BEGIN_NAMESPACE_VERSION
size_t _Hash_bytes(void const* p, size_t n, size_t seed)
{
    unsigned char const* c = static_cast<unsigned char const*>(p);
    size_t h = seed ^ 0x9E3779B97F4A7C15ull;
    for (size_t i = 0; i < n; ++i)
        h = (h ^ c[i]) * 0x100000001B3ull;
    return h ^ (h >> 29);
}
size_t _Fnv_hash_bytes(void const* p, size_t n, size_t seed) { return _Hash_bytes(p, n, seed); }

namespace __detail {
size_t _Prime_rehash_policy::_M_next_bkt(size_t n) const
{
    static size_t const primes[] = { 2, 3, 5, 7, 11, 13, 29, 59, 127, 257, 541, 1109, 2357, 5087, 10273,
        20753, 42043, 85229, 172933, 351061, 712697, 1447153, 2938679 };
    size_t r = 2938679;
    for (size_t q : primes)
        if (q >= n) {
            r = q;
            break;
        }
    _M_next_resize = size_t(double(r) * _M_max_load_factor);
    return r;
}
pair<bool, size_t> _Prime_rehash_policy::_M_need_rehash(size_t n_bkt, size_t n_elt, size_t n_ins) const
{
    if (n_elt + n_ins > _M_next_resize) {
        size_t want = n_elt + n_ins + 1;
        if (want < 11)
            want = 11;
        if (want > n_bkt) {
            size_t g = n_bkt * 2;
            return { true, _M_next_bkt(want > g ? want : g) };
        }
        _M_next_resize = n_bkt;
    }
    return { false, 0 };
}
}

// ---- red-black trees (std::map / std::set)
using P = _Rb_tree_node_base*;
static P inc(P x)
{
    if (x->_M_right) {
        x = x->_M_right;
        while (x->_M_left)
            x = x->_M_left;
        return x;
    }
    P y = x->_M_parent;
    while (x == y->_M_right) {
        x = y;
        y = y->_M_parent;
    }
    return x->_M_right != y ? y : x;
}
static P dec(P x)
{
    if (x->_M_color == _S_red && x->_M_parent->_M_parent == x)
        return x->_M_right;
    if (x->_M_left) {
        P y = x->_M_left;
        while (y->_M_right)
            y = y->_M_right;
        return y;
    }
    P y = x->_M_parent;
    while (x == y->_M_left) {
        x = y;
        y = y->_M_parent;
    }
    return y;
}
P _Rb_tree_increment(P x) throw() { return inc(x); }
_Rb_tree_node_base const* _Rb_tree_increment(_Rb_tree_node_base const* x) throw() { return inc(const_cast<P>(x)); }
P _Rb_tree_decrement(P x) throw() { return dec(x); }
_Rb_tree_node_base const* _Rb_tree_decrement(_Rb_tree_node_base const* x) throw() { return dec(const_cast<P>(x)); }

static void rot_l(P x, P& root)
{
    P y = x->_M_right;
    x->_M_right = y->_M_left;
    if (y->_M_left)
        y->_M_left->_M_parent = x;
    y->_M_parent = x->_M_parent;
    if (x == root)
        root = y;
    else if (x == x->_M_parent->_M_left)
        x->_M_parent->_M_left = y;
    else
        x->_M_parent->_M_right = y;
    y->_M_left = x;
    x->_M_parent = y;
}
static void rot_r(P x, P& root)
{
    P y = x->_M_left;
    x->_M_left = y->_M_right;
    if (y->_M_right)
        y->_M_right->_M_parent = x;
    y->_M_parent = x->_M_parent;
    if (x == root)
        root = y;
    else if (x == x->_M_parent->_M_right)
        x->_M_parent->_M_right = y;
    else
        x->_M_parent->_M_left = y;
    y->_M_right = x;
    x->_M_parent = y;
}
void _Rb_tree_insert_and_rebalance(bool const left, P x, P p, _Rb_tree_node_base& header) throw()
{
    P& root = header._M_parent;
    x->_M_parent = p;
    x->_M_left = 0;
    x->_M_right = 0;
    x->_M_color = _S_red;
    if (left) {
        p->_M_left = x;
        if (p == &header) {
            header._M_parent = x;
            header._M_right = x;
        } else if (p == header._M_left)
            header._M_left = x;
    } else {
        p->_M_right = x;
        if (p == header._M_right)
            header._M_right = x;
    }
    while (x != root && x->_M_parent->_M_color == _S_red) {
        P xpp = x->_M_parent->_M_parent;
        if (x->_M_parent == xpp->_M_left) {
            P y = xpp->_M_right;
            if (y && y->_M_color == _S_red) {
                x->_M_parent->_M_color = _S_black;
                y->_M_color = _S_black;
                xpp->_M_color = _S_red;
                x = xpp;
            } else {
                if (x == x->_M_parent->_M_right) {
                    x = x->_M_parent;
                    rot_l(x, root);
                }
                x->_M_parent->_M_color = _S_black;
                xpp->_M_color = _S_red;
                rot_r(xpp, root);
            }
        } else {
            P y = xpp->_M_left;
            if (y && y->_M_color == _S_red) {
                x->_M_parent->_M_color = _S_black;
                y->_M_color = _S_black;
                xpp->_M_color = _S_red;
                x = xpp;
            } else {
                if (x == x->_M_parent->_M_left) {
                    x = x->_M_parent;
                    rot_r(x, root);
                }
                x->_M_parent->_M_color = _S_black;
                xpp->_M_color = _S_red;
                rot_l(xpp, root);
            }
        }
    }
    root->_M_color = _S_black;
}
_GLIBCXX_END_NAMESPACE_VERSION
} // namespace std

// shared pointers count without atomics: one thread
extern "C" char __libc_single_threaded = 1;
